//go:build test

package dist_test

import (
	"fmt"
	"slices"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/backend"
)

type mhint struct {
	desc   string
	key    string
	val    any
	size   int64
	expire time.Time
}

// hintModel is the documented queue: one FIFO per node that drops its oldest
// entry when full, and global caps on entries and bytes that refuse new ones.
type hintModel struct {
	ttl                              time.Duration
	maxNode, maxTotal                int
	maxBytes                         int64
	q                                map[string][]mhint
	queued, replayed, expired        int64
	dropped, refused                 int64
	evictions, refusals, expirations int
	lost                             map[string]bool // node+key whose newest write was given up
}

func (m *hintModel) totals() (n int, bytes int64) {
	for _, q := range m.q {
		n += len(q)
		for _, h := range q {
			bytes += h.size
		}
	}

	return n, bytes
}

func (m *hintModel) add(node string, h mhint) {
	if m.ttl <= 0 {
		m.lost[node+h.key] = true

		return
	}

	n, bytes := m.totals()
	full := m.maxNode > 0 && len(m.q[node]) >= m.maxNode

	if full {
		n--
		bytes -= m.q[node][0].size
	}

	if (m.maxTotal > 0 && n >= m.maxTotal) || (m.maxBytes > 0 && bytes+h.size > m.maxBytes) {
		m.refused++
		m.lost[node+h.key] = true

		return
	}

	if full {
		m.giveUp(node, m.q[node][0], m.q[node][1:])
		m.dropped++
		m.q[node] = m.q[node][1:]
	}

	m.queued++
	m.q[node] = append(m.q[node], h)
	delete(m.lost, node+h.key)
}

// giveUp notes a lost write unless a newer one of the key is still queued.
func (m *hintModel) giveUp(node string, h mhint, rest []mhint) {
	if !slices.ContainsFunc(rest, func(o mhint) bool { return o.key == h.key }) {
		m.lost[node+h.key] = true
	}
}

// replay returns what one cycle delivers, per node in order.
func (m *hintModel) replay(now time.Time, down func(string) bool) []string {
	var out []string

	for node, q := range m.q {
		var keep []mhint

		for i, h := range q {
			switch {
			case now.After(h.expire):
				m.expired++
				m.giveUp(node, h, q[i+1:])
			case down(node):
				keep = append(keep, h)
			default:
				m.replayed++
				out = append(out, node+" "+h.desc)
			}
		}

		m.q[node] = keep
	}

	return out
}

func (m *hintModel) check(rt *rapid.T, c *vh.Case, dm *backend.DistMemory, nodes []string) {
	for _, id := range nodes {
		if got := dm.HintedQueueSize(id); got != len(m.q[id]) {
			rt.Fatalf("%d hints queued for %s, want %d\n%s", got, id, len(m.q[id]), c.Desc())
		}
	}

	_, bytes := m.totals()
	x := dm.Metrics()
	got := [6]int64{x.HintedQueued, x.HintedReplayed, x.HintedExpired, x.HintedDropped, x.HintedGlobalDropped, x.HintedBytes}
	want := [6]int64{m.queued, m.replayed, m.expired, m.dropped, m.refused, bytes}

	if got != want {
		rt.Fatalf("hints [queued replayed expired dropped refused bytes]: %v, want %v\n%s", got, want, c.Desc())
	}
}

func perNode(l []string) map[string][]string {
	out := map[string][]string{}
	for _, s := range l {
		id, _, _ := strings.Cut(s, " ")
		out[id] = append(out[id], s)
	}

	return out
}

func TestC25Model(t *testing.T) {
	vh.Run(t, "model", "one coordinator with 1-4 replicas, random per-node, total and byte caps, time-to-live and replay interval in virtual time, 15-60 steps of writes (0-60 byte values), replicas failing and recovering, waits; queue sizes, counters, bytes and the deliveries of every replay are compared with a reference queue, and at the end every recovered replica holds the newest value of every write not given up; non-trivial: a hint evicted or refused by a cap, one expired, and one delivered", 2500, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			n := rapid.IntRange(2, 5).Draw(rt, "nodes")
			m := &hintModel{q: map[string][]mhint{}, lost: map[string]bool{}}
			m.ttl = time.Duration(rapid.SampledFrom([]int{0, 40, 200, 1000, 100000}).Draw(rt, "ttl")) * time.Millisecond
			m.maxNode = rapid.SampledFrom([]int{0, 1, 2, 5, 20}).Draw(rt, "maxNode")
			m.maxTotal = rapid.SampledFrom([]int{0, 1, 3, 8, 30}).Draw(rt, "maxTotal")
			m.maxBytes = int64(rapid.SampledFrom([]int{0, 30, 100, 300, 2000}).Draw(rt, "maxBytes"))
			interval := time.Duration(rapid.SampledFrom([]int{50, 130, 700}).Draw(rt, "interval")) * time.Millisecond

			cl := newClu(rt, 0, n)
			start := time.Now()
			cl.add(rt, 0,
				backend.WithDistHintTTL(m.ttl), backend.WithDistHintReplayInterval(interval), backend.WithDistHintMaxPerNode(m.maxNode),
				backend.WithDistHintMaxTotal(m.maxTotal), backend.WithDistHintMaxBytes(m.maxBytes),
				backend.WithDistWriteConsistency(backend.ConsistencyOne))

			var ids []string
			for i := 1; i < n; i++ {
				cl.add(rt, i)
				ids = append(ids, cl.id(i))
			}
			defer cl.stop()

			dm := cl.nodes[0]
			fl := newFlaky(cl.tr[0])
			dm.SetTransport(fl)
			synctest.Wait()
			time.Sleep(time.Microsecond)

			c.Log("%d nodes, ttl %v caps %d/%d/%d every %v", n, m.ttl, m.maxNode, m.maxTotal, m.maxBytes, interval)

			tick := 1
			newest := map[string]any{}

			for range rapid.IntRange(15, 60).Draw(rt, "steps") {
				switch op := rapid.IntRange(0, 9).Draw(rt, "op"); {
				case op < 6:
					key := rapid.SampledFrom([]string{"a", "b", "cc", "key/ünï", "longer-key-0123456789"}).Draw(rt, "key")
					owners := cl.nodes[0].DebugOwners(key)

					if id := string(owners[0]); id != cl.id(0) && !fl.isDown(id) {
						continue // another node coordinates
					}

					raw := rapid.StringN(0, 30, 60).Draw(rt, "val")

					var v any = raw
					if rapid.Bool().Draw(rt, "bytes") {
						v = []byte(raw)
					}

					it := mkItem(key, v)

					err := dm.Set(bg, it)
					if err != nil {
						rt.Fatalf("set: %v\n%s", err, c.Desc())
					}

					it.Value, it.Version = "the caller's own copy", 1<<40 // no longer the queue's business

					st := contents(dm)[key]
					newest[key] = v
					h := mhint{fmt.Sprintf("%q=%v v%d", key, v, st.ver), key, v, int64(len(key) + len(raw)), time.Now().Add(m.ttl)}
					c.Log("set %q (%d bytes)", key, h.size)

					for _, o := range owners {
						switch id := string(o); {
						case id == cl.id(0):
						case fl.isDown(id):
							m.add(id, h)
						default:
							delete(m.lost, id+key)
						}
					}

					fl.take()
				case op < 8:
					id := rapid.SampledFrom(ids).Draw(rt, "id")
					d := rapid.IntRange(0, 2).Draw(rt, "down") > 0
					fl.setDown(id, d)
					c.Log("%s down=%v", id, d)
				default:
					until := time.Since(start) + time.Duration(rapid.SampledFrom([]int{1, 20, 60, 150, 900}).Draw(rt, "wait"))*time.Millisecond
					for next := time.Duration(tick) * interval; next < until; next = time.Duration(tick) * interval {
						tick++
						time.Sleep(next + time.Nanosecond - time.Since(start))
						synctest.Wait()

						got, want := fl.take(), m.replay(start.Add(next), fl.isDown)
						if g, w := fmt.Sprint(perNode(got)), fmt.Sprint(perNode(want)); g != w {
							rt.Fatalf("replay %d delivered\n%v, want\n%v\n%s", tick-1, g, w, c.Desc())
						}
					}

					if d := until - time.Since(start); d > 0 {
						time.Sleep(d)
					}

					c.Log("wait to %v", time.Since(start))
				}

				m.check(rt, c, dm, ids)
			}

			for _, id := range ids {
				fl.setDown(id, false)
			}

			next := time.Duration(tick) * interval
			time.Sleep(next + time.Nanosecond - time.Since(start))
			synctest.Wait()
			m.replay(start.Add(next), fl.isDown)
			m.check(rt, c, dm, ids)

			if left, bytes := m.totals(); left != 0 || bytes != 0 {
				rt.Fatalf("model: %d left", left)
			}

			for key, v := range newest {
				for i := 1; i < n; i++ {
					s := contents(cl.nodes[i])[key]
					if !m.lost[cl.id(i)+key] && !sameVal(s.val, v) {
						rt.Fatalf("recovered %s has %v of %q, want %v\n%s", cl.id(i), s, key, v, c.Desc())
					}
				}
			}

			c.LabelIf(m.dropped > 0, "evicted")
			c.LabelIf(m.refused > 0, "refused")
			c.LabelIf(m.expired > 0, "expired")
			c.NT(m.dropped+m.refused > 0 && m.expired > 0 && m.replayed > 0)
		})
	})
}

func TestC25Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "2-5 writers through one coordinator, 2-3 replicas failing and recovering and replays running at the same time; the caps are never exceeded, every hint ends up in exactly one counter, and once all replicas are back and replayed the queue is empty, reports no bytes and every replica agrees with the coordinator on every key not given up; non-trivial: hints both dropped and delivered", 120, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(3, 4).Draw(rt, "nodes")
		maxNode := rapid.SampledFrom([]int{0, 3, 10}).Draw(rt, "maxNode")
		maxTotal := rapid.SampledFrom([]int{0, 8, 20}).Draw(rt, "maxTotal")
		maxBytes := int64(rapid.SampledFrom([]int{0, 100, 400}).Draw(rt, "maxBytes"))
		cl := newClu(rt, 0, n)
		cl.add(rt, 0, backend.WithDistHintTTL(time.Hour), backend.WithDistHintMaxPerNode(maxNode),
			backend.WithDistHintMaxTotal(maxTotal), backend.WithDistHintMaxBytes(maxBytes),
			backend.WithDistWriteConsistency(backend.ConsistencyOne))

		var ids []string
		for i := 1; i < n; i++ {
			cl.add(rt, i)
			ids = append(ids, cl.id(i))
		}
		defer cl.stop()

		dm := cl.nodes[0]
		fl := newFlaky(cl.tr[0])
		dm.SetTransport(fl)

		for _, id := range ids {
			fl.setDown(id, true)
		}

		var keys []string
		for i := 0; len(keys) < 6; i++ {
			if k := fmt.Sprintf("k%d", i); string(dm.DebugOwners(k)[0]) == cl.id(0) {
				keys = append(keys, k)
			}
		}

		writers := rapid.IntRange(2, 5).Draw(rt, "writers")
		plans := make([][]int, writers)

		for w := range plans {
			plans[w] = rapid.SliceOfN(rapid.IntRange(0, 5), 5, 25).Draw(rt, "plan")
		}

		flips := rapid.SliceOfN(rapid.IntRange(0, len(ids)*2-1), 2, 10).Draw(rt, "flips")
		c.Log("%d nodes caps %d/%d/%d plans %v flips %v", n, maxNode, maxTotal, maxBytes, plans, flips)

		var wg sync.WaitGroup

		stop := make(chan struct{})
		bad := make(chan string, 64)

		for w, plan := range plans {
			wg.Go(func() {
				for i, k := range plan {
					if err := dm.Set(bg, mkItem(keys[k], fmt.Sprintf("w%d-%d", w, i))); err != nil {
						bad <- err.Error()
					}
				}
			})
		}

		wg.Go(func() {
			for _, x := range flips {
				fl.setDown(ids[x/2], x%2 == 0)
				dm.ReplayHintsForTest(bg)
			}
		})

		var watch sync.WaitGroup

		watch.Go(func() {
			for {
				select {
				case <-stop:
					return
				default:
				}

				total := 0
				for _, id := range ids {
					q := dm.HintedQueueSize(id)
					total = max(total, q)

					if maxNode > 0 && q > maxNode {
						bad <- fmt.Sprintf("%d hints for %s", q, id)

						return
					}
				}

				if b := dm.Metrics().HintedBytes; (maxBytes > 0 && b > maxBytes) || b < 0 || (maxTotal > 0 && total > maxTotal) {
					bad <- fmt.Sprintf("%d bytes, %d hints queued", b, total)

					return
				}
			}
		})

		vhWithin(rt, "concurrent writes", wg.Wait)
		close(stop)
		watch.Wait()

		select {
		case msg := <-bad:
			rt.Fatalf("%s\n%s", msg, c.Desc())
		default:
		}

		account := func() {
			x := dm.Metrics()
			left := int64(0)

			for _, id := range ids {
				left += int64(dm.HintedQueueSize(id))
			}

			if x.HintedQueued != x.HintedReplayed+x.HintedExpired+x.HintedDropped+left {
				rt.Fatalf("%d hints queued, but %d delivered + %d expired + %d dropped + %d waiting\n%s", x.HintedQueued, x.HintedReplayed, x.HintedExpired, x.HintedDropped, left, c.Desc())
			}
		}

		account()

		x := dm.Metrics()

		for _, id := range ids {
			fl.setDown(id, false)
		}

		dm.ReplayHintsForTest(bg)
		account()

		y := dm.Metrics()
		if y.HintedBytes != 0 {
			rt.Fatalf("an empty queue reports %d bytes\n%s", y.HintedBytes, c.Desc())
		}

		for _, id := range ids {
			if q := dm.HintedQueueSize(id); q != 0 {
				rt.Fatalf("%d hints left for the reachable %s\n%s", q, id, c.Desc())
			}
		}

		if x.HintedDropped+x.HintedGlobalDropped == 0 {
			want := contents(dm)
			for i := 1; i < n; i++ {
				if got := contents(cl.nodes[i]); dump(got) != dump(want) {
					rt.Fatalf("replica %s:%s, coordinator:%s\n%s", cl.id(i), dump(got), dump(want), c.Desc())
				}
			}
		}

		c.NT(x.HintedDropped+x.HintedGlobalDropped > 0 && y.HintedReplayed > 0)
	})
}
