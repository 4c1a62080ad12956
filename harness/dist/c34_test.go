package dist_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// ---- C34: batched read repair ----

// peers answers reads with whatever the case planted and records the writes
// it gets.
type peers struct {
	backend.DistTransport
	mu    sync.Mutex
	held  map[string]map[string]cache.Item // node -> key -> item
	mode  map[string]string                // node -> "", fail, slow
	slow  time.Duration
	got   []string // deliveries, as peer|key|version|origin|value
	begun []string
}

func (p *peers) ForwardGet(_ context.Context, node, key string) (*cache.Item, bool, error) {
	p.mu.Lock()
	defer p.mu.Unlock()

	it, ok := p.held[node][key]
	if !ok {
		return nil, false, nil
	}

	return &it, true, nil
}

func repairString(node string, it *cache.Item) string {
	return fmt.Sprintf("%s|%q|%d|%s|%v", node, it.Key, it.Version, it.Origin, it.Value)
}

func (p *peers) ForwardSet(ctx context.Context, node string, it *cache.Item, replicate bool) error {
	if replicate {
		return errors.New("a repair asked its receiver to replicate")
	}

	p.mu.Lock()
	mode := p.mode[node]
	p.begun = append(p.begun, repairString(node, it))
	p.mu.Unlock()

	if mode == "slow" {
		select {
		case <-time.After(p.slow):
		case <-ctx.Done():
			return ctx.Err()
		}
	}

	if ctx.Err() != nil {
		return ctx.Err()
	}

	p.mu.Lock()
	p.got = append(p.got, repairString(node, it))
	p.mu.Unlock()

	if mode == "fail" {
		return errors.New("refused")
	}

	return nil
}

func (p *peers) take() []string {
	p.mu.Lock()
	defer p.mu.Unlock()

	l := p.got
	p.got = nil

	sort.Strings(l)

	return l
}

type version struct {
	ver    uint64
	origin string
	val    string
}

func (v version) newer(w version) bool {
	return v.ver > w.ver || v.ver == w.ver && v.origin < w.origin
}

// reader is a node whose keys all belong to other nodes.
func newReader(rt *rapid.T, p *peers, n, rf, nkeys int, opts ...backend.DistMemoryOption) (*backend.DistMemory, []string) {
	ms := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(rf)))

	b, err := backend.NewDistMemory(bg, append([]backend.DistMemoryOption{
		backend.WithDistMembership(ms, cluster.NewNode("self", "self:1")),
		backend.WithDistTransport(p),
		backend.WithDistReadConsistency(backend.ConsistencyAll),
	}, opts...)...)
	if err != nil {
		rt.Fatalf("NewDistMemory: %v", err)
	}

	dm := b.(*backend.DistMemory)
	for i := range n {
		ms.Upsert(cluster.NewNode(fmt.Sprintf("n%d", i), fmt.Sprintf("n%d:1", i)))
	}

	var keys []string
	for i := 0; len(keys) < nkeys; i++ {
		k := fmt.Sprintf("k%d", i)
		if !slices.Contains(dm.DebugOwners(k), cluster.NodeID("self")) {
			keys = append(keys, k)
		}
	}

	return dm, keys
}

func TestC34_Queue(t *testing.T) {
	vh.Run(t, "queue", "a key is queued again for a peer before the flush, or a batch fills up", 3000, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 4).Draw(rt, "nodes")
		rf := rapid.IntRange(1, 3).Draw(rt, "rf")
		batch := rapid.IntRange(1, 5).Draw(rt, "batch")
		iv := 100 * time.Millisecond
		nkeys := rapid.IntRange(1, 7).Draw(rt, "keys")
		failing := rapid.SampledFrom([]string{"", "", "n0", "n1"}).Draw(rt, "failing")

		big := rapid.IntRange(0, 149).Draw(rt, "big") == 1 // many keys pending at a time
		c.LabelIf(big, "many keys")

		if big {
			batch = rapid.SampledFrom([]int{140, 300, 520, 2000}).Draw(rt, "bigBatch")
			nkeys = 700
		}

		c.Log("%d nodes rf %d batch %d", n, rf, batch)

		vh.Bubble(t, func() {
			p := &peers{DistTransport: backend.NewInProcessTransport(), held: map[string]map[string]cache.Item{}, mode: map[string]string{failing: "fail"}}
			dm, keys := newReader(rt, p, n, min(rf, n), nkeys, backend.WithDistReadRepairBatch(iv, batch))

			defer dm.Stop(bg)

			pending := map[string]map[string]version{} // peer -> key -> newest
			flush := func(peer string) []string {
				var l []string
				for k, v := range pending[peer] {
					l = append(l, repairString(peer, &cache.Item{Key: k, Version: v.ver, Origin: v.origin, Value: v.val}))
				}

				delete(pending, peer)

				return l
			}
			flushAll := func() []string {
				var l []string
				for peer := range pending {
					l = append(l, flush(peer)...)
				}

				return l
			}
			compare := func(when string, want []string) {
				synctest.Wait()
				sort.Strings(want)

				if got := p.take(); !slices.Equal(got, want) {
					rt.Fatalf("%s: sent\n  %s\nexpected\n  %s\n%s", when, strings.Join(got, "\n  "), strings.Join(want, "\n  "), c.Desc())
				}
			}

			start := time.Now()
			ticks := 0

			ops, waits := rapid.IntRange(1, 30), rapid.IntRange(0, 4)
			if big { // small numbers are drawn much more often: no waits mostly
				ops, waits = rapid.IntRange(600, 900), rapid.Map(rapid.IntRange(0, 1023), func(n int) int { return n ^ 500 })
			}

			for op := range ops.Draw(rt, "ops") {
				if waits.Draw(rt, "op") == 0 {
					d := time.Duration(rapid.SampledFrom([]int{7, 31, 107, 230}).Draw(rt, "ms")) * time.Millisecond
					// never land on a tick
					if (time.Since(start)+d)%iv == 0 {
						d += time.Millisecond
					}

					time.Sleep(d)
					c.Log("wait %v", d)

					var want []string
					if k := int(time.Since(start) / iv); k > ticks {
						ticks = k
						want = flushAll()
					}

					compare("after an interval", want)

					continue
				}

				key := keys[op%len(keys)]
				if !big || rapid.IntRange(0, 20).Draw(rt, "again") == 0 {
					key = rapid.SampledFrom(keys).Draw(rt, "key")
				}

				owners := dm.DebugOwners(key)

				// all owners agree within one read, and go back and forth between reads
				newest := version{ver: rapid.Uint64Range(1, 6).Draw(rt, "ver"), origin: rapid.SampledFrom([]string{"n0", "n1", "self", "x"}).Draw(rt, "origin")}
				newest.val = fmt.Sprintf("v%d-%s", newest.ver, newest.origin)

				for _, o := range owners {
					if p.held[string(o)] == nil {
						p.held[string(o)] = map[string]cache.Item{}
					}

					p.held[string(o)][key] = cache.Item{Key: key, Value: newest.val, Version: newest.ver, Origin: newest.origin}
				}

				ctx, done := context.WithCancel(bg)
				it, ok := dm.Get(ctx, key)

				done()

				if !ok || it.Version != newest.ver || it.Origin != newest.origin {
					rt.Fatalf("read of %q gave %v %v, the owners' newest is %+v\n%s", key, it, ok, newest, c.Desc())
				}

				c.Log("read %q newest %d/%s of %v", key, newest.ver, newest.origin, owners)

				// what the reader does with its item is its own business
				it.Version += 100
				it.Value = "scribble"
				it.Key = "other"
				it.Origin = "me"

				var want []string

				for _, o := range owners {
					peer := string(o)
					if pending[peer] == nil {
						pending[peer] = map[string]version{}
					}

					old, again := pending[peer][key]
					c.NT(again)

					if !again || newest.newer(old) {
						pending[peer][key] = newest
					}

					if len(pending[peer]) >= batch {
						c.NT(batch > 1)
						c.Label("batch full")

						want = append(want, flush(peer)...)
					}
				}

				compare(fmt.Sprintf("op %d", op), want)
			}

			_ = dm.Stop(bg)
			// Stop has returned: everything queued was sent, without waiting any further
			want := flushAll()
			sort.Strings(want)

			if got := p.take(); !slices.Equal(got, want) {
				rt.Fatalf("on shutdown: sent\n  %s\nexpected\n  %s\n%s", strings.Join(got, "\n  "), strings.Join(want, "\n  "), c.Desc())
			}

			time.Sleep(3 * iv)
			compare("after the shutdown", nil)
		})
	})
}

// Slow and failing peers, and readers at the same time as the shutdown.
func TestC34_Slow(t *testing.T) {
	vh.Run(t, "slow", "a peer takes longer than the flush interval to accept repairs", 800, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 4).Draw(rt, "nodes")
		batch := rapid.IntRange(1, 4).Draw(rt, "batch")
		iv := 100 * time.Millisecond
		slow := time.Duration(rapid.SampledFrom([]int{50, 150, 450}).Draw(rt, "slow")) * time.Millisecond
		c.NT(slow > iv)

		vh.Bubble(t, func() {
			p := &peers{DistTransport: backend.NewInProcessTransport(), held: map[string]map[string]cache.Item{}, mode: map[string]string{"n0": "slow", "n1": rapid.SampledFrom([]string{"", "fail", "slow"}).Draw(rt, "n1")}, slow: slow}
			dm, keys := newReader(rt, p, n, 2, 6, backend.WithDistReadRepairBatch(iv, batch))

			defer dm.Stop(bg)

			type pk struct{ peer, key string }

			queued := map[pk][]version{}
			ver := uint64(0)

			for range rapid.IntRange(1, 20).Draw(rt, "ops") {
				time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 0, 13, 117}).Draw(rt, "ms")) * time.Millisecond)

				key := rapid.SampledFrom(keys).Draw(rt, "key")
				ver += rapid.Uint64Range(0, 2).Draw(rt, "step")
				v := version{ver: ver + 1, origin: "x", val: fmt.Sprint(ver + 1)}

				p.mu.Lock()
				for _, o := range dm.DebugOwners(key) {
					if p.held[string(o)] == nil {
						p.held[string(o)] = map[string]cache.Item{}
					}

					p.held[string(o)][key] = cache.Item{Key: key, Value: v.val, Version: v.ver, Origin: v.origin}
					queued[pk{string(o), key}] = append(queued[pk{string(o), key}], v)
				}
				p.mu.Unlock()

				t0 := time.Now()
				// The reader is done, and its context with it, once it has its
				// answer; the repairs it led to are not.
				ctx, done := context.WithCancel(bg)
				if _, ok := dm.Get(ctx, key); !ok {
					rt.Fatalf("read of %q failed", key)
				}

				done()

				if d := time.Since(t0); d > 0 {
					rt.Fatalf("a read waited %v for a peer being repaired\n%s", d, c.Desc())
				}

				c.Log("read %q at %d", key, v.ver)
			}

			_ = dm.Stop(bg)

			got := p.take()

			for k, vs := range queued {
				last := vs[len(vs)-1]
				s := repairString(k.peer, &cache.Item{Key: k.key, Version: last.ver, Origin: last.origin, Value: last.val})

				if !slices.Contains(got, s) {
					rt.Fatalf("after the shutdown %s has not been delivered; delivered were\n  %s\n%s", s, strings.Join(got, "\n  "), c.Desc())
				}
			}

			for _, g := range got {
				ok := false

				for k, vs := range queued {
					for _, v := range vs {
						ok = ok || g == repairString(k.peer, &cache.Item{Key: k.key, Version: v.ver, Origin: v.origin, Value: v.val})
					}
				}

				if !ok {
					rt.Fatalf("%s was sent and never queued\n%s", g, c.Desc())
				}
			}
		})
	})
}

func TestC34_Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "reads overlap the shutdown", 150, func(rt *rapid.T, c *vh.Case) {
		c.NT(true)

		n := rapid.IntRange(2, 4).Draw(rt, "nodes")
		p := &peers{DistTransport: backend.NewInProcessTransport(), held: map[string]map[string]cache.Item{}, mode: map[string]string{}}
		dm, keys := newReader(rt, p, n, 2, 8, backend.WithDistReadRepairBatch(time.Duration(rapid.IntRange(1, 3).Draw(rt, "ms"))*time.Millisecond, rapid.IntRange(1, 6).Draw(rt, "batch")))

		for i := range n {
			id := fmt.Sprintf("n%d", i)
			p.held[id] = map[string]cache.Item{}

			for _, k := range keys {
				p.held[id][k] = cache.Item{Key: k, Value: "v1", Version: 1, Origin: "x"}
			}
		}

		readers := rapid.IntRange(2, 5).Draw(rt, "readers")
		before := rapid.IntRange(0, 300).Draw(rt, "before")

		var (
			wg   sync.WaitGroup
			mu   sync.Mutex
			top  = map[string]uint64{} // newest version read before the stop, per key
			halt = make(chan struct{})
			done = make(chan struct{}, readers*2000)
		)

		for r := range readers {
			wg.Add(1)

			go func() {
				defer wg.Done()

				rng := rand.New(rand.NewSource(int64(r)))

				for range 600 {
					k := keys[rng.Intn(len(keys))]

					p.mu.Lock()
					for i := range n {
						it := p.held[fmt.Sprintf("n%d", i)][k]
						it.Version++
						it.Value = fmt.Sprintf("v%d", it.Version)
						p.held[fmt.Sprintf("n%d", i)][k] = it
					}
					p.mu.Unlock()

					it, ok := dm.Get(bg, k)

					select {
					case <-halt:
						return
					default:
					}

					if ok {
						mu.Lock()
						top[k] = max(top[k], it.Version)
						mu.Unlock()
					}

					done <- struct{}{}
				}
			}()
		}

		for range before {
			<-done
		}

		mu.Lock()
		must := map[string]uint64{}
		for k, v := range top {
			must[k] = v
		}
		mu.Unlock()

		vh.Within(rt, 30*time.Second, "Stop", func() { _ = dm.Stop(bg) })

		got := p.take()
		close(halt)

		for k, v := range must {
			for _, o := range dm.DebugOwners(k) {
				ok := slices.ContainsFunc(got, func(s string) bool {
					f := strings.Split(s, "|")
					var ver uint64
					_, _ = fmt.Sscan(f[2], &ver)

					return f[0] == string(o) && f[1] == fmt.Sprintf("%q", k) && ver >= v
				})
				if !ok {
					rt.Fatalf("%s was read at version %d before the shutdown and %s never got the repair", k, v, o)
				}
			}
		}

		vh.Within(rt, 30*time.Second, "the readers", wg.Wait)
	})
}
