package dist_test

import (
	"fmt"
	"slices"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

// churn drives a cluster through membership changes in virtual time and
// watches every node's contents.
type churn struct {
	rt     *rapid.T
	c      *vh.Case
	cl     *clu
	fl     []*flaky
	opts   []backend.DistMemoryOption
	member map[int]bool // in the membership
	live   map[int]bool // running and connected
	newest map[string]state
	prev   []map[string]state

	// the replica diff's limit per tick, and what it had sent at the last look
	limit    int
	interval time.Duration
	diffs    []int64
	looked   time.Time
}

func (x *churn) join() int {
	i := len(x.cl.nodes)
	x.cl.add(x.rt, i, x.opts...)
	f := newFlaky(x.cl.tr[i])
	x.cl.nodes[i].SetTransport(f)
	x.fl = append(x.fl, f)
	x.prev = append(x.prev, map[string]state{})
	x.diffs = append(x.diffs, 0)
	x.member[i], x.live[i] = true, true

	return i
}

func (x *churn) owners(key string) []int {
	var out []int

	for _, id := range x.cl.ring.Lookup(key) {
		out = append(out, x.cl.index(id))
	}

	return out
}

func (x *churn) holders(key string) string {
	out := ""
	for i, nd := range x.cl.nodes {
		if x.live[i] {
			out += fmt.Sprintf("n%d %v ", i, contents(nd)[key])
		}
	}

	return out
}

// observe checks the step from the last observation to now.
func (x *churn) observe() {
	synctest.Wait()

	now := make([]map[string]state, len(x.cl.nodes))
	for i, nd := range x.cl.nodes {
		if x.live[i] {
			now[i] = contents(nd)
		}
	}

	for k, s := range x.newest {
		held := false
		for i := range now {
			held = held || (x.live[i] && !older(now[i][k], s))
		}

		if !held {
			x.rt.Fatalf("key %q (%v) is lost; %s\n%s", k, s, x.holders(k), x.c.Desc())
		}

		owners := x.owners(k)

		for i := range now {
			if !x.live[i] || !x.prev[i][k].has || now[i][k].has {
				continue
			}

			if now[i][k].deleted && !older(now[i][k], x.prev[i][k]) {
				continue
			}

			if slices.Contains(owners, i) {
				x.rt.Fatalf("owner %d dropped %q\n%s", i, k, x.c.Desc())
			}

			handed := false
			for _, o := range owners {
				handed = handed || !older(now[o][k], x.prev[i][k])
			}

			if !handed {
				x.rt.Fatalf("node %d dropped %q, and no owner %v has it\n%s", i, k, owners, x.c.Desc())
			}
		}
	}

	ticks := int64((time.Since(x.looked) + x.interval - 1) / max(x.interval, 1))

	for i, nd := range x.cl.nodes {
		sent := nd.Metrics().RebalancedReplicaDiff
		if x.limit > 0 && x.live[i] && sent-x.diffs[i] > ticks*int64(x.limit) {
			x.rt.Fatalf("node %d brought up %d replicas in %d ticks, limit %d\n%s", i, sent-x.diffs[i], ticks, x.limit, x.c.Desc())
		}

		x.diffs[i] = sent
	}

	x.prev, x.looked = now, time.Now()
}

// snapshotCounters is what settled nodes must leave alone.
func (x *churn) counters() string {
	out := ""
	for i, nd := range x.cl.nodes {
		if x.live[i] {
			m := nd.Metrics()
			out += fmt.Sprintf("%d: keys %d primary %d replicas %d hints %d; ", i, m.RebalancedKeys, m.RebalancedPrimary, m.RebalancedReplicaDiff, m.HintedQueued)
		}
	}

	return out
}

func TestC27(t *testing.T) {
	vh.Run(t, "churn", "1-4 initial nodes, replication 1-3, 1-12 keys, rebalancers every 100 ms of virtual time with random batch size, concurrency, replica limit, grace period and hints; 2-6 joins, crashes (of nodes whose data is held elsewhere), decommissions and returns at random offsets, targets failing for a while, removes and overwrites in settled phases; at every tick no key is lost, no owner drops a key and nobody drops one before an owner has it, and once settled exactly the owners hold the newest value of every key and nothing moves any more; non-trivial: three changes or more, a key whose owners changed entirely, and a failing target", 250, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			const interval = 100 * time.Millisecond

			rf := rapid.IntRange(1, 3).Draw(rt, "rf")
			x := &churn{rt: rt, c: c, cl: newClu(rt, 0, rf), member: map[int]bool{}, live: map[int]bool{}, newest: map[string]state{}}
			batch, conc, limit := rapid.SampledFrom([]int{1, 3, 64}).Draw(rt, "batch"), rapid.IntRange(1, 3).Draw(rt, "conc"), rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(rt, "limit")
			x.limit, x.interval, x.looked = limit, interval, time.Now()
			grace := rapid.SampledFrom([]time.Duration{0, 50 * time.Millisecond, 350 * time.Millisecond}).Draw(rt, "grace")
			x.opts = []backend.DistMemoryOption{
				backend.WithDistRebalanceInterval(interval), backend.WithDistRebalanceBatchSize(batch), backend.WithDistRebalanceMaxConcurrent(conc),
				backend.WithDistReplicaDiffMaxPerTick(limit), backend.WithDistRemovalGrace(grace),
				backend.WithDistShardCount(rapid.SampledFrom([]int{1, 4}).Draw(rt, "shards")),
			}

			if rapid.Bool().Draw(rt, "hints") {
				x.opts = append(x.opts, backend.WithDistHintTTL(time.Second), backend.WithDistHintReplayInterval(70*time.Millisecond), backend.WithDistHintMaxPerNode(rapid.IntRange(1, 4).Draw(rt, "hintcap")))
			}

			for range rapid.IntRange(1, 4).Draw(rt, "nodes") {
				x.join()
			}

			defer func() {
				for i, nd := range x.cl.nodes {
					if x.live[i] {
						_ = nd.Stop(bg)
					}
				}
			}()

			c.Log("%d nodes rf %d batch %d conc %d limit %d grace %v", len(x.cl.nodes), rf, batch, conc, limit, grace)

			keys := rapid.SliceOfNDistinct(rapid.StringMatching(`k[0-9]{1,2}`), 1, 12, rapid.ID[string]).Draw(rt, "keys")
			seq := 0

			members := func() []int {
				var out []int
				for i := range x.cl.nodes {
					if x.member[i] && x.live[i] {
						out = append(out, i)
					}
				}

				return out
			}

			write := func(key string) {
				seq++

				v := fmt.Sprintf("v%d", seq)
				via := rapid.SampledFrom(members()).Draw(rt, "via")

				if err := x.cl.nodes[via].Set(bg, mkItem(key, v)); err != nil {
					rt.Fatalf("set: %v\n%s", err, c.Desc())
				}

				s := contents(x.cl.nodes[x.owners(key)[0]])[key]
				if !s.has || s.val != v {
					rt.Fatalf("set %q: primary has %v\n%s", key, s, c.Desc())
				}

				x.newest[key] = s
			}

			for _, k := range keys {
				write(k)
			}

			x.observe()

			off := func(most int) {
				ms := rapid.IntRange(0, most).Draw(rt, "off")
				for d := time.Duration(ms)*time.Millisecond + time.Microsecond; d > 0; d -= 20 * time.Millisecond {
					time.Sleep(min(d, 20*time.Millisecond))
					x.observe()
				}
			}
			off(250)

			settle := func() {
				for i := range x.cl.nodes {
					for j := range x.cl.nodes {
						x.fl[i].setDown(x.cl.id(j), false)

						if i != j && x.live[i] && x.live[j] {
							x.cl.link(i, j, true)
						}
					}
				}

				same, last := 0, ""
				for n := 0; same < 5; n++ {
					if n > 300 {
						rt.Fatalf("still moving keys after %d ticks: %s\n%s", n, last, c.Desc())
					}

					time.Sleep(interval)
					x.observe()

					if cur := x.counters(); cur == last {
						same++
					} else {
						same, last = 0, cur
					}
				}

				for i := range x.cl.nodes {
					if !x.live[i] {
						continue
					}

					got := contents(x.cl.nodes[i])
					for k, s := range x.newest {
						want := slices.Contains(x.owners(k), i)
						g := got[k]

						if s.deleted {
							if g.has {
								rt.Fatalf("settled: deleted %q is back on node %d: %v\n%s", k, i, g, c.Desc())
							}

							continue
						}

						if g.has != want || (want && (g.ver != s.ver || g.val != s.val)) {
							rt.Fatalf("settled: node %d holds %v of %q, owners %v, newest %v; %s\n%s", i, g, k, x.owners(k), s, x.holders(k), c.Desc())
						}
					}
				}

				c.Log("settled")
			}

			var turned, failing bool

			changes := 0
			initial := map[string][]int{}

			for _, k := range keys {
				initial[k] = x.owners(k)
			}

			for range rapid.IntRange(2, 6).Draw(rt, "changes") {
				switch op := rapid.IntRange(0, 9).Draw(rt, "change"); {
				case op < 4:
					if len(x.cl.nodes) < 9 {
						c.Log("n%d joins", x.join())

						changes++
					}
				case op < 6: // crash
					ms := members()
					if len(ms) < 2 {
						break
					}

					i := rapid.SampledFrom(ms).Draw(rt, "crash")

					// Only the most senior holder knows whom it has still to
					// bring up: it must be done when it crashes.
					safe := true
					for k, s := range x.newest {
						elsewhere := s.deleted && !slices.ContainsFunc(ms, func(j int) bool { return contents(x.cl.nodes[j])[k].has })
						for j, nd := range x.cl.nodes {
							held := x.live[j] && !older(contents(nd)[k], s)
							elsewhere = elsewhere || (j != i && held)
							safe = safe && (held || s.deleted || !slices.Contains(x.owners(k), j))
						}

						safe = safe && elsewhere
					}

					if !safe {
						break
					}

					x.cl.ms.Remove(cluster.NodeID(x.cl.id(i)))
					x.member[i], x.live[i] = false, false
					_ = x.cl.nodes[i].Stop(bg)

					for j := range x.cl.nodes {
						if j != i {
							x.cl.link(j, i, false)
						}
					}

					for k, s := range x.newest {
						if s.deleted {
							delete(x.newest, k) // the only record of the delete may be gone with the node
						}
					}

					c.Log("n%d crashes", i)

					changes++
				case op < 8: // decommission: out of the membership, still running
					if ms := members(); len(ms) > 1 {
						i := rapid.SampledFrom(ms).Draw(rt, "leave")
						x.cl.ms.Remove(cluster.NodeID(x.cl.id(i)))
						x.member[i] = false
						c.Log("n%d leaves", i)

						changes++
					}
				default: // a decommissioned node returns
					for i := range x.cl.nodes {
						if x.live[i] && !x.member[i] {
							nd := cluster.NewNode(x.cl.id(i), x.cl.id(i)+":0")
							nd.Incarnation = 100 + uint64(seq)
							x.cl.ms.Upsert(nd)
							x.member[i] = true
							c.Log("n%d returns", i)

							changes++

							break
						}
					}
				}

				if rapid.IntRange(0, 2).Draw(rt, "fault") == 0 { // some targets fail for a while
					i, cut := rapid.SampledFrom(members()).Draw(rt, "target"), rapid.Bool().Draw(rt, "cut")
					for j := range x.cl.nodes {
						if j != i && x.live[j] {
							x.fl[j].setDown(x.cl.id(i), true)

							if cut { // for deletes too, and as unknown rather than refusing connections
								x.cl.link(j, i, false)
							}
						}
					}

					failing = true

					c.Log("n%d unreachable, cut %v", i, cut)
				}

				for _, k := range keys {
					common := slices.ContainsFunc(x.owners(k), func(o int) bool { return slices.Contains(initial[k], o) })
					turned = turned || !common
				}

				// Every rebalancer sees each change.
				for range 6 {
					time.Sleep(interval / 5)
					x.observe()
				}

				off(400)

				if rapid.IntRange(0, 2).Draw(rt, "settle") == 0 {
					settle()

					for range rapid.IntRange(0, 3).Draw(rt, "writes") {
						k := rapid.SampledFrom(keys).Draw(rt, "key")
						if rapid.IntRange(0, 3).Draw(rt, "rm") == 0 {
							if err := x.cl.nodes[members()[0]].Remove(bg, k); err != nil {
								rt.Fatalf("remove: %v", err)
							}

							x.newest[k] = contents(x.cl.nodes[x.owners(k)[0]])[k]
							if !x.newest[k].deleted {
								rt.Fatalf("remove %q: primary has %v\n%s", k, x.newest[k], c.Desc())
							}

							for i := range x.prev {
								delete(x.prev[i], k)
							}

							c.Log("remove %q", k)
						} else {
							write(k)
							c.Log("write %q", k)
						}

						x.observe()
					}

					off(150)
				}
			}

			settle()
			c.LabelIf(turned, "all owners changed")
			c.LabelIf(failing, "failing target")
			c.NT(changes >= 3 && turned && failing)
		})
	})
}
