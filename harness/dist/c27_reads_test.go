package dist_test

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

// TestC27Reads: what callers see, through every node, while ownership moves.
func TestC27Reads(t *testing.T) {
	vh.Run(t, "reads", "2-5 nodes, replication 1-3, rebalancers every 100 ms of virtual time with random grace period, read level and parallel reads; 4-16 steps of joins, decommissions, returns, writes and removes (acknowledged by all owners) through any node and pauses of 0-300 ms; after each step every key is read through every running node, owner or not: whenever all owners hold its newest state, that is what every read shows, and a node still holding the newest value of a key its owners know nothing of shows it; non-trivial: a read through a node with an outdated copy of a key it does not own, or of a deleted one", 250, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			rf := rapid.IntRange(1, 3).Draw(rt, "rf")
			level := levels().Draw(rt, "read")
			opts := []backend.DistMemoryOption{
				backend.WithDistRebalanceInterval(100 * time.Millisecond),
				backend.WithDistRemovalGrace(rapid.SampledFrom([]time.Duration{0, 50 * time.Millisecond, time.Second}).Draw(rt, "grace")),
				backend.WithDistReplicaDiffMaxPerTick(rapid.SampledFrom([]int{0, 1, 5}).Draw(rt, "limit")),
				backend.WithDistWriteConsistency(backend.ConsistencyAll),
				backend.WithDistReadConsistency(level),
				backend.WithDistParallelReads(rapid.Bool().Draw(rt, "parallel")),
			}

			cl := newClu(rt, rapid.IntRange(2, 5).Draw(rt, "nodes"), rf, opts...)
			defer cl.stop()

			member := map[int]bool{}
			for i := range cl.nodes {
				member[i] = true
			}

			count := func() int {
				n := 0
				for _, in := range member {
					if in {
						n++
					}
				}

				return n
			}

			c.Log("%d nodes rf %d read %v", len(cl.nodes), rf, level)

			newest := map[string]state{}
			gone := map[string]bool{} // of unknown state since the recorded finding
			hot := false
			key := rapid.StringMatching(`k[0-9]`)

			// A key's new owners may never have heard of it, and number what they
			// write from their own counter.
			settled := func(k string, before map[int]state) {
				s := contents(cl.nodes[cl.index(cl.ring.Lookup(k)[0])])[k]
				newest[k] = s

				for i, b := range before {
					if (b.has || b.deleted) && !older(b, s) {
						vh.Known(rt, "fresh-owner", "a write of %q became %v, older than %v, which node %d held", k, s, b, i)
						delete(newest, k)
						gone[k] = true
					}
				}
			}
			held := func(k string) map[int]state {
				out := map[int]state{}
				for i, nd := range cl.nodes {
					out[i] = contents(nd)[k]
				}

				return out
			}

			look := func() {
				for k, s := range newest {
					for i, nd := range cl.nodes {
						own, current, knows := false, true, false

						for _, id := range cl.ring.Lookup(k) {
							o := cl.index(id)
							own = own || o == i
							at := contents(cl.nodes[o])[k]
							current = current && !older(at, s)
							knows = knows || at.has || at.deleted
						}

						here := contents(nd)[k]
						if !own && here.has && older(here, s) {
							hot = true
						}

						want := current || (level == backend.ConsistencyOne && !knows && here.has && !older(here, s))

						it, ok := nd.Get(bg, k)

						switch {
						case ok && !s.has && current:
							rt.Fatalf("read of deleted %q through node %d: %v v%d; it holds %v, owners %v\n%s", k, i, it.Value, it.Version, here, cl.ring.Lookup(k), c.Desc())
						case want && s.has && (!ok || it.Value != s.val):
							rt.Fatalf("read of %q through node %d: %v, %v, newest is %v; it holds %v, owners %v\n%s", k, i, it, ok, s, here, cl.ring.Lookup(k), c.Desc())
						}
					}
				}
			}

			for step := range rapid.IntRange(4, 16).Draw(rt, "steps") {
				switch op := rapid.IntRange(0, 9).Draw(rt, "op"); {
				case op < 4:
					k, via := key.Draw(rt, "key"), rapid.IntRange(0, len(cl.nodes)-1).Draw(rt, "via")
					v := fmt.Sprintf("v%d", step)
					before := held(k)

					if gone[k] {
						break
					}

					if err := cl.nodes[via].Set(bg, mkItem(k, v)); err != nil {
						rt.Fatalf("set %q through node %d: %v\n%s", k, via, err, c.Desc())
					}

					settled(k, before)
					c.Log("n%d sets %q to %v", via, k, newest[k])

					if newest[k].val != v && !gone[k] {
						rt.Fatalf("set %q to %q: primary has %v\n%s", k, v, newest[k], c.Desc())
					}
				case op < 5:
					k, via := key.Draw(rt, "key"), rapid.IntRange(0, len(cl.nodes)-1).Draw(rt, "via")
					before := held(k)

					if gone[k] {
						break
					}

					if err := cl.nodes[via].Remove(bg, k); err != nil {
						rt.Fatalf("remove %q through node %d: %v\n%s", k, via, err, c.Desc())
					}

					settled(k, before)
					c.Log("n%d removes %q: %v", via, k, newest[k])
				case op < 7:
					if len(cl.nodes) < 8 {
						cl.add(rt, len(cl.nodes), opts...)
						member[len(cl.nodes)-1] = true
						c.Log("n%d joins", len(cl.nodes)-1)
					}
				case op < 8:
					i := rapid.IntRange(0, len(cl.nodes)-1).Draw(rt, "node")
					if member[i] && count() > 1 {
						cl.ms.Remove(cluster.NodeID(cl.id(i)))
						member[i] = false
						c.Log("n%d leaves", i)
					} else if !member[i] {
						nd := cluster.NewNode(cl.id(i), cl.id(i)+":0")
						nd.Incarnation = 100 + uint64(step)
						cl.ms.Upsert(nd)
						member[i] = true
						c.Log("n%d returns", i)
					}
				default:
					d := time.Duration(rapid.IntRange(0, 300).Draw(rt, "pause")) * time.Millisecond
					time.Sleep(d + time.Microsecond)
					c.Log("%v later", d)
				}

				synctest.Wait()
				look()
			}

			c.LabelIf(hot, "outdated copy at a non-owner")
			c.NT(hot)
		})
	})
}
