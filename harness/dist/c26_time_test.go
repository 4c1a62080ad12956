package dist_test

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// Deletes are remembered, and handed on by synchronisation, for as long as
// configured and no longer than a sweep beyond.
func TestC26Retention(t *testing.T) {
	vh.Run(t, "retention", "2-3 replicas of every key, delete retention of 1-60 s or unlimited and sweeps every 0.1-5 s or never, in virtual time; 8-30 steps of writes, deletes, nodes cut off and back, syncs and waits around the retention; every delete known to a node stays until its retention is over and is gone one sweep later, and a sync hands on every delete not past it; non-trivial: a delete handed on in the second half of its retention, and one that was forgotten", 300, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			n := rapid.IntRange(2, 3).Draw(rt, "nodes")
			ttl := rapid.SampledFrom([]time.Duration{time.Second, 3 * time.Second, time.Minute, 0}).Draw(rt, "ttl")
			sweep := rapid.SampledFrom([]time.Duration{100 * time.Millisecond, 700 * time.Millisecond, 5 * time.Second, 0}).Draw(rt, "sweep")
			cl := newClu(rt, n, n, backend.WithDistTombstoneTTL(ttl), backend.WithDistTombstoneSweep(sweep), backend.WithDistShardCount(2),
				backend.WithDistReadConsistency(backend.ConsistencyOne), backend.WithDistWriteConsistency(backend.ConsistencyOne))

			defer cl.stop()

			synctest.Wait()
			c.Log("%d nodes retention %v sweep %v", n, ttl, sweep)

			type del struct {
				at  time.Time
				ver uint64
			}

			known := make([]map[string]del, n) // the newest event of a key at a node, if a delete
			for i := range known {
				known[i] = map[string]del{}
			}

			cut := map[int]bool{}
			late, forgot := false, false

			check := func() {
				for i, nd := range cl.nodes {
					got := contents(nd)

					for k, d := range known[i] {
						age := time.Since(d.at)

						switch s := got[k]; {
						case s.has:
							rt.Fatalf("node %d holds %q (%v), deleted %v ago\n%s", i, k, s, age, c.Desc())
						case !s.deleted && (ttl == 0 || sweep == 0 || age < ttl):
							rt.Fatalf("node %d forgot the delete of %q after %v\n%s", i, k, age, c.Desc())
						case s.deleted && ttl > 0 && sweep > 0 && age > ttl+sweep:
							rt.Fatalf("node %d still remembers the delete of %q after %v\n%s", i, k, age, c.Desc())
						case !s.deleted:
							forgot = true
						}

						if ttl > 0 && age >= ttl { // may be forgotten, and the key taken over again
							delete(known[i], k)
						}
					}
				}
			}

			// after an operation, what each node learned
			note := func() {
				for i, nd := range cl.nodes {
					got := contents(nd)
					for k, s := range got {
						if s.has {
							delete(known[i], k)
						}
					}
				}
			}

			for step := range rapid.IntRange(8, 30).Draw(rt, "steps") {
				node := rapid.IntRange(0, n-1).Draw(rt, "node")
				key := rapid.SampledFrom([]string{"a", "b", "c", "d"}).Draw(rt, "key")

				switch op := rapid.IntRange(0, 11).Draw(rt, "op"); {
				case op < 3:
					err := cl.nodes[node].Set(bg, mkItem(key, step))
					c.Log("%v set n%d %s -> %v", time.Now().Format("05.000"), node, key, err)
				case op < 6:
					err := cl.nodes[node].Remove(bg, key)
					c.Log("%v remove n%d %s -> %v", time.Now().Format("05.000"), node, key, err)

					for i, nd := range cl.nodes {
						if s := contents(nd)[key]; s.deleted && s.ver != known[i][key].ver {
							known[i][key] = del{time.Now(), s.ver}
						}
					}
				case op < 7:
					cut[node] = !cut[node]
					cl.isolate(node, !cut[node])

					for j := range cut {
						if cut[j] {
							cl.isolate(j, false)
						}
					}

					c.Log("cut n%d: %v", node, cut[node])
				case op < 9:
					peer := (node + rapid.IntRange(1, n-1).Draw(rt, "peer")) % n
					src := contents(cl.nodes[peer])
					was := contents(cl.nodes[node])
					err := cl.nodes[node].SyncWith(bg, cl.id(peer))
					c.Log("%v sync n%d with n%d -> %v", time.Now().Format("05.000"), node, peer, err)

					if (err == nil) == (cut[node] || cut[peer]) {
						rt.Fatalf("sync: %v, cut off %v %v\n%s", err, cut[node], cut[peer], c.Desc())
					}

					if err != nil {
						break
					}

					now := contents(cl.nodes[node])

					for k, d := range known[peer] {
						age := time.Since(d.at)
						if !src[k].deleted || ttl > 0 && age >= ttl || !older(was[k], src[k]) {
							continue
						}

						if s := now[k]; s.has || !s.deleted || s.ver != d.ver {
							rt.Fatalf("node %d did not learn the delete of %q, %v old: %v\n%s", node, k, age, s, c.Desc())
						}

						known[node][k] = d
						late = late || age > ttl/2
					}
				default:
					d := rapid.SampledFrom([]time.Duration{time.Millisecond, 90 * time.Millisecond, 450 * time.Millisecond, 550 * time.Millisecond, 2 * time.Second, 31 * time.Second, 70 * time.Second}).Draw(rt, "wait")
					time.Sleep(d)
					synctest.Wait()
				}

				note()
				check()
			}

			c.NT(late && forgot)
		})
	})
}

// A cap on the keys taken over from a peer's listing slows a sync down, and
// nothing else.
func TestC26Cap(t *testing.T) {
	vh.Run(t, "cap", "two replicas, one lacking 0-20 keys and holding 0-6 others alike or older, listing caps 0-6; each sync takes over as many missing keys as the cap allows, and all older ones; non-trivial: more missing keys than the cap", 200, func(rt *rapid.T, c *vh.Case) {
		capn := rapid.IntRange(0, 6).Draw(rt, "cap")
		chunk := rapid.SampledFrom([]int{1, 3, 128}).Draw(rt, "chunk")
		cl := newClu(rt, 2, 2, backend.WithDistListKeysCap(capn), backend.WithDistMerkleChunkSize(chunk))

		defer cl.stop()

		missing := rapid.IntRange(0, 20).Draw(rt, "missing")
		shared := rapid.IntRange(0, 6).Draw(rt, "shared")

		put := func(i int, k string, ver uint64) {
			if err := cl.tr[i].ForwardSet(bg, cl.id(i), &cache.Item{Key: k, Value: fmt.Sprint(k, ver), Version: ver, Origin: "n0"}, false); err != nil {
				rt.Fatalf("plant: %v", err)
			}
		}

		for k := range missing {
			put(0, fmt.Sprintf("m%d", k), 5)
		}

		for k := range shared {
			put(0, fmt.Sprintf("s%d", k), 5)
			put(1, fmt.Sprintf("s%d", k), rapid.SampledFrom([]uint64{3, 5, 7}).Draw(rt, "ver"))
		}

		c.Log("cap %d, %d missing, %d shared, chunks of %d", capn, missing, shared, chunk)

		for left, round := missing, 0; round == 0 || left > 0; round++ {
			before := contents(cl.nodes[1])

			if err := cl.nodes[1].SyncWith(bg, cl.id(0)); err != nil {
				rt.Fatalf("sync: %v", err)
			}

			take := left
			if capn > 0 {
				take = min(capn, left)
			}

			left -= take
			got := contents(cl.nodes[1])

			if n := len(got) - len(before); n != take {
				rt.Fatalf("round %d: took over %d keys, want %d\n%s", round, n, take, c.Desc())
			}

			for k, s := range contents(cl.nodes[0]) {
				g := got[k]
				if _, had := before[k]; had && g.ver < s.ver || g.has && g.ver == s.ver && !sameVal(g.val, s.val) {
					rt.Fatalf("round %d: %q is %v, the peer holds %v\n%s", round, k, g, s, c.Desc())
				}
			}
		}

		c.NT(capn > 0 && missing > capn)
	})
}

// Adaptive backoff is for peers found equal; an outage does not slow down the
// synchronisation after it.
func TestC26Outage(t *testing.T) {
	vh.Run(t, "outage", "2-3 nodes synchronising every 100 ms of virtual time with a backoff of up to 2-16 intervals; a node is cut off for 0-6 s and some other misses no write meanwhile; once it failed to reach somebody it tries every interval, and what it missed is there one interval after it is back; non-trivial: it had backed off before the outage", 60, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			n := rapid.IntRange(2, 3).Draw(rt, "nodes")
			back := rapid.SampledFrom([]int{0, 2, 8, 16}).Draw(rt, "backoff")
			cl := newClu(rt, n, n, backend.WithDistMerkleAutoSync(100*time.Millisecond), backend.WithDistMerkleAdaptiveBackoff(back))

			defer cl.stop()

			backed := false

			for round := range rapid.IntRange(1, 3).Draw(rt, "rounds") {
				node := rapid.IntRange(0, n-1).Draw(rt, "node")
				time.Sleep(time.Duration(rapid.IntRange(0, 5000).Draw(rt, "calm")) * time.Millisecond)
				synctest.Wait()

				factor := max(cl.nodes[node].Metrics().AutoSyncBackoffFactor, 1)
				backed = backed || factor > 1

				// some of the links fail: one is enough
				cl.isolate(node, false)

				if n == 3 && rapid.Bool().Draw(rt, "partial") {
					other := (node + 1) % n
					cl.link(node, other, true)
					cl.link(other, node, true)
				}

				out := time.Duration(rapid.IntRange(0, 4000).Draw(rt, "outage")) * time.Millisecond
				time.Sleep(time.Duration(factor)*100*time.Millisecond + out + time.Millisecond)
				synctest.Wait()

				if f := cl.nodes[node].Metrics().AutoSyncBackoffFactor; f > 1 {
					rt.Fatalf("backoff %d while a peer is out of reach", f)
				}

				src := (node + n - 1) % n
				key := fmt.Sprintf("k%d", round)

				if err := cl.tr[src].ForwardSet(bg, cl.id(src), &cache.Item{Key: key, Value: round, Version: 1000, Origin: "n0"}, false); err != nil {
					rt.Fatalf("write: %v", err)
				}

				cl.isolate(node, true)
				time.Sleep(101 * time.Millisecond)
				synctest.Wait()

				if s := contents(cl.nodes[node])[key]; s.val != round {
					rt.Fatalf("node %d, back for more than an interval, holds %v of %q\n%s", node, s, key, c.Desc())
				}

				c.Log("n%d factor %d, out for %v", node, factor, out)
			}

			c.NT(backed)
		})
	})
}
