package dist_test

import (
	"fmt"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// Every node owns every key; links are cut and healed between operations, so
// any subset of an operation's messages is lost. After each step no node's
// state for a key may have moved backwards, and once everything is healed,
// hints are replayed and nodes synchronised, all nodes hold the newest state.
func TestC24History(t *testing.T) {
	vh.Run(t, "history", "2-4 replicas of every key, 20-70 steps of sets/removes through random nodes, link cuts and heals, hint replays, pairwise syncs, quorum reads (repairing), stale copies and such of a node far ahead injected, nodes back after missing up to a dozen writes; a write that succeeds with every node reachable replaces what any of them held, a read at ALL finds the newest, states never move backwards and converge to the newest; non-trivial: cut links, a remove missed by a replica that held the key, and a hint replay or sync after it", 400, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { c24history(rt, c) })
	})
}

func c24history(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(2, 4).Draw(rt, "nodes")
	batch := time.Duration(0)

	if rapid.Bool().Draw(rt, "batchrepair") {
		batch = time.Duration(rapid.IntRange(1, 50).Draw(rt, "batchms")) * time.Millisecond
	}

	read := rapid.SampledFrom([]backend.ConsistencyLevel{backend.ConsistencyQuorum, backend.ConsistencyAll, backend.ConsistencyOne}).Draw(rt, "read")
	opts := []backend.DistMemoryOption{
		backend.WithDistReadConsistency(read),
		backend.WithDistWriteConsistency(levels().Draw(rt, "write")),
		backend.WithDistShardCount(rapid.SampledFrom([]int{1, 4}).Draw(rt, "shards")),
		backend.WithDistHintTTL(time.Hour),
		backend.WithDistHintReplayInterval(100 * time.Millisecond),
		backend.WithDistMerkleChunkSize(rapid.SampledFrom([]int{1, 2, 100}).Draw(rt, "chunk")),
		backend.WithDistParallelReads(rapid.Bool().Draw(rt, "parallel")),
	}
	if batch > 0 {
		opts = append(opts, backend.WithDistReadRepairBatch(batch, rapid.IntRange(1, 4).Draw(rt, "batchmax")))
	}

	cl := newClu(rt, n, n, opts...)
	defer cl.stop()

	keys := []string{"a", "b", "c"}[:rapid.IntRange(1, 3).Draw(rt, "keys")]
	last := make([]map[string]state, n)
	newest := map[string]state{}
	given := map[string]map[string]any{} // key -> version@origin -> value

	for i := range last {
		last[i] = map[string]state{}
	}

	seq := 0
	check := func(what string) {
		// A repair under way is neither before nor after.
		synctest.Wait()

		for i, nd := range cl.nodes {
			now := contents(nd)
			for _, k := range keys {
				s := now[k]
				if s.has && s.deleted {
					rt.Fatalf("after %s: node %d holds %q both stored and deleted: %v\n%s", what, i, k, s, c.Desc())
				}

				if older(s, last[i][k]) {
					rt.Fatalf("after %s: node %d went back from %v to %v for %q\n%s", what, i, last[i][k], s, k, c.Desc())
				}

				if s.has {
					id := fmt.Sprintf("%d@%s", s.ver, s.origin)
					if given[k] == nil {
						given[k] = map[string]any{}
					}

					if v, ok := given[k][id]; ok && v != s.val {
						rt.Fatalf("after %s: %q version %s stands for both %v and %v\n%s", what, k, id, v, s.val, c.Desc())
					}

					given[k][id] = s.val
				}

				last[i][k] = s

				if older(newest[k], s) {
					newest[k] = s
				}
			}
		}
	}

	var missedRemove, redelivered, cut bool

	// settled: what succeeds while every node is reachable replaces whatever
	// any of them held.
	settled := func(what string, err error, key string, want state) {
		for _, d := range cl.down {
			if d {
				return
			}
		}

		if err != nil {
			rt.Fatalf("%s with every node reachable\n%s", what, c.Desc())
		}

		synctest.Wait()

		for i, nd := range cl.nodes {
			if got := contents(nd)[key]; got.val != want.val || got.has != want.has {
				rt.Fatalf("after %s with every node reachable node %d holds %v\n%s", what, i, got, c.Desc())
			}
		}
	}

	set := func(node int, key string) string {
		seq++
		v := fmt.Sprintf("v%d", seq)
		err := cl.nodes[node].Set(bg, mkItem(key, v))
		what := fmt.Sprintf("set n%d %s=%s -> %v", node, key, v, err)
		settled(what, err, key, state{has: true, val: v})

		return what
	}

	steps := rapid.IntRange(15, 60).Draw(rt, "steps")
	for range steps {
		node := rapid.IntRange(0, n-1).Draw(rt, "node")
		key := rapid.SampledFrom(keys).Draw(rt, "key")
		dm := cl.nodes[node]
		what := ""

		switch op := rapid.IntRange(0, 21).Draw(rt, "op"); {
		case op < 6:
			what = set(node, key)
		case op == 20:
			// One node misses a number of writes and then makes one itself.
			other := (node + 1) % n
			cl.isolate(node, false)

			for range rapid.IntRange(1, 12).Draw(rt, "missed") {
				check(set(other, key))
			}

			for i := range cl.nodes {
				cl.isolate(i, true)
			}

			cut = true

			if rapid.IntRange(0, 3).Draw(rt, "then") == 0 {
				err := dm.Remove(bg, key)
				what = fmt.Sprintf("n%d back, remove %s -> %v", node, key, err)
				settled(what, err, key, state{deleted: true})
			} else {
				what = "back, " + set(node, key)
			}
		case op == 21:
			// A write of a node far ahead.
			it := &cache.Item{Key: key, Value: fmt.Sprintf("far%d", seq), Origin: "n99"}
			it.Version = newest[key].ver + rapid.SampledFrom([]uint64{1, 4, 50, 1 << 16, 1 << 21, 1 << 40}).Draw(rt, "ahead")
			seq++

			err := cl.tr[node].ForwardSet(bg, cl.id(node), it, rapid.Bool().Draw(rt, "replicate"))
			what = fmt.Sprintf("n%d receives %s=%v v%d -> %v", node, key, it.Value, it.Version, err)
		case op < 9:
			for j := range cl.nodes {
				if j != node && cl.down[[2]int{node, j}] && last[j][key].has {
					missedRemove = true
				}
			}

			err := dm.Remove(bg, key)
			what = fmt.Sprintf("remove n%d %s -> %v", node, key, err)
			settled(what, err, key, state{deleted: true})
		case op < 13 && n > 1:
			to := rapid.IntRange(0, n-1).Draw(rt, "to")
			if to == node {
				continue
			}

			up := cl.down[[2]int{node, to}]
			cl.link(node, to, up)
			cut = cut || !up
			what = fmt.Sprintf("link n%d->n%d up=%v", node, to, up)
		case op < 14:
			time.Sleep(time.Duration(rapid.IntRange(1, 250).Draw(rt, "ms")) * time.Millisecond)

			what, redelivered = "replay/flush", redelivered || missedRemove
		case op < 16:
			from := rapid.IntRange(0, n-1).Draw(rt, "peer")
			if from == node {
				continue
			}

			err := dm.SyncWith(bg, cl.id(from))
			what, redelivered = fmt.Sprintf("sync n%d with n%d -> %v", node, from, err), redelivered || missedRemove
		case op < 18:
			it, ok := dm.Get(bg, key)
			what = fmt.Sprintf("get n%d %s -> %v %v", node, key, it, ok)

			// A read of every replica finds the newest state.
			reach := true
			for j := range cl.nodes {
				reach = reach && !cl.down[[2]int{node, j}]
			}

			if want := newest[key]; reach && read == backend.ConsistencyAll && (ok != want.has || (ok && it.Value != want.val)) {
				rt.Fatalf("%s with every replica reachable, the newest is %v\n%s", what, want, c.Desc())
			}
		default:
			// redeliver something seen earlier for this key, as a delayed message would
			vs := make([]string, 0, len(given[key]))
			for id := range given[key] {
				vs = append(vs, id)
			}

			if len(vs) == 0 {
				continue
			}

			sort.Strings(vs)
			id := rapid.SampledFrom(vs).Draw(rt, "old")

			var (
				ver    uint64
				origin string
			)

			if _, err := fmt.Sscanf(id, "%d@%s", &ver, &origin); err != nil {
				rt.Fatalf("%v", err)
			}

			old := &cache.Item{Key: key, Value: given[key][id], Version: ver, Origin: origin}
			rep := rapid.Bool().Draw(rt, "replicate")
			err := cl.tr[node].ForwardSet(bg, cl.id(node), old, rep)
			what = fmt.Sprintf("late n%d %s=%v v%s replicate %v -> %v", node, key, old.Value, id, rep, err)
		}

		c.Log("%s", what)
		check(what)
	}

	// heal, let the hints run, then synchronise everyone with everyone twice
	for i := range cl.nodes {
		cl.isolate(i, true)
	}

	time.Sleep(time.Second)
	check("healed and replayed")

	for range 2 {
		for i := range cl.nodes {
			for j := range cl.nodes {
				if i != j {
					if err := cl.nodes[i].SyncWith(bg, cl.id(j)); err != nil {
						rt.Fatalf("sync: %v", err)
					}
				}
			}
		}
	}

	check("synchronised")

	for i := range cl.nodes {
		for _, k := range keys {
			got := last[i][k]
			if got.has != newest[k].has || got.ver != newest[k].ver || got.val != newest[k].val || got.deleted != newest[k].deleted {
				rt.Fatalf("after healing, node %d holds %v for %q, the newest is %v\n%s", i, got, k, newest[k], c.Desc())
			}
		}
	}

	c.NT(cut && missedRemove && redelivered)
}

// Direct deliveries: the same versioned writes in different orders, with
// repetitions, leave every replica with the same, newest one.
func TestC24Orders(t *testing.T) {
	vh.Run(t, "orders", "5-30 versioned writes (few versions and origins, so that ties and repetitions are common) delivered to 2-3 replicas in independent random orders with duplicates, by direct forward or by read repair of an injected copy; every replica ends with the highest version, ties by smallest origin; non-trivial: a tie between origins and an older version delivered after a newer one", 600, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 3).Draw(rt, "nodes")
		cl := newClu(rt, n, n, backend.WithDistShardCount(2))
		defer cl.stop()

		type wr struct {
			ver    uint64
			origin string
		}

		ws := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) wr {
			return wr{rapid.Uint64Range(1, 6).Draw(t, "v"), rapid.SampledFrom([]string{"n0", "n1", "n2", "", "N0", "n10"}).Draw(t, "o")}
		}), 3, 20).Draw(rt, "writes")

		best := ws[0]
		for _, w := range ws {
			if w.ver > best.ver || (w.ver == best.ver && w.origin < best.origin) {
				best = w
			}
		}

		var tie, late bool

		for i := range cl.nodes {
			order := rapid.Permutation(ws).Draw(rt, "order")
			order = append(order, rapid.SliceOfN(rapid.SampledFrom(ws), 0, 5).Draw(rt, "dups")...)

			var cur wr

			for _, w := range order {
				it := &cache.Item{Key: "k", Value: fmt.Sprintf("%d@%s", w.ver, w.origin), Version: w.ver, Origin: w.origin}
				_ = cl.tr[i].ForwardSet(bg, cl.id(i), it, false)

				late = late || w.ver < cur.ver
				tie = tie || (w.ver == cur.ver && w.origin != cur.origin)

				if w.ver > cur.ver || (w.ver == cur.ver && w.origin < cur.origin) {
					cur = w
				}

				got := contents(cl.nodes[i])["k"]
				if got.ver != cur.ver || got.origin != cur.origin || got.val != fmt.Sprintf("%d@%s", cur.ver, cur.origin) {
					rt.Fatalf("node %d after %v of %v: holds %v, want %v", i, w, order, got, cur)
				}
			}
		}

		c.Log("%v", ws)
		c.NT(tie && late)
	})
}
