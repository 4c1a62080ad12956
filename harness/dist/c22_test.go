package dist_test

import (
	"errors"
	"fmt"
	"slices"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

func c22cluster(rt *rapid.T, c *vh.Case) (*clu, int, int) {
	n := rapid.IntRange(1, 6).Draw(rt, "nodes")
	rf := rapid.IntRange(1, 4).Draw(rt, "rf")
	// per-node read settings may differ; write consistency is a cluster-wide choice
	wl := levels().Draw(rt, "write")
	cl := newClu(rt, 0, rf)

	for i := range n {
		opts := []backend.DistMemoryOption{
			backend.WithDistReadConsistency(levels().Draw(rt, "read")),
			backend.WithDistWriteConsistency(wl),
			backend.WithDistParallelReads(rapid.Bool().Draw(rt, "parallel")),
			backend.WithDistShardCount(rapid.SampledFrom([]int{1, 2, 8}).Draw(rt, "shards")),
		}
		if rapid.Bool().Draw(rt, "hints") {
			opts = append(opts, backend.WithDistHintTTL(1<<40))
		}

		cl.add(rt, i, opts...)
	}

	c.Log("%d nodes rf %d write %v", n, rf, wl)

	return cl, n, min(rf, n)
}

// checkPlacement: exactly the owners hold the key, all alike.
func checkPlacement(rt *rapid.T, c *vh.Case, cl *clu, key string, want any, present bool) {
	owners := cl.owners(key)

	var ref *state

	for i, nd := range cl.nodes {
		s, held := contents(nd)[key]
		held = held && s.has

		if held != (present && slices.Contains(owners, i)) {
			rt.Fatalf("key %q (owners %v, present %v): node %d holds it: %v (%v)\n%s", key, owners, present, i, held, s, c.Desc())
		}

		if !held {
			continue
		}

		if want != nil && !sameVal(s.val, want) {
			rt.Fatalf("key %q on node %d: %v, want %v\n%s", key, i, s, want, c.Desc())
		}

		if s.deleted {
			rt.Fatalf("key %q on node %d is both stored and deleted\n%s", key, i, c.Desc())
		}

		if ref == nil {
			ref = &s
		} else if ref.ver != s.ver || ref.origin != s.origin || !sameVal(ref.val, s.val) {
			rt.Fatalf("key %q: owners disagree: %v / %v\n%s", key, *ref, s, c.Desc())
		}
	}
}

func TestC22Sequential(t *testing.T) {
	vh.Run(t, "sequential", "1-6 nodes, replication 1-4, random consistency levels, 20-60 sets/removes/batch removes through random nodes, re-sets of items read back, drains; after each step every node reads the model's value and exactly the owners hold the key; non-trivial: more nodes than replicas, writes through non-owners and through replicas, and a key set again after its removal", 500, func(rt *rapid.T, c *vh.Case) {
		cl, n, rf := c22cluster(rt, c)
		defer cl.stop()

		model := map[string]any{}
		removed := map[string]bool{}
		drained := map[int]bool{}
		keys := rapid.SliceOfNDistinct(keyGen, 2, 6, rapid.ID[string]).Draw(rt, "keys")

		var viaReplica, viaOther, reset bool

		seq := 0

		for range rapid.IntRange(10, 40).Draw(rt, "steps") {
			node := rapid.IntRange(0, n-1).Draw(rt, "node")
			key := rapid.SampledFrom(keys).Draw(rt, "key")
			dm := cl.nodes[node]
			pos := slices.Index(cl.owners(key), node)

			switch op := rapid.IntRange(0, 11).Draw(rt, "op"); {
			case op < 7: // set
				seq++
				v := valGen(seq).Draw(rt, "val")
				it := mkItem(key, v)

				if old, ok := dm.Get(bg, key); ok && rapid.IntRange(0, 3).Draw(rt, "rmw") == 0 {
					old.Value = v
					it = old // a read-modify-write hands the item back with its old version
				}

				err := dm.Set(bg, it)
				c.Log("set n%d %q=%v -> %v", node, key, v, err)

				if drained[node] {
					if !errors.Is(err, sentinel.ErrDraining) {
						rt.Fatalf("set through drained node: %v\n%s", err, c.Desc())
					}

					break
				}

				if err != nil {
					rt.Fatalf("set in a healthy cluster: %v\n%s", err, c.Desc())
				}

				it.Value, it.Version, it.Size = "the caller's own copy", 0, -1 // no longer the cluster's business

				model[key] = v
				viaReplica = viaReplica || pos > 0
				viaOther = viaOther || pos < 0
				reset = reset || removed[key]
			case op < 10:
				ks := []string{key}
				for range rapid.IntRange(0, 2).Draw(rt, "more") {
					ks = append(ks, rapid.SampledFrom(keys).Draw(rt, "key2"))
				}

				err := dm.Remove(bg, ks...)
				c.Log("remove n%d %q -> %v", node, ks, err)

				if drained[node] {
					if !errors.Is(err, sentinel.ErrDraining) {
						rt.Fatalf("remove through drained node: %v\n%s", err, c.Desc())
					}

					break
				}

				if err != nil {
					rt.Fatalf("remove in a healthy cluster: %v\n%s", err, c.Desc())
				}

				for _, k := range ks {
					if _, ok := model[k]; ok {
						removed[k] = true
					}

					delete(model, k)
				}
			case op == 10:
				if len(drained) < n-1 && rapid.Bool().Draw(rt, "drain") {
					if err := dm.Drain(bg); err != nil {
						rt.Fatalf("drain: %v", err)
					}

					drained[node] = true
					c.Log("drain n%d", node)
				}
			default: // a delete or write of nothing: remove an absent key everywhere
				if drained[node] {
					break
				}

				if err := dm.Remove(bg, "absent"); err != nil {
					rt.Fatalf("remove absent: %v\n%s", err, c.Desc())
				}
			}

			for _, k := range keys {
				want, ok := model[k]
				for i, nd := range cl.nodes {
					it, hit := nd.Get(bg, k)
					if hit != ok || (hit && (!sameVal(it.Value, want) || it.Key != k)) {
						rt.Fatalf("read of %q through n%d (drained %v): %v %v, want %v %v\n%s", k, i, drained[i], it, hit, want, ok, c.Desc())
					}
				}

				checkPlacement(rt, c, cl, k, want, ok)
			}
		}

		c.LabelIf(len(drained) > 0, "drained")
		c.LabelIf(n == 1, "single node")
		c.NT(n > rf && viaReplica && viaOther && reset || (rf == 1 && n > 1 && viaOther && reset))
	})
}

// Concurrent writers: afterwards the owners agree, and the surviving value is
// not one that had finished before another write of the key began.
func TestC22Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "2-5 nodes, replication 1-3, 2-6 concurrent writers (sets and removes of 1-3 keys through random nodes, each node with its own message delay, in virtual time); afterwards all owners of a key agree and the outcome is a write or remove not followed by another; non-trivial: two overlapping operations on one key through different nodes", 150, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { c22concurrent(rt, c) })
	})
}

func c22concurrent(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(2, 5).Draw(rt, "nodes")
	cl := newClu(rt, 0, rapid.IntRange(1, 3).Draw(rt, "rf"))
	wl := levels().Draw(rt, "write")

	for i := range n {
		ch := backend.NewChaos() // used for its latency only
		ch.SetLatency(time.Duration(rapid.IntRange(0, 5).Draw(rt, "latency"))*time.Millisecond, 1)
		cl.add(rt, i, backend.WithDistReadConsistency(levels().Draw(rt, "read")),
			backend.WithDistWriteConsistency(wl), backend.WithDistShardCount(2), backend.WithDistChaos(ch))
	}

	defer cl.stop()

	type op struct {
		node       int
		pause      int
		key        string
		val        any
		remove     bool
		start, end int64
		err        error
	}

	nk := rapid.IntRange(1, 3).Draw(rt, "keys")
	writers := rapid.IntRange(2, 6).Draw(rt, "writers")
	plan := make([][]*op, writers)
	seq := 0

	for w := range plan {
		for range rapid.IntRange(2, 12).Draw(rt, "ops") {
			seq++
			plan[w] = append(plan[w], &op{
				node: rapid.IntRange(0, n-1).Draw(rt, "node"), pause: rapid.IntRange(0, 6).Draw(rt, "pause"), key: fmt.Sprintf("k%d", rapid.IntRange(0, nk-1).Draw(rt, "k")),
				val: fmt.Sprintf("v%d", seq), remove: rapid.IntRange(0, 4).Draw(rt, "rm") == 0,
			})
		}
	}

	var (
		clock atomic.Int64
		wg    sync.WaitGroup
	)

	begin := make(chan struct{})

	for _, ops := range plan {
		wg.Go(func() {
			<-begin

			for _, o := range ops {
				time.Sleep(time.Duration(o.pause) * time.Millisecond)

				o.start = clock.Add(1)
				if o.remove {
					o.err = cl.nodes[o.node].Remove(bg, o.key)
				} else {
					o.err = cl.nodes[o.node].Set(bg, mkItem(o.key, o.val))
				}

				o.end = clock.Add(1)
			}
		})
	}

	close(begin)
	wg.Wait()

	overlap := false

	for k := range nk {
		key := fmt.Sprintf("k%d", k)

		var ops []*op

		for _, p := range plan {
			for _, o := range p {
				if o.key == key {
					if o.err != nil {
						rt.Fatalf("%+v failed in a healthy cluster", *o)
					}

					ops = append(ops, o)
				}
			}
		}

		final := func(o *op) bool {
			return !slices.ContainsFunc(ops, func(p *op) bool { return p.start > o.end })
		}

		mayAbsent := len(ops) == 0 || slices.ContainsFunc(ops, func(o *op) bool { return o.remove && final(o) })

		it, hit := cl.nodes[0].Get(bg, key)
		if !hit {
			if !mayAbsent {
				rt.Fatalf("key %s lost: no remove was last\n%s", key, fmtOps(ops))
			}
		} else if !slices.ContainsFunc(ops, func(o *op) bool { return !o.remove && o.val == it.Value && final(o) }) {
			rt.Fatalf("key %s ends as %v, which another write followed\n%s", key, it.Value, fmtOps(ops))
		}

		var want any
		if hit {
			want = it.Value
		}

		checkPlacement(rt, c, cl, key, want, hit)

		for i, nd := range cl.nodes {
			got, ok := nd.Get(bg, key)
			if ok != hit || (ok && got.Value != it.Value) {
				rt.Fatalf("key %s: node %d reads %v %v, node 0 %v %v", key, i, got, ok, it, hit)
			}
		}

		for a, x := range ops {
			for _, y := range ops[a+1:] {
				overlap = overlap || (x.start < y.end && y.start < x.end && x.node != y.node)
			}
		}
	}

	c.Log("%d nodes %d writers %d ops", n, writers, seq)
	c.NT(overlap)
}

func fmtOps[T any](ops []*T) string {
	s := ""
	for _, o := range ops {
		s += fmt.Sprintf("  %+v\n", *o)
	}

	return s
}

// A node that comes back empty (its version clock starts over) must not make
// later writes and removes lose against what the others remember.
func TestC22Restart(t *testing.T) {
	vh.Run(t, "restart", "2-4 nodes owning every key, 15-50 steps of sets/removes through random nodes and restarts of nodes with empty memory; every key written or removed since the last restart reads the same through every node and is held alike; non-trivial: an older key overwritten and one removed with a restarted node as its primary", 300, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 4).Draw(rt, "nodes")
		opts := []backend.DistMemoryOption{
			backend.WithDistReadConsistency(levels().Draw(rt, "read")),
			backend.WithDistWriteConsistency(levels().Draw(rt, "write")),
			backend.WithDistShardCount(2),
		}

		cl := newClu(rt, n, n, opts...)
		defer func() { cl.stop() }()

		model := map[string]any{} // settled keys; nil: removed
		known := map[string]bool{}
		fresh := map[int]bool{}
		keys := []string{"a", "b", "c", "d"}[:rapid.IntRange(1, 4).Draw(rt, "keys")]
		seq := 0

		var over, rem bool

		for range rapid.IntRange(10, 40).Draw(rt, "steps") {
			node := rapid.IntRange(0, n-1).Draw(rt, "node")
			key := rapid.SampledFrom(keys).Draw(rt, "key")
			dm := cl.nodes[node]
			primary := cl.owners(key)[0]
			held := false

			for i, nd := range cl.nodes {
				held = held || (i != primary && nd.LocalContains(key))
			}

			switch op := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case op < 5:
				seq++

				err := dm.Set(bg, mkItem(key, seq))
				c.Log("set n%d %s=%d -> %v", node, key, seq, err)

				if err != nil {
					rt.Fatalf("set: %v\n%s", err, c.Desc())
				}

				over = over || (fresh[primary] && held && !known[key])
				model[key], known[key] = seq, true
			case op < 7:
				err := dm.Remove(bg, key)
				c.Log("remove n%d %s -> %v", node, key, err)

				if err != nil {
					rt.Fatalf("remove: %v\n%s", err, c.Desc())
				}

				rem = rem || (fresh[primary] && held && !known[key])
				model[key], known[key] = nil, true
			case op < 9:
				if len(fresh) >= n-1 { // someone must remember
					continue
				}

				_ = dm.Stop(bg)

				tr := backend.NewInProcessTransport()

				b, err := backend.NewDistMemory(bg, append([]backend.DistMemoryOption{
					backend.WithDistMembership(cl.ms, cluster.NewNode(cl.id(node), cl.id(node)+":0")), backend.WithDistTransport(tr),
				}, opts...)...)
				if err != nil {
					rt.Fatalf("restart: %v", err)
				}

				cl.nodes[node], cl.tr[node] = b.(*backend.DistMemory), tr
				fresh[node] = true

				for i := range cl.nodes {
					cl.tr[i].Register(cl.nodes[node])
					tr.Register(cl.nodes[i])
				}

				known = map[string]bool{}

				c.Log("restart n%d", node)
			}

			for k := range known {
				for i, nd := range cl.nodes {
					it, hit := nd.Get(bg, k)
					if hit != (model[k] != nil) || (hit && it.Value != model[k]) {
						rt.Fatalf("node %d reads %q as %v %v, want %v\n%s", i, k, it, hit, model[k], c.Desc())
					}
				}

				checkPlacement(rt, c, cl, k, model[k], model[k] != nil)
			}
		}

		c.NT(over && rem)
	})
}
