package dist_test

import (
	"errors"
	"fmt"
	"slices"
	"testing"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// What a node answers to a write or remove is what happened: the primary, or
// the replica standing in for it, took it to every owner it reaches.
func TestC22Outcome(t *testing.T) {
	vh.Run(t, "outcome", "2-7 nodes, replication 1-5, one write level, 8-30 steps of sets, removes of 1-8 keys and links cut or healed, no hints; the answer is an error exactly when primary and stand-in are out of reach or too few owners took the write, and every owner the coordinator reaches - and no other - took it; a copy lost by one owner comes back as it was when read there; non-trivial: a write that failed its level, one that a replica stood in for, and a batch of more than four keys", 400, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 7).Draw(rt, "nodes")
		rf := rapid.IntRange(1, 5).Draw(rt, "rf")
		wl := levels().Draw(rt, "write")
		cl := newClu(rt, n, rf, backend.WithDistReadConsistency(backend.ConsistencyOne),
			backend.WithDistWriteConsistency(wl), backend.WithDistShardCount(2))

		defer cl.stop()

		c.Log("%d nodes rf %d write %v", n, rf, wl)

		keys := rapid.SliceOfNDistinct(keyGen, 5, 9, rapid.ID[string]).Draw(rt, "keys")
		up := func(i, j int) bool { return i == j || !cl.down[[2]int{i, j}] }

		// who coordinates an operation entering at node: -1 when nobody can
		coordinator := func(node int, owners []int) int {
			if node == owners[0] || up(node, owners[0]) {
				return owners[0]
			}

			if slices.Contains(owners, node) {
				return node
			}

			return -1
		}

		needed := func(owners int) int {
			switch wl {
			case backend.ConsistencyAll:
				return owners
			case backend.ConsistencyQuorum:
				return owners/2 + 1
			default:
				return 1
			}
		}

		var failed, standIn, batch bool

		for step := range rapid.IntRange(8, 30).Draw(rt, "steps") {
			node := rapid.IntRange(0, n-1).Draw(rt, "node")
			key := rapid.SampledFrom(keys).Draw(rt, "key")
			owners := cl.owners(key)
			dm := cl.nodes[node]

			before := make([]map[string]state, n)
			for i, nd := range cl.nodes {
				before[i] = contents(nd)
			}

			switch op := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case op < 4:
				v := fmt.Sprintf("v%d", step)
				co := coordinator(node, owners)
				err := dm.Set(bg, mkItem(key, v))
				c.Log("set n%d %q=%s (owners %v, coordinator %d) -> %v", node, key, v, owners, co, err)

				acks := 0

				for i, nd := range cl.nodes {
					took := co >= 0 && slices.Contains(owners, i) && up(co, i)
					if took {
						acks++
					}

					s := contents(nd)[key]
					if got := s.has && s.val == v; got != took {
						rt.Fatalf("node %d took the write: %v, want %v (%v)\n%s", i, got, took, s, c.Desc())
					}

					if !took && s != before[i][key] {
						rt.Fatalf("node %d: %v became %v\n%s", i, before[i][key], s, c.Desc())
					}
				}

				switch want := co >= 0 && acks >= needed(len(owners)); {
				case want != (err == nil):
					rt.Fatalf("%d of %d owners took it, the answer is %v\n%s", acks, len(owners), err, c.Desc())
				case co >= 0 && err != nil && !errors.Is(err, sentinel.ErrQuorumFailed):
					rt.Fatalf("too few owners, the answer is %v\n%s", err, c.Desc())
				}

				failed = failed || (co >= 0 && err != nil && co != node)
				standIn = standIn || (co == node && co != owners[0] && err == nil)
			case op < 6:
				ks := []string{key}
				if rapid.Bool().Draw(rt, "many") {
					ks = rapid.SliceOfN(rapid.SampledFrom(keys), 2, 8).Draw(rt, "batch")
				}

				err := dm.Remove(bg, ks...)
				c.Log("remove n%d %q -> %v", node, ks, err)

				ok := true
				for _, k := range ks {
					ok = ok && coordinator(node, cl.owners(k)) >= 0
				}

				if ok != (err == nil) {
					rt.Fatalf("remove: %v, possible %v\n%s", err, ok, c.Desc())
				}

				if !ok {
					break
				}

				batch = batch || len(ks) > 4

				for _, k := range ks {
					own := cl.owners(k)
					co := coordinator(node, own)
					standIn = standIn || (co == node && co != own[0])

					for i, nd := range cl.nodes {
						took := slices.Contains(own, i) && up(co, i)
						s := contents(nd)[k]

						if took && (s.has || !s.deleted) {
							rt.Fatalf("remove of %q (owners %v, coordinator %d): node %d: %v\n%s", k, own, co, i, s, c.Desc())
						}

						if !took && s != before[i][k] {
							rt.Fatalf("remove of %q (owners %v, coordinator %d): node %d out of reach, yet %v became %v\n%s", k, own, co, i, before[i][k], s, c.Desc())
						}
					}
				}
			case op < 7: // an owner lost its copy and is asked for the key
				i := owners[rapid.IntRange(0, len(owners)-1).Draw(rt, "loser")]
				was := before[i][key]

				if !was.has {
					break
				}

				cl.nodes[i].DebugDropLocal(key)

				it, hit := cl.nodes[i].Get(bg, key)
				now := contents(cl.nodes[i])[key]
				c.Log("n%d lost %q (%v), reads %v, holds %v", i, key, was, hit, now)

				held := func(s state) bool {
					return slices.ContainsFunc(owners, func(j int) bool {
						b := before[j][key]

						return j != i && b.has && b.val == s.val && b.ver == s.ver && b.origin == s.origin
					})
				}

				if hit && !held(state{val: it.Value, ver: it.Version, origin: it.Origin}) || now.has && !held(now) {
					rt.Fatalf("nobody else held that\n%s", c.Desc())
				}

				if reach := slices.ContainsFunc(owners, func(j int) bool { return j != i && up(i, j) && before[j][key].has }); reach != hit {
					rt.Fatalf("another owner in reach holds it: %v\n%s", reach, c.Desc())
				}
			default:
				a, b := rapid.IntRange(0, n-1).Draw(rt, "from"), rapid.IntRange(0, n-1).Draw(rt, "to")
				if a != b {
					cl.link(a, b, cl.down[[2]int{a, b}])
					c.Log("link %d->%d up: %v", a, b, !cl.down[[2]int{a, b}])
				}
			}
		}

		c.LabelIf(failed, "failed its level at the primary")
		c.NT(batch && standIn && (failed || wl == backend.ConsistencyOne))
	})
}

// Nodes may see different members; a write somebody acknowledges is held by
// somebody.
func TestC22Views(t *testing.T) {
	vh.Run(t, "views", "2-5 nodes, each with a member list of its own (itself and any others, alive), replication 1-3; sets of up to 20 keys through random nodes: one that succeeds is held by some node; non-trivial: a write forwarded to a node that does not see itself as an owner", 300, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 5).Draw(rt, "nodes")
		rf := rapid.IntRange(1, 3).Draw(rt, "rf")
		wl := levels().Draw(rt, "write")
		tr := backend.NewInProcessTransport()
		nodes := make([]*backend.DistMemory, n)
		self := make([]*cluster.Node, n)

		for i := range n {
			self[i] = cluster.NewNode(fmt.Sprintf("n%d", i), fmt.Sprintf("n%d:0", i))
		}

		for i := range n {
			ms := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(rf)))

			for j := range n {
				if i == j || rapid.Bool().Draw(rt, "sees") {
					ms.Upsert(cluster.NewNode(string(self[j].ID), self[j].Address))
				}
			}

			b, err := backend.NewDistMemory(bg, backend.WithDistMembership(ms, self[i]), backend.WithDistTransport(tr),
				backend.WithDistWriteConsistency(wl), backend.WithDistReadConsistency(backend.ConsistencyOne))
			if err != nil {
				rt.Fatalf("NewDistMemory: %v", err)
			}

			nodes[i] = b.(*backend.DistMemory)
			tr.Register(nodes[i])

			defer func() { _ = nodes[i].Stop(bg) }()
		}

		refused := false

		for k := range rapid.IntRange(3, 20).Draw(rt, "keys") {
			key := fmt.Sprintf("key-%d", k)
			node := rapid.IntRange(0, n-1).Draw(rt, "node")
			err := nodes[node].Set(bg, mkItem(key, k))
			owners := nodes[node].DebugOwners(key)
			held := 0

			for i, nd := range nodes {
				if slices.Contains(owners, nd.LocalNodeID()) && !nd.IsOwner(key) {
					refused = refused || i != node
				}

				if it, ok := contents(nd)[key]; ok && it.val == k {
					held++
				}
			}

			c.Log("set n%d %s (owners %v) -> %v, held by %d", node, key, owners, err, held)

			if err == nil && held == 0 {
				rt.Fatalf("acknowledged, and nobody holds it\n%s", c.Desc())
			}
		}

		c.NT(refused)
	})
}

// The parts of the backend that concern one node's own copy.
func TestC22Local(t *testing.T) {
	vh.Run(t, "local", "1-3 nodes, 0-300 keys over 1-4 shards; Count, List, LocalContains, Touch and Clear speak of what the one node holds and change nothing elsewhere, items they return are copies; capacities; non-trivial: over 100 items on one node and a clear", 60, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 3).Draw(rt, "nodes")
		rf := rapid.IntRange(1, 3).Draw(rt, "rf")
		cl := newClu(rt, n, rf, backend.WithDistShardCount(rapid.IntRange(1, 4).Draw(rt, "shards")), backend.WithDistReadConsistency(backend.ConsistencyOne))

		defer cl.stop()

		keys := rapid.IntRange(0, 300).Draw(rt, "keys")
		key := func(k int) string { return fmt.Sprintf("key-%d", k) }

		for k := range keys {
			if err := cl.nodes[k%n].Set(bg, mkItem(key(k), k)); err != nil {
				rt.Fatalf("set: %v", err)
			}
		}

		extra := rapid.IntRange(0, n-1).Draw(rt, "extra") // a copy where the ring puts none
		cl.nodes[extra].DebugInject(&cache.Item{Key: "extra", Value: "x", Version: 1, Origin: "n0"})

		cleared := map[int]bool{}
		most := 0

		check := func() {
			for i, nd := range cl.nodes {
				want := map[string]any{}

				if !cleared[i] {
					for k := range keys {
						if slices.Contains(cl.owners(key(k)), i) {
							want[key(k)] = k
						}
					}

					if i == extra {
						want["extra"] = "x"
					}
				}

				most = max(most, len(want))

				items, err := nd.List(bg)
				if err != nil || len(items) != len(want) || nd.Count(bg) != len(want) {
					rt.Fatalf("node %d lists %d items (%v) and counts %d, holds %d", i, len(items), err, nd.Count(bg), len(want))
				}

				for _, it := range items {
					if v, ok := want[it.Key]; !ok || v != it.Value {
						rt.Fatalf("node %d lists %q=%v, want %v %v", i, it.Key, it.Value, v, ok)
					}

					it.Value, it.Version, it.Key = "somebody's copy", 1<<40, "other"
				}

				for k := range keys {
					if _, ok := want[key(k)]; nd.LocalContains(key(k)) != ok {
						rt.Fatalf("node %d LocalContains(%q) = %v", i, key(k), !ok)
					}
				}
			}
		}

		check()

		for range rapid.IntRange(1, 12).Draw(rt, "steps") {
			i := rapid.IntRange(0, n-1).Draw(rt, "node")
			nd := cl.nodes[i]

			switch rapid.IntRange(0, 3).Draw(rt, "op") {
			case 0:
				if err := nd.Clear(bg); err != nil {
					rt.Fatalf("clear: %v", err)
				}

				cleared[i] = true
				c.Log("clear n%d", i)
			case 1, 2:
				k := "extra"
				if keys > 0 && rapid.Bool().Draw(rt, "one") {
					k = key(rapid.IntRange(0, keys).Draw(rt, "k"))
				}

				count := func() (uint32, bool) {
					items, _ := nd.List(bg)
					for _, it := range items {
						if it.Key == k {
							return it.AccessCount, true
						}
					}

					return 0, false
				}

				was, held := count()
				if got := nd.Touch(bg, k); got != held {
					rt.Fatalf("node %d Touch(%q) = %v, holds it: %v", i, k, got, held)
				}

				if now, _ := count(); held && now != was+1 {
					rt.Fatalf("node %d Touch(%q): access count %d became %d", i, k, was, now)
				}
			default:
				was := nd.Capacity()
				capn := rapid.SampledFrom([]int{0, 1, 5, 1 << 20, -1, -7}).Draw(rt, "cap")
				nd.SetCapacity(capn)

				if capn >= 0 {
					was = capn
				}

				if got := nd.Capacity(); got != was {
					rt.Fatalf("capacity %d after SetCapacity(%d), want %d", got, capn, was)
				}
			}

			check()
		}

		c.NT(most > 100 && len(cleared) > 0)
	})
}
