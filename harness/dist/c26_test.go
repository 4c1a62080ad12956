package dist_test

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// entry is one generated item or delete.
type entry struct {
	key    string
	ver    uint64
	origin string
	del    bool
	val    any
}

func (e entry) String() string {
	if e.del {
		return fmt.Sprintf("%q deleted v%d", e.key, e.ver)
	}

	return fmt.Sprintf("%q v%d@%s", e.key, e.ver, e.origin)
}

// prefixes and concatenations of each other, so that sloppy digests collide
var merkleKey = rapid.OneOf(
	rapid.StringMatching(`[ab]{1,3}`),
	rapid.StringMatching(`k[0-9]{1,3}`),
	rapid.SampledFrom([]string{"a\x00\x00\x00\x00\x00\x00\x00\x01b", "a\x00\x00\x00\x00\x00\x00\x00\x01", "\x00", "日本", "k%20/x"}),
)

func drawEntries(rt *rapid.T, label string, most int) []entry {
	return rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) entry {
		e := entry{
			key:    merkleKey.Draw(t, "key"),
			ver:    rapid.Uint64Range(1, 4).Draw(t, "ver"),
			origin: rapid.SampledFrom([]string{"n0", "n1", "n2"}).Draw(t, "origin"),
			del:    rapid.IntRange(0, 4).Draw(t, "del") == 0,
		}
		e.val = fmt.Sprintf("%s/%d/%s", e.key, e.ver, e.origin)

		return e
	}), 0, most, func(e entry) string { return e.key }).Draw(rt, label)
}

// plant puts a node into the state given by the entries, through the
// interfaces of replication: versioned sets, and deletes learned from a peer.
func plant(rt *rapid.T, dm *backend.DistMemory, tr *backend.InProcessTransport, entries []entry) {
	var tombs []backend.MerkleTombstone

	for _, e := range entries {
		if e.del {
			tombs = append(tombs, backend.MerkleTombstone{Key: e.key, Version: e.ver, Origin: e.origin, DeletedAt: time.Now()})

			continue
		}

		err := tr.ForwardSet(bg, string(dm.LocalNodeID()), &cache.Item{Key: e.key, Value: e.val, Version: e.ver, Origin: e.origin}, false)
		if err != nil {
			rt.Fatalf("plant %v: %v", e, err)
		}
	}

	feed := &feeder{InProcessTransport: backend.NewInProcessTransport(), tree: &backend.MerkleTree{ChunkSize: 1, Tombstones: tombs}}
	dm.SetTransport(feed)

	if err := dm.SyncWith(bg, "feeder"); err != nil {
		rt.Fatalf("plant deletes: %v", err)
	}

	dm.SetTransport(tr)

	got := contents(dm)
	for _, e := range entries {
		s := got[e.key]
		if s.has == e.del || s.deleted != e.del || s.ver != e.ver || (!e.del && (s.origin != e.origin || !sameVal(s.val, e.val))) {
			rt.Fatalf("plant %v: %v", e, s)
		}
	}

	if len(got) != len(entries) {
		rt.Fatalf("planted %v, holds%s", entries, dump(got))
	}
}

// sig is what the digest stands for.
func sig(m map[string]state) map[string]string {
	out := map[string]string{}

	for k, s := range m {
		if s.has {
			out[k] = fmt.Sprintf("v%d@%s", s.ver, s.origin)
		} else {
			out[k] = fmt.Sprintf("deleted v%d", s.ver)
		}
	}

	return out
}

func keysOf(m map[string]state) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}

	sort.Strings(out)

	return out
}

func TestC26Pairs(t *testing.T) {
	vh.Run(t, "pairs", "two replicas of every key with random contents (0-40 items and deletes, versions 1-4, three origins, partly shared), chunk sizes 1-128 and shard counts; digests are equal exactly when the contents are, the reported leaf ranges cover every differing key, a sync takes over everything newer and loses nothing, repeating it changes nothing, and after syncing both ways nothing is left to do; non-trivial: both sides hold something newer than the other, one of them a delete", 900, func(rt *rapid.T, c *vh.Case) {
		chunk := rapid.SampledFrom([]int{1, 2, 3, 7, 128}).Draw(rt, "chunk")
		chunk2 := chunk

		if rapid.IntRange(0, 4).Draw(rt, "mixed") == 0 {
			chunk2 = rapid.SampledFrom([]int{1, 2, 3, 7, 128}).Draw(rt, "chunk2")
		}

		cl := newClu(rt, 0, 2)
		cl.add(rt, 0, backend.WithDistMerkleChunkSize(chunk), backend.WithDistShardCount(rapid.SampledFrom([]int{1, 8}).Draw(rt, "shards")))
		cl.add(rt, 1, backend.WithDistMerkleChunkSize(chunk2), backend.WithDistShardCount(rapid.SampledFrom([]int{1, 3}).Draw(rt, "shards")))
		defer cl.stop()

		a := drawEntries(rt, "a", 40)

		var b []entry

		for _, e := range a { // related contents
			switch rapid.IntRange(0, 9).Draw(rt, "rel") {
			case 0:
			case 1:
				e.ver = rapid.Uint64Range(1, 4).Draw(rt, "ver")
				e.val = fmt.Sprintf("%s/%d/%s", e.key, e.ver, e.origin)
				b = append(b, e)
			case 2:
				e.del = !e.del
				b = append(b, e)
			case 3:
				if rapid.Bool().Draw(rt, "one") {
					e.origin = "n1"
					e.val = fmt.Sprintf("%s/%d/%s", e.key, e.ver, e.origin)
				}

				b = append(b, e)
			default:
				b = append(b, e)
			}
		}

		if rapid.Bool().Draw(rt, "extra") {
			for _, e := range drawEntries(rt, "b", 5) {
				dup := false
				for _, o := range b {
					dup = dup || o.key == e.key
				}

				if !dup {
					b = append(b, e)
				}
			}
		}

		c.Log("chunks %d/%d a %v b %v", chunk, chunk2, a, b)

		A, B := cl.nodes[0], cl.nodes[1]
		plant(rt, A, cl.tr[0], a)
		plant(rt, B, cl.tr[1], b)

		sa, sb := contents(A), contents(B)

		compare := func(what string) {
			x, y := contents(A), contents(B)
			tx, ty := A.BuildMerkleTree(), B.BuildMerkleTree()

			if chunk == chunk2 && reflect.DeepEqual(sig(x), sig(y)) != reflect.DeepEqual(tx.Root, ty.Root) {
				rt.Fatalf("%s: digests %x %x of%s\nand%s\n%s", what, tx.Root, ty.Root, dump(x), dump(y), c.Desc())
			}

			for dir, p := range map[string][2]*backend.MerkleTree{"a-b": {tx, ty}, "b-a": {ty, tx}} {
				mine, other := x, y
				if dir == "b-a" {
					mine, other = y, x
				}

				diff := map[int]bool{}
				for _, i := range p[0].DiffLeafRanges(p[1]) {
					diff[i] = true
				}

				if chunk == chunk2 && len(diff) > 0 && reflect.DeepEqual(sig(x), sig(y)) {
					rt.Fatalf("%s: differences %v between equal contents\n%s", what, diff, c.Desc())
				}

				so, sm := sig(other), sig(mine)
				for i, k := range keysOf(mine) {
					if sm[k] != so[k] && !diff[i/p[0].ChunkSize] {
						rt.Fatalf("%s %s: key %q differs (%s / %s), chunk %d is not reported (%v)\n%s", what, dir, k, sm[k], so[k], i/p[0].ChunkSize, diff, c.Desc())
					}
				}
			}
		}
		compare("before")

		// merged is the newer of the two states, given the key's presence.
		expect := func(mine, theirs map[string]state, what string, got map[string]state) {
			for k := range got {
				if _, x := mine[k]; !x {
					if _, y := theirs[k]; !y {
						rt.Fatalf("%s: key %q out of nowhere\n%s", what, k, c.Desc())
					}
				}
			}

			for _, m := range []map[string]state{mine, theirs} {
				for k := range m {
					want := mine[k]
					if older(want, theirs[k]) {
						want = theirs[k]
					}

					g := got[k]
					if g.has != want.has || g.deleted != want.deleted || g.ver != want.ver || (g.has && (g.origin != want.origin || !sameVal(g.val, want.val))) {
						rt.Fatalf("%s: key %q: had %v, peer %v, now %v\n%s", what, k, mine[k], theirs[k], g, c.Desc())
					}
				}
			}
		}

		sync := func(dm *backend.DistMemory, peer string) {
			if err := dm.SyncWith(bg, peer); err != nil {
				rt.Fatalf("sync: %v\n%s", err, c.Desc())
			}
		}

		sync(A, "n1")
		ga := contents(A)
		expect(sa, sb, "a from b", ga)

		if !reflect.DeepEqual(contents(B), sb) {
			rt.Fatalf("syncing changed the peer\n%s", c.Desc())
		}

		sync(A, "n1")

		if again := contents(A); !reflect.DeepEqual(again, ga) {
			rt.Fatalf("a second sync changed%s\nto%s\n%s", dump(ga), dump(again), c.Desc())
		}

		compare("half way")
		sync(B, "n0")
		expect(sb, ga, "b from a", contents(B))
		compare("after")

		if chunk == chunk2 {
			for i, dm := range cl.nodes {
				before := dm.Metrics()
				sync(dm, cl.id(1-i))

				if after := dm.Metrics(); after.MerkleSyncs != before.MerkleSyncs || after.MerkleKeysPulled != before.MerkleKeysPulled {
					rt.Fatalf("node %d still finds something to do\n%s", i, c.Desc())
				}
			}
		}

		var newerA, newerB, del bool

		for k := range ga {
			newerA = newerA || older(sb[k], sa[k])
			newerB = newerB || older(sa[k], sb[k])
			del = del || (older(sb[k], sa[k]) && sa[k].deleted) || (older(sa[k], sb[k]) && sb[k].deleted)
		}

		c.NT(newerA && newerB && del)
	})
}

// feeder is a peer that only has deletes to report.
type feeder struct {
	*backend.InProcessTransport

	tree *backend.MerkleTree
}

func TestC26Cluster(t *testing.T) {
	vh.Run(t, "cluster", "3-5 nodes, replication 1-4, random contents planted on arbitrary nodes including ones that own nothing of it, syncs between arbitrary pairs in random order; no sync ever replaces a state by an older one, and once every owner synced with every node all owners of a key hold its newest state, while no node lost anything; non-trivial: a sync with a peer lacking keys held here, and an owner that started without the newest state", 300, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(3, 5).Draw(rt, "nodes")
		rf := rapid.IntRange(1, 4).Draw(rt, "rf")
		chunk := rapid.SampledFrom([]int{1, 2, 4, 128}).Draw(rt, "chunk")
		cl := newClu(rt, 0, rf)

		for i := range n {
			cl.add(rt, i, backend.WithDistMerkleChunkSize(chunk))
		}
		defer cl.stop()

		for i, dm := range cl.nodes {
			es := drawEntries(rt, "contents", 12)

			var own []entry

			for _, e := range es { // replicas only take what they own
				for _, o := range cl.owners(e.key) {
					if o == i || e.del {
						own = append(own, e)

						break
					}
				}
			}

			plant(rt, dm, cl.tr[i], own)
			c.Log("n%d %v", i, own)
		}

		newest := map[string]state{}

		for _, dm := range cl.nodes {
			for k, s := range contents(dm) {
				if older(newest[k], s) {
					newest[k] = s
				}
			}
		}

		var lacking, lagging bool

		one := func(i, j int) {
			before, peer := contents(cl.nodes[i]), contents(cl.nodes[j])
			if err := cl.nodes[i].SyncWith(bg, cl.id(j)); err != nil {
				rt.Fatalf("sync %d with %d: %v\n%s", i, j, err, c.Desc())
			}

			after := contents(cl.nodes[i])
			for k, s := range before {
				if older(after[k], s) {
					rt.Fatalf("sync of %d with %d took %q from %v back to %v\n%s", i, j, k, s, after[k], c.Desc())
				}

				if _, ok := peer[k]; !ok {
					lacking = true
				}
			}

			for k, s := range after {
				if s != (state{}) && older(newest[k], s) {
					rt.Fatalf("sync of %d with %d made up %q %v\n%s", i, j, k, s, c.Desc())
				}
			}
		}

		for range rapid.IntRange(0, 10).Draw(rt, "random") {
			i, j := rapid.IntRange(0, n-1).Draw(rt, "i"), rapid.IntRange(0, n-1).Draw(rt, "j")
			if i != j {
				one(i, j)
			}
		}

		for k, s := range newest {
			for _, o := range cl.owners(k) {
				lagging = lagging || older(contents(cl.nodes[o])[k], s)
			}
		}

		for range 2 { // news may have to travel through an owner
			for i := range n {
				for j := range n {
					if i != j {
						one(i, j)
					}
				}
			}
		}

		for k, s := range newest {
			for _, o := range cl.owners(k) {
				if g := contents(cl.nodes[o])[k]; older(g, s) || g.has != s.has || (g.has && !sameVal(g.val, s.val)) {
					rt.Fatalf("owner %d of %q: %v after synchronising with everyone, want %v\n%s", o, k, g, s, c.Desc())
				}
			}
		}

		c.NT(lacking && lagging)
	})
}

func TestC26Background(t *testing.T) {
	vh.Run(t, "background", "2-4 nodes with the periodic synchronisation running in virtual time, random peer caps and adaptive backoff; after random divergence and enough intervals all nodes agree on the newest states; non-trivial: three nodes or more and a backoff or peer cap", 80, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			n := rapid.IntRange(2, 4).Draw(rt, "nodes")
			maxBack := rapid.SampledFrom([]int{0, 2, 4}).Draw(rt, "backoff")
			peers := rapid.IntRange(0, 2).Draw(rt, "peers")
			cl := newClu(rt, 0, n)

			for i := range n {
				cl.add(rt, i, backend.WithDistMerkleChunkSize(rapid.SampledFrom([]int{1, 4}).Draw(rt, "chunk")),
					backend.WithDistMerkleAutoSync(100*time.Millisecond),
					backend.WithDistMerkleAdaptiveBackoff(maxBack), backend.WithDistMerkleAutoSyncPeers(peers))
			}
			defer cl.stop()

			c.Log("%d nodes backoff %d peers %d", n, maxBack, peers)

			for range rapid.IntRange(1, 3).Draw(rt, "rounds") {
				newest := map[string]state{}

				for i, dm := range cl.nodes {
					es := drawEntries(rt, "contents", 10)
					for _, e := range es {
						e.ver += uint64(10)
						if !e.del {
							_ = cl.tr[i].ForwardSet(bg, cl.id(i), &cache.Item{Key: e.key, Value: e.val, Version: e.ver, Origin: e.origin}, false)
						}
					}

					c.Log("n%d %v", i, es)

					for k, s := range contents(dm) {
						if older(newest[k], s) {
							newest[k] = s
						}
					}
				}

				time.Sleep(time.Duration(12*n) * 100 * time.Millisecond * time.Duration(max(1, maxBack)))

				for i, dm := range cl.nodes {
					got := contents(dm)
					for k, s := range newest {
						if g := got[k]; g.ver != s.ver || g.has != s.has || g.origin != s.origin {
							rt.Fatalf("node %d holds %v of %q, newest %v\n%s", i, g, k, s, c.Desc())
						}
					}
				}
			}

			c.NT(n >= 3 && (maxBack > 1 || peers > 0))
		})
	})
}

func (f *feeder) FetchMerkle(_ context.Context, _ string) (*backend.MerkleTree, error) {
	return f.tree, nil
}

func (f *feeder) ListKeys(_ context.Context, _, _ string) ([]string, error) { return nil, nil }
