package cluster_test

import (
	"errors"
	"fmt"
	"net"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/cespare/xxhash/v2"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
)

// genIDs draws n distinct node ids, some derived from addresses.
func genNodes(rt *rapid.T, minN, maxN int) []*cluster.Node {
	n := rapid.IntRange(minN, maxN).Draw(rt, "n")
	style := rapid.SampledFrom([]string{"addr", "id", "odd", "mixed"}).Draw(rt, "style")
	seen := map[cluster.NodeID]bool{}
	out := make([]*cluster.Node, 0, n)

	for len(out) < n {
		var node *cluster.Node

		s := style
		if s == "mixed" {
			s = rapid.SampledFrom([]string{"addr", "id", "odd"}).Draw(rt, "nstyle")
		}

		switch s {
		case "addr":
			node = cluster.NewNode("", fmt.Sprintf("10.0.%d.%d:%d", rapid.IntRange(0, 3).Draw(rt, "a"), rapid.IntRange(0, 250).Draw(rt, "b"), rapid.SampledFrom([]int{80, 7946, 65535}).Draw(rt, "port")))
		case "id":
			node = cluster.NewNode(fmt.Sprintf("node-%d", rapid.IntRange(0, 60).Draw(rt, "i")), fmt.Sprintf("h%d:1", len(out)))
		default:
			node = cluster.NewNode(string(rapid.SliceOfN(rapid.SampledFrom([]byte{'a', 'b', 0, 1, 0xff}), 1, 4).Draw(rt, "odd")), fmt.Sprintf("h%d:1", len(out)))
		}

		if seen[node.ID] {
			// make it unique by construction
			node = cluster.NewNode(fmt.Sprintf("%s~%d", node.ID, len(out)), node.Address)
		}

		if seen[node.ID] {
			continue
		}

		seen[node.ID] = true
		out = append(out, node)
	}

	return out
}

func genKeys(rt *rapid.T, n int) []string {
	base := rapid.SampledFrom([]string{"k", "user:", "", "日本/", "\x00"}).Draw(rt, "kp")
	off := rapid.IntRange(0, 1<<20).Draw(rt, "koff")
	out := make([]string, 0, n+4)

	for i := range n {
		out = append(out, fmt.Sprintf("%s%d", base, off+i))
	}

	return append(out, "", "a", rapid.String().Draw(rt, "kx"), rapid.StringN(0, 300, -1).Draw(rt, "ky"))
}

func ids(nodes []*cluster.Node) []cluster.NodeID {
	out := make([]cluster.NodeID, 0, len(nodes))
	for _, n := range nodes {
		out = append(out, n.ID)
	}

	return out
}

func newRing(rep, vn int) *cluster.Ring {
	opts := []cluster.RingOption{}
	if rep != 0 {
		opts = append(opts, cluster.WithReplication(rep))
	}

	if vn != 0 {
		opts = append(opts, cluster.WithVirtualNodes(vn))
	}

	return cluster.NewRing(opts...)
}

func clone(nodes []*cluster.Node) []*cluster.Node {
	out := make([]*cluster.Node, 0, len(nodes))
	for _, n := range nodes {
		c := *n
		out = append(out, &c)
	}

	return out
}

func genVN(rt *rapid.T) int {
	return rapid.SampledFrom([]int{0, 1, 2, 3, 8, 16, 64, 65, 100, 255, 256, 257, 300}).Draw(rt, "vn")
}

func genRep(rt *rapid.T) int { return rapid.IntRange(-1, 7).Draw(rt, "rep") }

func effRep(rep int) int {
	if rep <= 0 {
		return 1
	}

	return rep
}

func checkOwners(rt *rapid.T, what string, owners []cluster.NodeID, members []cluster.NodeID, rep int) {
	want := min(effRep(rep), len(members))
	if len(owners) != want {
		rt.Fatalf("%s: %d owners %q, want %d (replication %d, members %q)", what, len(owners), owners, want, rep, members)
	}

	seen := map[cluster.NodeID]bool{}
	for _, o := range owners {
		if seen[o] {
			rt.Fatalf("%s: duplicate owner %q in %q", what, o, owners)
		}

		seen[o] = true

		if !slices.Contains(members, o) {
			rt.Fatalf("%s: owner %q is not a live member of %q", what, o, members)
		}
	}
}

type point struct {
	h  uint64
	id cluster.NodeID
}

// points reads the ring's published points ("hash:node") and checks that
// every member has as many distinct ones as configured, up to the 256 the
// index byte can number.
func points(rt *rapid.T, r *cluster.Ring, members []cluster.NodeID, vn int) []point {
	if vn <= 0 {
		vn = 64
	}

	if got := r.VirtualNodesPerNode(); got != vn {
		rt.Fatalf("ring reports %d virtual nodes per member, configured %d", got, vn)
	}

	var out []point

	per := map[cluster.NodeID]map[uint64]bool{}

	for _, s := range r.VNodeHashes() {
		hs, id, ok := strings.Cut(s, ":")
		h, err := strconv.ParseUint(hs, 16, 64)

		if !ok || err != nil {
			rt.Fatalf("published point %q", s)
		}

		if len(out) > 0 && h < out[len(out)-1].h {
			rt.Fatalf("published points are out of order at %q", s)
		}

		out = append(out, point{h, cluster.NodeID(id)})

		if per[cluster.NodeID(id)] == nil {
			per[cluster.NodeID(id)] = map[uint64]bool{}
		}

		per[cluster.NodeID(id)][h] = true
	}

	if len(out) != vn*len(members) || len(per) != len(members) {
		rt.Fatalf("%d points of %d members, expected %d of %d", len(out), len(per), vn*len(members), len(members))
	}

	for _, id := range members {
		if n := len(per[id]); n != min(vn, 256) {
			rt.Fatalf("member %q has %d distinct points, %d virtual nodes configured", id, n, vn)
		}
	}

	return out
}

// onPoint makes keys whose hash falls exactly on a member's point.
func onPoint(rt *rapid.T, nodes []*cluster.Node, vn int) []string {
	var out []string

	for _, n := range nodes {
		out = append(out, string(n.ID)+string([]byte{byte(rapid.IntRange(0, max(vn, 1)-1).Draw(rt, "point"))}))
	}

	return out
}

func walk(ps []point, key string, rep int) []cluster.NodeID {
	h := xxhash.Sum64String(key)

	i := 0
	for i < len(ps) && ps[i].h < h {
		i++
	}

	var out []cluster.NodeID

	for j := range ps {
		if p := ps[(i+j)%len(ps)]; len(out) < rep && !slices.Contains(out, p.id) {
			out = append(out, p.id)
		}
	}

	return out
}

// Owner lists are valid and a function of the member set only.
func TestC01OwnersValidAndAgreed(t *testing.T) {
	vh.Run(t, "owners-valid-agreed", "random member set, ring settings and keys; the ring is computed once directly and once through a membership with a shuffled join order, re-joins and departed extras; non-trivial: >=3 members and replication >=2", 600, func(rt *rapid.T, c *vh.Case) {
		nodes := genNodes(rt, 0, 12)
		rep, vn := genRep(rt), genVN(rt)

		if rapid.IntRange(0, 39).Draw(rt, "big cluster") == 0 {
			for i := range rapid.SampledFrom([]int{30, 60, 120, 260}).Draw(rt, "bulk") {
				nodes = append(nodes, cluster.NewNode(fmt.Sprintf("bulk-%d", i), fmt.Sprintf("b%d:1", i)))
			}

			vn = min(vn, 16)
		}

		keys := genKeys(rt, rapid.IntRange(1, 60).Draw(rt, "nk"))
		c.NT(len(nodes) >= 3 && rep >= 2)
		c.Log("members=%q rep=%d vn=%d keys=%d[%q..]", ids(nodes), rep, vn, len(keys), keys[0])
		c.LabelIf(len(nodes) == 0, "no members")
		c.LabelIf(effRep(rep) > len(nodes), "replication above members")
		c.LabelIf(vn > 256, "more than 256 vnodes")

		direct := newRing(rep, vn)
		direct.Build(clone(nodes))

		// the same ring object built for other members before
		reused := newRing(rep, vn)

		for i := range rapid.IntRange(0, 3).Draw(rt, "earlier") {
			prev := clone(nodes)

			switch {
			case len(prev) > 0 && rapid.IntRange(0, 2).Draw(rt, "swap") > 0:
				prev[rapid.IntRange(0, len(prev)-1).Draw(rt, "at")] = cluster.NewNode(fmt.Sprintf("earlier#%d", i), "e:1")
			case len(prev) > 0:
				prev = prev[rapid.IntRange(0, len(prev)-1).Draw(rt, "from"):]
			}

			reused.Build(prev)

			for _, k := range keys[:min(len(keys), 3)] {
				checkOwners(rt, "an earlier member set", reused.Lookup(k), ids(prev), rep)
			}
		}

		reused.Build(clone(nodes))

		// the same member set reached through another history
		viaRing := newRing(rep, vn)
		m := cluster.NewMembership(viaRing)
		order := rapid.Permutation(clone(nodes)).Draw(rt, "order")
		extra := 0

		for i, n := range order {
			if rapid.IntRange(0, 3).Draw(rt, "ex") == 0 {
				x := cluster.NewNode(fmt.Sprintf("extra#%d", i), "x:1")
				m.Upsert(x)

				extra++

			}

			m.Upsert(n)

			if rapid.IntRange(0, 4).Draw(rt, "re") == 0 {
				cp := *n
				m.Upsert(&cp)
			}
		}

		for i := range order {
			m.Remove(cluster.NodeID(fmt.Sprintf("extra#%d", i)))
		}

		dead := 0

		for range rapid.IntRange(0, 2).Draw(rt, "dead") {
			d := cluster.NewNode(fmt.Sprintf("dead#%d", dead), "d:1")
			d.State = cluster.NodeDead
			m.Upsert(d)

			dead++
		}

		c.LabelIf(extra > 0, "departed extras")
		c.LabelIf(dead > 0, "dead members listed")

		for _, k := range keys {
			a, b := direct.Lookup(k), viaRing.Lookup(k)
			checkOwners(rt, fmt.Sprintf("key %q", k), a, ids(nodes), rep)

			if !slices.Equal(a, b) {
				rt.Fatalf("key %q: owners %q computed directly, %q through another join history", k, a, b)
			}

			if d := reused.Lookup(k); !slices.Equal(a, d) {
				rt.Fatalf("key %q: owners %q on a fresh ring, %q on one built for other members before", k, a, d)
			}

			if again := direct.Lookup(k); !slices.Equal(a, again) {
				rt.Fatalf("key %q: owners changed between two reads: %q then %q", k, a, again)
			}
		}

		// the published points determine the owners: clockwise from the
		// first point at or after the key's hash
		for _, r := range []*cluster.Ring{direct, viaRing} {
			ref := points(rt, r, ids(nodes), vn)
			for _, k := range append(keys, onPoint(rt, nodes, vn)...) {
				if got, want := r.Lookup(k), walk(ref, k, effRep(rep)); !slices.Equal(got, want) {
					rt.Fatalf("key %q: owners %q, the ring's published points give %q", k, got, want)
				}
			}
		}

		if got := direct.Replication(); got != effRep(rep) {
			rt.Fatalf("ring reports replication %d, configured %d", got, rep)
		}
	})
}

// Joining adds only the new member; leaving removes only the leaver.
func TestC01MinimalDisruption(t *testing.T) {
	vh.Run(t, "minimal-disruption", "random member set, then one member joins or leaves; owner lists before and after are related key by key; non-trivial: >=2 members before and some key's list changes", 600, func(rt *rapid.T, c *vh.Case) {
		nodes := genNodes(rt, 1, 10)
		rep, vn := genRep(rt), genVN(rt)
		keys := genKeys(rt, rapid.IntRange(20, 80).Draw(rt, "nk"))
		r := newRing(rep, vn)
		m := cluster.NewMembership(r)

		for _, n := range nodes[1:] {
			m.Upsert(n)
		}

		moved := nodes[0]
		without := map[string][]cluster.NodeID{}

		for _, k := range keys {
			without[k] = slices.Clone(r.Lookup(k))
		}

		m.Upsert(moved)

		changed := 0

		for _, k := range keys {
			with := r.Lookup(k)
			checkOwners(rt, "after join", with, ids(nodes), rep)

			rest := slices.DeleteFunc(slices.Clone(with), func(o cluster.NodeID) bool { return o == moved.ID })
			base := without[k]

			if len(rest) > len(base) || !slices.Equal(rest, base[:len(rest)]) {
				rt.Fatalf("key %q: owners without %q are %q, with it %q: other members were reshuffled", k, moved.ID, base, with)
			}

			if len(rest) != len(with) {
				changed++
			}
		}

		how := rapid.SampledFrom([]string{"remove", "dead"}).Draw(rt, "how")
		if how == "remove" {
			m.Remove(moved.ID)
		} else {
			d := *moved
			d.State = cluster.NodeDead
			m.Upsert(&d)
		}

		for _, k := range keys {
			if got := r.Lookup(k); !slices.Equal(got, without[k]) {
				rt.Fatalf("key %q: owners %q before %q joined, %q after it left (%s)", k, without[k], moved.ID, got, how)
			}
		}

		c.NT(len(nodes) >= 3 && changed > 0)
		c.Log("members=%q moved=%q rep=%d vn=%d keys=%d changed=%d leave=%s", ids(nodes), moved.ID, rep, vn, len(keys), changed, how)
		c.LabelIf(changed == 0, "no key affected")
	})
}

// Keys spread over the members (loose bounds; default settings).
func TestC01Balance(t *testing.T) {
	vh.Run(t, "balance", "2..9 members at 64 or more virtual nodes, 6000 keys of one naming scheme: every member is primary for between 1/5 and 3 times the mean share; non-trivial: >=3 members", 60, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 9).Draw(rt, "n")
		off := rapid.IntRange(0, 1<<16).Draw(rt, "off")
		style := rapid.SampledFrom([]string{"addr", "id"}).Draw(rt, "style")
		vn := rapid.SampledFrom([]int{0, 64, 128, 256}).Draw(rt, "vn")
		nodes := []*cluster.Node{}

		for i := range n {
			if style == "addr" {
				nodes = append(nodes, cluster.NewNode("", fmt.Sprintf("10.1.%d.%d:7946", off%250, i)))
			} else {
				nodes = append(nodes, cluster.NewNode(fmt.Sprintf("node-%d-%d", off, i), "h:1"))
			}
		}

		r := newRing(1, vn)
		r.Build(nodes)

		const total = 6000

		counts := map[cluster.NodeID]int{}
		// applications name their keys in families
		family := rapid.SampledFrom([]string{"key-%d-%d", "key-%d-%d", "%d%d", "{tenant-%d}:user:%d", "user:{%d}:{%d}", "a/very/long/" + strings.Repeat("prefix/", 60) + "%d/%d", "https://host-%d/item?id=%d#top", "%[2]d:" + strings.Repeat("suffix", 60) + "%[1]d"}).Draw(rt, "family")
		for i := range total {
			counts[r.Lookup(fmt.Sprintf(family, off, i))[0]]++
		}

		mean := float64(total) / float64(n)
		for _, nd := range nodes {
			if f := float64(counts[nd.ID]) / mean; f < 0.2 || f > 3 {
				rt.Fatalf("member %q is primary for %.2f of the mean share (%v)", nd.ID, f, counts)
			}
		}

		c.NT(n >= 3)
		c.Log("n=%d style=%s off=%d vn=%d counts=%v", n, style, off, vn, counts)
	})
}

// A member's identity is a function of what was given for it.
func TestC01NodeIdentity(t *testing.T) {
	vh.Run(t, "node-identity", "random explicit ids and addresses; derived ids are equal for equal addresses and differ for different ones; non-trivial: derived ids of two different addresses", 2000, func(rt *rapid.T, c *vh.Case) {
		a := rapid.StringMatching("[a-z0-9.:]{0,20}").Draw(rt, "a")
		b := rapid.OneOf(rapid.StringMatching("[a-z0-9.:]{0,20}"), rapid.Just(a+"0"), rapid.Just(a+":1")).Draw(rt, "b")
		id := rapid.String().Draw(rt, "id")
		na, na2, nb := cluster.NewNode("", a), cluster.NewNode("", a), cluster.NewNode("", b)

		if na.ID == "" || na.ID != na2.ID {
			rt.Fatalf("address %q gives ids %q and %q", a, na.ID, na2.ID)
		}

		if a != b && na.ID == nb.ID {
			rt.Fatalf("addresses %q and %q share id %q", a, b, na.ID)
		}

		if x := cluster.NewNode(id, a); id != "" && string(x.ID) != id || x.Address != a {
			rt.Fatalf("explicit id %q address %q became %q %q", id, a, x.ID, x.Address)
		}

		if na.State != cluster.NodeAlive {
			rt.Fatalf("a new member is %v", na.State)
		}

		// an address is usable exactly if it has a host and a port part
		for _, s := range []string{a, b, a + ":1", ":" + a, "[" + a + "]:2", id} {
			_, _, splitErr := net.SplitHostPort(s)
			err := cluster.NewNode(id, s).Validate()

			if (err == nil) != (s != "" && splitErr == nil) || err != nil && !errors.Is(err, cluster.ErrInvalidAddress) {
				rt.Fatalf("address %q: Validate says %v, as host:port it is %v", s, err, splitErr)
			}
		}

		c.NT(a != b)
		c.Log("a=%q b=%q id=%q", a, b, id)
	})
}
