package dist_test

import (
	"fmt"
	"net"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

// Nodes over HTTP that know one another only through their seeds.
func TestC36_Seeds(t *testing.T) {
	vh.Run(t, "seeds", "some seed is given without an ID", 40, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 5).Draw(rt, "nodes")
		ids, addrs := make([]string, n), make([]string, n)

		for i := range n {
			ids[i], addrs[i] = fmt.Sprintf("n%d", i), freeAddr()
		}

		bare := false
		seeds := make([][]string, n)
		ref := func(i, j int) {
			s := addrs[j]
			if rapid.Bool().Draw(rt, "withID") {
				s = ids[j] + "@" + s
			} else {
				bare = true
			}

			seeds[i] = append(seeds[i], s)
		}

		for i := 1; i < n; i++ { // connected, in either direction
			j := rapid.IntRange(0, i-1).Draw(rt, "parent")
			if rapid.Bool().Draw(rt, "down") {
				ref(j, i)
			} else {
				ref(i, j)
			}
		}

		for range rapid.IntRange(0, 4).Draw(rt, "extra") { // also itself, or twice
			ref(rapid.IntRange(0, n-1).Draw(rt, "from"), rapid.IntRange(0, n-1).Draw(rt, "to"))
		}

		order := rapid.Permutation([]int{0, 1, 2, 3, 4}[:n]).Draw(rt, "order")
		beat := rapid.Bool().Draw(rt, "heartbeat")
		c.Log("seeds %v started in order %v heartbeat %v", seeds, order, beat)
		c.NT(bare)

		nodes := make([]*backend.DistMemory, n)
		defer func() {
			var wg sync.WaitGroup

			for _, dm := range nodes {
				if dm != nil {
					wg.Go(func() { _ = dm.Stop(bg) })
				}
			}

			wg.Wait()
		}()

		for _, i := range order {
			opts := []backend.DistMemoryOption{
				backend.WithDistNode(ids[i], addrs[i]), backend.WithDistSeeds(seeds[i]),
				backend.WithDistGossipInterval(15 * time.Millisecond), backend.WithDistReplication(2),
				backend.WithDistHTTPLimits(backend.DistHTTPLimits{ReadTimeout: 300 * time.Millisecond, IdleTimeout: 300 * time.Millisecond}), // bounds Stop
			}
			if beat {
				opts = append(opts, backend.WithDistHeartbeat(50*time.Millisecond, 30*time.Second, time.Minute))
			}

			b, err := backend.NewDistMemory(bg, opts...)
			if err != nil {
				rt.Fatalf("node %d: %v", i, err)
			}

			nodes[i] = b.(*backend.DistMemory)
		}

		for _, a := range addrs {
			if !vh.Eventually(2*time.Second, func() bool {
				conn, err := net.Dial("tcp", a)
				if err == nil {
					_ = conn.Close()
				}

				return err == nil
			}) {
				c.Label("address taken by something else")
				c.NT(false)

				return
			}
		}

		look := func() string {
			for i, dm := range nodes {
				var got []string
				for _, m := range dm.Membership().List() {
					got = append(got, string(m.ID)+"="+m.Address)
				}

				sort.Strings(got)

				var want []string
				for j := range n {
					want = append(want, ids[j]+"="+addrs[j])
				}

				if !slices.Equal(got, want) {
					return fmt.Sprintf("n%d lists %v, want %v", i, got, want)
				}

				for k := range 6 {
					o := dm.DebugOwners(fmt.Sprint("k", k))
					if len(o) != 2 || fmt.Sprint(o) != fmt.Sprint(nodes[0].DebugOwners(fmt.Sprint("k", k))) {
						return fmt.Sprintf("n%d gives k%d to %v, n0 to %v", i, k, o, nodes[0].DebugOwners(fmt.Sprint("k", k)))
					}
				}
			}

			return ""
		}

		ok := vh.Eventually(15*time.Second, func() bool { return look() == "" })
		if !ok {
			rt.Fatalf("the nodes do not settle on the real members: %s\nseeds %s", look(), strings.Join(flat(seeds), " "))
		}

		for range 5 { // and keep to them
			time.Sleep(20 * time.Millisecond)

			if s := look(); s != "" {
				rt.Fatalf("settled, then %s\nseeds %s", s, strings.Join(flat(seeds), " "))
			}
		}
	})
}

func flat(s [][]string) []string {
	var out []string
	for i, x := range s {
		out = append(out, fmt.Sprintf("n%d:%v", i, x))
	}

	return out
}

// Peers added by address, removed by address and heard of under an ID of
// their own: a process is never in the membership twice.
func TestC36_Peers(t *testing.T) {
	vh.Run(t, "peers", "an address is known both with and without an ID, or added twice", 800, func(rt *rapid.T, c *vh.Case) {
		tr := backend.NewInProcessTransport()
		dm := lone(rt, "self", tr)
		tr.Register(dm)

		defer func() { _ = dm.Stop(bg) }()

		addrs := []string{"self:1", "a:1", "b:1", "c:1", "d:1"}
		bare := func(addr string) string { return string(cluster.NewNode("", addr).ID) }
		named := func(addr string) string { return strings.TrimSuffix(addr, ":1") }
		model := map[string]string{"self": "self:1"} // ID -> address
		at := func(addr string) string {
			for id, a := range model {
				if a == addr {
					return id
				}
			}

			return ""
		}

		twice := false

		for range rapid.IntRange(4, 30).Draw(rt, "steps") {
			addr := rapid.SampledFrom(addrs).Draw(rt, "addr")
			known := at(addr)

			switch op := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case op < 3:
				dm.AddPeer(addr)
				c.Log("add %s", addr)

				twice = twice || known != "" && addr != "self:1"

				if known == "" {
					model[bare(addr)] = addr
				}
			case op < 4:
				if addr == "self:1" {
					break
				}

				dm.RemovePeer(addr)
				c.Log("remove %s", addr)
				delete(model, known)
			case op < 6: // somebody who knows the address only
				if addr == "self:1" && rapid.Bool().Draw(rt, "other") {
					addr = "b:1"
					known = at(addr)
				}

				st := rapid.SampledFrom([]string{"alive", "suspect"}).Draw(rt, "state")
				if err := tr.Gossip(bg, "self", []backend.GossipMember{{ID: bare(addr), Address: addr, State: st, Incarnation: uint64(rapid.IntRange(0, 5).Draw(rt, "inc"))}}); err != nil {
					rt.Fatalf("gossip: %v", err)
				}

				c.Log("hears of %s %s", addr, st)

				twice = twice || known != "" && known != bare(addr)

				if known == "" {
					model[bare(addr)] = addr
				}
			case op < 8: // somebody who knows its ID
				if addr == "self:1" {
					break
				}

				st := rapid.SampledFrom([]string{"alive", "suspect"}).Draw(rt, "state")
				if err := tr.Gossip(bg, "self", []backend.GossipMember{{ID: named(addr), Address: addr, State: st, Incarnation: uint64(rapid.IntRange(0, 5).Draw(rt, "inc"))}}); err != nil {
					rt.Fatalf("gossip: %v", err)
				}

				c.Log("hears of %s as %s %s", addr, named(addr), st)

				twice = twice || known == bare(addr)

				delete(model, bare(addr))
				model[named(addr)] = addr
			default:
				if known != "" && known != "self" {
					dm.Membership().Mark(cluster.NodeID(known), rapid.SampledFrom([]cluster.NodeState{cluster.NodeSuspect, cluster.NodeAlive}).Draw(rt, "mark"))
					c.Log("marks %s", known)
				}
			}

			got := map[string]string{}
			for id, f := range view(dm) {
				got[id] = f.Address
			}

			if fmt.Sprint(got) != fmt.Sprint(model) {
				rt.Fatalf("members %v, want %v\n%s", got, model, c.Desc())
			}

			for k := range 5 {
				owners := dm.DebugOwners(fmt.Sprint("k", k))
				if len(owners) != min(2, len(model)) || slices.ContainsFunc(owners, func(o cluster.NodeID) bool { return model[string(o)] == "" }) {
					rt.Fatalf("owners %v of k%d among %v\n%s", owners, k, model, c.Desc())
				}
			}
		}

		c.NT(twice)
	})
}
