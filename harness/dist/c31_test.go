package dist_test

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

// ---- C31: gossip merges ----

type fact = backend.GossipMember

func lone(rt *rapid.T, id string, tr backend.DistTransport, opts ...backend.DistMemoryOption) *backend.DistMemory {
	ms := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(2)))

	b, err := backend.NewDistMemory(bg, append([]backend.DistMemoryOption{
		backend.WithDistMembership(ms, cluster.NewNode(id, id+":1")),
		backend.WithDistTransport(tr),
	}, opts...)...)
	if err != nil {
		rt.Fatalf("NewDistMemory: %v", err)
	}

	return b.(*backend.DistMemory)
}

func view(dm *backend.DistMemory) map[string]fact {
	out := map[string]fact{}

	for _, n := range dm.Membership().List() {
		out[string(n.ID)] = fact{ID: string(n.ID), Address: n.Address, State: n.State.String(), Incarnation: n.Incarnation}
	}

	return out
}

func showView(v map[string]fact) string {
	var l []string
	for id, f := range v {
		l = append(l, fmt.Sprintf("%s=%s@%d(%s)", id, f.State, f.Incarnation, f.Address))
	}

	sort.Strings(l)

	return strings.Join(l, " ")
}

func showFacts(l []fact) string {
	var s []string
	for _, f := range l {
		s = append(s, fmt.Sprintf("%s=%s@%d(%s)", f.ID, f.State, f.Incarnation, f.Address))
	}

	return strings.Join(s, " ")
}

func incGen() *rapid.Generator[uint64] {
	return rapid.OneOf(rapid.Uint64Range(0, 6), rapid.Uint64Range(0, 6), rapid.Uint64Range(0, 40),
		rapid.Uint64Range(math.MaxUint64/2, math.MaxUint64-100))
}

// drawFacts: in a consistent pool one member has one content per incarnation.
func drawFacts(rt *rapid.T, label string, ids []string, n int, consistent bool) []fact {
	seen := map[string]fact{}

	return rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) fact {
		f := fact{
			ID:          rapid.SampledFrom(ids).Draw(rt, "id"),
			State:       rapid.SampledFrom([]string{"alive", "alive", "suspect", "suspect", "dead"}).Draw(rt, "state"),
			Incarnation: incGen().Draw(rt, "inc"),
		}
		f.Address = f.ID + ":" + rapid.SampledFrom([]string{"1", "1", "2", "3"}).Draw(rt, "port")

		if consistent {
			k := fmt.Sprintf("%s@%d", f.ID, f.Incarnation)
			if old, ok := seen[k]; ok {
				return old
			}

			seen[k] = f
		}

		return f
	}), 1, n).Draw(rt, label)
}

func stateName(s string) string {
	if s == "suspect" || s == "dead" {
		return s
	}

	return "alive"
}

// absorb applies one report entry to the model view of node self. It returns
// the claim incarnation the node has to outdo, when the entry accuses it.
func absorb(m map[string]fact, self string, f fact) (uint64, bool) {
	f.State = stateName(f.State)

	if f.ID == self {
		return f.Incarnation, f.State != "alive" && f.Incarnation >= m[self].Incarnation
	}

	old, ok := m[f.ID]
	if !ok || f.Incarnation > old.Incarnation {
		m[f.ID] = f
	}

	return 0, false
}

func checkMerge(rt *rapid.T, c *vh.Case, self string, model map[string]fact, got map[string]fact, report []fact) {
	own := model[self]
	least, accused := own.Incarnation, false

	for _, f := range report {
		claim, acc := absorb(model, self, f)
		if acc {
			accused = true
			least = max(least, claim+1)
		}
	}

	now := got[self]

	if accused {
		if now.Incarnation < least {
			rt.Fatalf("%s was accused at incarnation %d and answers %s@%d: the accusation still wins\n%s", self, least-1, now.State, now.Incarnation, c.Desc())
		}

		if now.State != "alive" || now.Address != own.Address {
			rt.Fatalf("%s says of itself %+v after an accusation\n%s", self, now, c.Desc())
		}

		model[self] = now
	}

	if len(got) != len(model) {
		rt.Fatalf("%s knows {%s}, expected {%s}\n%s", self, showView(got), showView(model), c.Desc())
	}

	for id, want := range model {
		if got[id] != want {
			rt.Fatalf("%s holds %+v for %s, expected %+v\n%s", self, got[id], id, want, c.Desc())
		}
	}
}

func TestC31_Merge(t *testing.T) {
	vh.Run(t, "merge", "a report accuses the receiver, or carries older or newer information on a known member", 4000, func(rt *rapid.T, c *vh.Case) {
		tr := backend.NewInProcessTransport()
		dm := lone(rt, "self", tr)
		defer dm.Stop(bg)
		tr.Register(dm)

		ids := []string{"self", "a", "b", "c", ""}[:rapid.IntRange(2, 5).Draw(rt, "ids")]
		model := view(dm)

		for range rapid.IntRange(1, 8).Draw(rt, "reports") {
			report := drawFacts(rt, "report", ids, 6, false)
			for i := range report {
				if rapid.IntRange(0, 15).Draw(rt, "odd") == 0 {
					report[i].State = rapid.SampledFrom([]string{"", "Suspect", "left", "unknown"}).Draw(rt, "oddState")
				}

				old, ok := model[report[i].ID]
				if ok && report[i].Incarnation != old.Incarnation {
					c.NT(true)
				}
			}

			c.Log("report %s", showFacts(report))

			if err := tr.Gossip(bg, "self", report); err != nil {
				rt.Fatalf("Gossip: %v", err)
			}

			checkMerge(rt, c, "self", model, view(dm), report)

			// the node refuting is still a full member: it owns keys
			if !slices.Contains(dm.Ring().Lookup("k"), cluster.NodeID("self")) {
				others := 0

				for _, f := range model {
					if f.State != "dead" {
						others++
					}
				}

				if others <= 2 {
					rt.Fatalf("the node left its own ring: {%s}\n%s", showView(view(dm)), c.Desc())
				}
			}
		}
	})
}

func TestC31_Order(t *testing.T) {
	vh.Run(t, "order", "a member is reported at two incarnations and the receivers hear them in different orders", 3000, func(rt *rapid.T, c *vh.Case) {
		tr := backend.NewInProcessTransport()
		n := rapid.IntRange(2, 4).Draw(rt, "nodes")
		pool := drawFacts(rt, "facts", []string{"a", "b", "c", "d"}, 10, true)

		best := map[string]fact{}
		for _, f := range pool {
			old, ok := best[f.ID]
			if ok && old.Incarnation != f.Incarnation {
				c.NT(true)
			}

			if !ok || f.Incarnation > old.Incarnation {
				best[f.ID] = f
			}
		}

		for i := range n {
			id := fmt.Sprintf("n%d", i)
			dm := lone(rt, id, tr)
			defer dm.Stop(bg)
			tr.Register(dm)

			all := append(slices.Clone(pool), rapid.SliceOfN(rapid.SampledFrom(pool), 0, 5).Draw(rt, "again")...)
			all = rapid.Permutation(all).Draw(rt, "order")
			c.Log("to %s: %s", id, showFacts(all))

			for len(all) > 0 {
				k := rapid.IntRange(1, len(all)).Draw(rt, "size")
				if err := tr.Gossip(bg, id, all[:k]); err != nil {
					rt.Fatalf("Gossip: %v", err)
				}

				all = all[k:]
			}

			got := view(dm)
			delete(got, id)

			if showView(got) != showView(best) {
				rt.Fatalf("%s ended with {%s}, expected {%s}\n%s", id, showView(got), showView(best), c.Desc())
			}
		}
	})
}

func TestC31_HTTP(t *testing.T) {
	vh.Run(t, "http", "a report sent over HTTP changes or accuses a known member", 60, func(rt *rapid.T, c *vh.Case) {
		cl := newHTTPClu(rt, 2, 1, backend.DistHTTPAuth{Token: "tok"}, backend.DistHTTPLimits{})
		defer cl.stop()

		self := cl.id(1)
		dm := cl.nodes[1]
		tr := backend.NewDistHTTPTransportWithAuth(backend.DistHTTPLimits{}, backend.DistHTTPAuth{Token: "tok"},
			func(string) (string, bool) { return "http://" + cl.addr[1], true })
		model := view(dm)

		for range rapid.IntRange(1, 5).Draw(rt, "reports") {
			ids, most := []string{self, "a", "b"}, 5
			if rapid.IntRange(0, 3).Draw(rt, "wide") == 0 { // a big cluster
				for i := range rapid.SampledFrom([]int{20, 70, 300}).Draw(rt, "members") {
					ids = append(ids, fmt.Sprint("m", i))
				}

				most = 2 * len(ids)
			}

			report := drawFacts(rt, "report", ids, most, false)
			c.Log("report %s", showFacts(report))

			for _, f := range report {
				old, ok := model[f.ID]
				c.NT(ok && old.Incarnation != f.Incarnation)
			}

			if err := tr.Gossip(bg, self, report); err != nil {
				rt.Fatalf("Gossip: %v", err)
			}

			checkMerge(rt, c, self, model, view(dm), report)
		}

		// a report without the token is refused and changes nothing
		before := showView(view(dm))
		bad := backend.NewDistHTTPTransportWithAuth(backend.DistHTTPLimits{}, backend.DistHTTPAuth{},
			func(string) (string, bool) { return "http://" + cl.addr[1], true })

		if err := bad.Gossip(bg, self, []fact{{ID: "evil", Address: "x:1", State: "alive", Incarnation: 9}}); err == nil {
			rt.Fatalf("a report without credentials was accepted")
		}

		if after := showView(view(dm)); after != before {
			rt.Fatalf("a refused report changed the view: %s -> %s", before, after)
		}
	})
}

// Reports arriving at the same time, while the node also observes members itself.
func TestC31_Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "several senders report one member at different incarnations", 300, func(rt *rapid.T, c *vh.Case) {
		tr := backend.NewInProcessTransport()
		dm := lone(rt, "self", tr)
		defer dm.Stop(bg)
		tr.Register(dm)

		senders := rapid.IntRange(2, 5).Draw(rt, "senders")
		ids := []string{"a", "b", "self"}
		plans := make([][][]fact, senders)
		best := map[string]fact{}
		worst := uint64(0)
		accused := false

		seenInc := map[string]map[uint64]bool{}

		for s := range plans {
			for range rapid.IntRange(1, 25).Draw(rt, "reports") {
				report := drawFacts(rt, "report", ids, 4, false)
				for i := range report {
					f := &report[i]
					f.Incarnation %= 200
					f.Address = fmt.Sprintf("%s:%d", f.ID, f.Incarnation)
					f.State = []string{"alive", "suspect", "dead"}[f.Incarnation%3]

					if f.ID == "self" {
						if f.State != "alive" && f.Incarnation >= 1 {
							accused = true
							worst = max(worst, f.Incarnation)
						}

						continue
					}

					if seenInc[f.ID] == nil {
						seenInc[f.ID] = map[uint64]bool{}
					}

					seenInc[f.ID][f.Incarnation] = true
					c.NT(len(seenInc[f.ID]) > 1)

					if old, ok := best[f.ID]; !ok || f.Incarnation > old.Incarnation {
						best[f.ID] = *f
					}
				}

				plans[s] = append(plans[s], report)
			}
		}

		var (
			wg    sync.WaitGroup
			start = make(chan struct{})
			stop  = make(chan struct{})
			bad   string
			watch sync.WaitGroup
		)

		watch.Add(1)

		go func() {
			defer watch.Done()

			last := map[string]uint64{}

			for {
				for id, f := range view(dm) {
					if f.Incarnation < last[id] && bad == "" {
						bad = fmt.Sprintf("%s went back from incarnation %d to %d", id, last[id], f.Incarnation)
					}

					last[id] = f.Incarnation
				}

				select {
				case <-stop:
					return
				default:
				}
			}
		}()

		for _, plan := range plans {
			wg.Add(1)

			go func() {
				defer wg.Done()

				<-start

				for _, r := range plan {
					_ = tr.Gossip(bg, "self", r)
				}
			}()
		}

		close(start)
		wg.Wait()
		close(stop)
		watch.Wait()

		if bad != "" {
			rt.Fatalf("%s while reports arrived", bad)
		}

		got := view(dm)
		own := got["self"]
		delete(got, "self")

		if showView(got) != showView(best) {
			rt.Fatalf("ended with {%s}, expected {%s}", showView(got), showView(best))
		}

		if accused && own.Incarnation <= worst || own.State != "alive" || own.Address != "self:1" {
			rt.Fatalf("accused up to incarnation %d, the node says %+v of itself", worst, own)
		}
	})
}

// The gossip loops of a whole cluster.
func TestC31_Loop(t *testing.T) {
	vh.Run(t, "loop", "the nodes start with different views and a live node is accused", 500, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 5).Draw(rt, "nodes")

		type plantAt struct {
			tick, node int
			f          fact
		}

		var plants []plantAt

		ids := []string{"g0", "g1"}
		for i := range n {
			ids = append(ids, fmt.Sprintf("n%d", i), fmt.Sprintf("n%d", i))
		}

		contents := map[string]fact{}

		for range rapid.IntRange(0, 10).Draw(rt, "plants") {
			p := plantAt{tick: rapid.SampledFrom([]int{0, 0, 1, 3, 10}).Draw(rt, "tick"), node: rapid.IntRange(0, n-1).Draw(rt, "at")}
			p.f = drawFacts(rt, "fact", ids, 1, false)[0]
			p.f.Address = p.f.ID + ":1"

			if strings.HasPrefix(p.f.ID, "n") {
				p.f.Incarnation %= 1000
				c.NT(p.f.State != "alive")
			} else {
				k := fmt.Sprintf("%s@%d", p.f.ID, p.f.Incarnation)
				if old, ok := contents[k]; ok {
					p.f = old
				}

				contents[k] = p.f
			}

			plants = append(plants, p)
			c.Log("tick %d, n%d hears %s", p.tick, p.node, showFacts([]fact{p.f}))
		}

		parent := make([]int, n)
		for i := 1; i < n; i++ {
			parent[i] = rapid.IntRange(0, i-1).Draw(rt, "knows")
		}

		flip := rapid.SliceOfN(rapid.Bool(), n, n).Draw(rt, "flip")
		chaosTransport := rapid.Bool().Draw(rt, "wrapped")

		vh.Bubble(t, func() {
			tr := backend.NewInProcessTransport()

			var dtr backend.DistTransport = tr
			if chaosTransport { // not the in-process type: the ordinary transport call is used
				dtr = wrapped{tr}
			}

			var nodes []*backend.DistMemory

			for i := range n {
				dm := lone(rt, fmt.Sprintf("n%d", i), dtr, backend.WithDistGossipInterval(time.Second))
				defer dm.Stop(bg)
				tr.Register(dm)
				nodes = append(nodes, dm)
			}

			for i := 1; i < n; i++ {
				a, b := i, parent[i]
				if flip[i] {
					a, b = b, a
				}

				nodes[a].Membership().Upsert(cluster.NewNode(fmt.Sprintf("n%d", b), fmt.Sprintf("n%d:1", b)))
			}

			time.Sleep(time.Millisecond)

			last := make([]map[string]fact, n)

			for tick := range 250 {
				for _, p := range plants {
					if p.tick == tick {
						_ = tr.Gossip(bg, fmt.Sprintf("n%d", p.node), []fact{p.f})
					}
				}

				for i, dm := range nodes {
					v := view(dm)
					for id, old := range last[i] {
						if v[id].Incarnation < old.Incarnation || v[id].Incarnation == old.Incarnation && v[id] != old {
							rt.Fatalf("tick %d: n%d went from %+v to %+v\n%s", tick, i, old, v[id], c.Desc())
						}
					}

					last[i] = v
				}

				time.Sleep(time.Second)
			}

			want := map[string]fact{}
			for _, dm := range nodes { // each live node's own word
				id := string(dm.LocalNodeID())
				want[id] = view(dm)[id]
			}

			for _, p := range plants {
				if old, ok := want[p.f.ID]; !ok || strings.HasPrefix(p.f.ID, "g") && p.f.Incarnation > old.Incarnation {
					want[p.f.ID] = p.f
				}
			}

			for i, dm := range nodes {
				got := view(dm)
				if len(got) != len(want) {
					rt.Fatalf("n%d knows {%s}, expected the members {%s}\n%s", i, showView(got), showView(want), c.Desc())
				}

				for id, f := range want {
					g := got[id]
					if strings.HasPrefix(id, "n") {
						// a node may be reported alive at an incarnation above its own
						if g.State != "alive" || g.Incarnation < f.Incarnation || g.Address != f.Address {
							rt.Fatalf("n%d still holds %+v for the live node %s (%+v)\n%s", i, g, id, f, c.Desc())
						}

						continue
					}

					if g != f {
						rt.Fatalf("n%d holds %+v, expected %+v\n%s", i, g, f, c.Desc())
					}
				}
			}

			// all but the node itself agree on it
			for id := range want {
				var ref *fact

				for i, dm := range nodes {
					if fmt.Sprintf("n%d", i) == id {
						continue
					}

					f := view(dm)[id]
					if ref != nil && *ref != f {
						rt.Fatalf("nodes disagree on %s: %+v and %+v\n%s", id, *ref, f, c.Desc())
					}

					ref = &f
				}
			}
		})
	})
}

// wrapped hides the concrete transport type.
type wrapped struct{ backend.DistTransport }
