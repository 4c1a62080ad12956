package cluster_test

import (
	"fmt"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
)

type mrec struct {
	addr  string
	state cluster.NodeState
	inc   uint64
}

type mevent struct {
	id    cluster.NodeID
	state cluster.NodeState
	ver   uint64
}

var states = []cluster.NodeState{cluster.NodeAlive, cluster.NodeSuspect, cluster.NodeDead}

func ringMatches(m *cluster.Membership, rep, vn int, keys []string) error {
	ref := newRing(rep, vn)

	live := []*cluster.Node{}

	for _, n := range m.List() {
		if n.State != cluster.NodeDead {
			live = append(live, n)
		}
	}

	ref.Build(live)

	for _, k := range keys {
		if a, b := m.Ring().Lookup(k), ref.Lookup(k); !slices.Equal(a, b) {
			return fmt.Errorf("key %q: the ring says owners %q, the member list %q gives %q", k, a, ids(live), b)
		}
	}

	return nil
}

func showMembers(l []*cluster.Node) string {
	out := []string{}
	for _, n := range l {
		out = append(out, fmt.Sprintf("%s@%s/%v/%d", n.ID, n.Address, n.State, n.Incarnation))
	}

	slices.Sort(out)

	return strings.Join(out, " ")
}

func TestC02Sequential(t *testing.T) {
	vh.Run(t, "sequential-model", "random Upsert/Remove/Mark/Refute sequences over up to 6 ids (now and then hundreds), compared after every step with a map model, a ring rebuilt from the listed members, the observer stream and earlier snapshots; non-trivial: >=8 steps, a member dies (by mark or upsert) and something happens to a dead or removed member later", 500, func(rt *rapid.T, c *vh.Case) {
		rep := rapid.IntRange(1, 4).Draw(rt, "rep")
		vn := rapid.SampledFrom([]int{1, 4, 16}).Draw(rt, "vn")
		r := newRing(rep, vn)
		m := cluster.NewMembership(r)
		model := map[cluster.NodeID]*mrec{}
		keys := []string{"a", "b", "c", "d", "e", "f", "g", "h"}
		nObs := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 3), rapid.IntRange(0, 20)).Draw(rt, "obs")
		spread := 5 // ids in play

		// now and then a big cluster to start with
		bulk := 0
		if rapid.IntRange(0, 19).Draw(rt, "big") == 0 {
			bulk = rapid.SampledFrom([]int{20, 40, 70, 140, 300}).Draw(rt, "bulk")
			spread = bulk + 5
		}
		events := make([][]mevent, nObs)

		var calls []int

		for i := range nObs {
			m.OnStateChange(func(id cluster.NodeID, s cluster.NodeState, v uint64) {
				events[i] = append(events[i], mevent{id, s, v})
				calls = append(calls, i)
			})
		}

		var wantEvents []mevent

		for i := range bulk {
			id, addr := cluster.NodeID(fmt.Sprintf("n%d", i)), fmt.Sprintf("h%d:1", i)
			m.Upsert(&cluster.Node{ID: id, Address: addr})

			model[id] = &mrec{addr: addr}
			wantEvents = append(wantEvents, mevent{id, cluster.NodeAlive, m.Version()})
		}

		ver := m.Version()
		changes := uint64(bulk)
		diedThenTouched := false
		everDead := map[cluster.NodeID]bool{}

		type snap struct {
			l []*cluster.Node
			s string
		}

		var snaps []snap

		steps := rapid.IntRange(1, 30).Draw(rt, "steps")
		c.Log("rep=%d vn=%d", rep, vn)

		for range steps {
			id := cluster.NodeID(fmt.Sprintf("n%d", rapid.IntRange(0, spread).Draw(rt, "id")))
			rec := model[id]

			if everDead[id] {
				diedThenTouched = true
			}

			changed, evState := false, cluster.NodeAlive

			switch op := rapid.SampledFrom([]string{"upsert", "upsert", "remove", "mark", "mark", "refute", "list", "merge", "merge", "claim"}).Draw(rt, "op"); op {
			case "upsert":
				st := rapid.SampledFrom(states).Draw(rt, "st")
				inc := rapid.Uint64Range(0, 9).Draw(rt, "inc")
				addr := fmt.Sprintf("h%d:1", rapid.IntRange(0, 9).Draw(rt, "addr"))
				m.Upsert(&cluster.Node{ID: id, Address: addr, State: st, Incarnation: inc})
				model[id] = &mrec{addr, st, inc}
				changed, evState = true, st
				everDead[id] = st == cluster.NodeDead
				c.Log("upsert %s %s %v %d", id, addr, st, inc)
			case "remove":
				ok := m.Remove(id)
				if ok != (rec != nil) {
					rt.Fatalf("Remove(%s)=%v, member known: %v", id, ok, rec != nil)
				}

				delete(model, id)

				changed, evState = rec != nil, cluster.NodeDead
				everDead[id] = everDead[id] || rec != nil
				c.Log("remove %s", id)
			case "mark":
				st := rapid.SampledFrom(states).Draw(rt, "st")
				ok := m.Mark(id, st)

				if ok != (rec != nil) {
					rt.Fatalf("Mark(%s)=%v, member known: %v", id, ok, rec != nil)
				}

				if rec != nil && rec.state != st {
					rec.state = st
					rec.inc++

					changed, evState = true, st
				}

				if rec != nil {
					everDead[id] = everDead[id] || st == cluster.NodeDead
				}

				c.Log("mark %s %v", id, st)
			case "refute":
				ok := m.Refute(id)
				if ok != (rec != nil) {
					rt.Fatalf("Refute(%s)=%v, member known: %v", id, ok, rec != nil)
				}

				if rec != nil {
					rec.state = cluster.NodeAlive
					rec.inc++

					changed = true
				}

				c.Log("refute %s", id)
			case "merge": // gossip: only news counts
				st := rapid.SampledFrom(states).Draw(rt, "st")
				inc := rapid.Uint64Range(0, 9).Draw(rt, "inc")
				addr := fmt.Sprintf("h%d:1", rapid.IntRange(0, 9).Draw(rt, "addr"))
				news := rec == nil || inc > rec.inc

				if got := m.Merge(&cluster.Node{ID: id, Address: addr, State: st, Incarnation: inc}); got != news {
					rt.Fatalf("Merge(%s at %d)=%v, held: %+v", id, inc, got, rec)
				}

				if news {
					model[id] = &mrec{addr, st, inc}
					changed, evState = true, st
					everDead[id] = st == cluster.NodeDead
				}

				c.Log("merge %s %s %v %d", id, addr, st, inc)
			case "claim": // an accusation at or above the own incarnation is outbid
				claim := rapid.Uint64Range(0, 12).Draw(rt, "claim")
				refuted := rec != nil && claim >= rec.inc

				if got := m.RefuteClaim(id, claim); got != refuted {
					rt.Fatalf("RefuteClaim(%s, %d)=%v, held: %+v", id, claim, got, rec)
				}

				if refuted {
					rec.state, rec.inc = cluster.NodeAlive, claim+1
					changed = true
				}

				c.Log("claim %s %d", id, claim)
			default:
				l := m.List()
				snaps = append(snaps, snap{l, showMembers(l)})

				c.Log("list")
			}

			nv := m.Version()
			if changed {
				changes++

				if nv <= ver {
					rt.Fatalf("version went from %d to %d over a change", ver, nv)
				}

				wantEvents = append(wantEvents, mevent{id, evState, nv})
			} else if nv != ver {
				rt.Fatalf("version went from %d to %d although nothing changed", ver, nv)
			}

			ver = nv

			got := m.List()
			if len(got) != len(model) {
				rt.Fatalf("listed %s, model has %d members", showMembers(got), len(model))
			}

			for _, n := range got {
				w := model[n.ID]
				if w == nil {
					rt.Fatalf("listed %s which is not a member", n.ID)
				}

				if n.Address != w.addr || n.State != w.state || n.Incarnation != w.inc {
					rt.Fatalf("member %s is %s/%v/%d, expected %s/%v/%d", n.ID, n.Address, n.State, n.Incarnation, w.addr, w.state, w.inc)
				}
			}

			if err := ringMatches(m, rep, vn, keys); err != nil {
				rt.Fatalf("%v", err)
			}
		}

		for i := range nObs {
			if !slices.Equal(events[i], wantEvents) {
				rt.Fatalf("observer %d saw %v, expected %v", i, events[i], wantEvents)
			}
		}

		for i, o := range calls {
			if o != i%nObs {
				rt.Fatalf("observers were called in the order %v, registered 0..%d", calls, nObs-1)
			}
		}

		for _, s := range snaps {
			if now := showMembers(s.l); now != s.s {
				rt.Fatalf("a snapshot read %q when taken and %q later", s.s, now)
			}
		}

		// callers may do what they like with a snapshot
		for _, n := range m.List() {
			n.State, n.Address, n.Incarnation = cluster.NodeDead, "evil", 99
		}

		for _, n := range m.List() {
			if w := model[n.ID]; n.Address != w.addr || n.State != w.state || n.Incarnation != w.inc {
				rt.Fatalf("writing to a returned snapshot changed member %s", n.ID)
			}
		}

		c.NT(steps >= 8 && diedThenTouched)
		c.LabelIf(len(snaps) > 0, "snapshots compared later")
	})
}

// LastSeen is refreshed by every update and mark.
func TestC02LastSeen(t *testing.T) {
	vh.Run(t, "last-seen", "random joins and marks; the member's last-seen time is never older than its last update; non-trivial: a mark to the same state", 200, func(rt *rapid.T, c *vh.Case) {
		m := cluster.NewMembership(newRing(1, 4))
		m.Upsert(&cluster.Node{ID: "a", Address: "h:1"})

		same := false
		cur := cluster.NodeAlive

		for range rapid.IntRange(1, 10).Draw(rt, "n") {
			st := rapid.SampledFrom(states).Draw(rt, "st")
			before := time.Now()

			if rapid.Bool().Draw(rt, "refute") {
				m.Refute("a")

				cur = cluster.NodeAlive

				c.Log("refute")
			} else {
				m.Mark("a", st)

				same = same || st == cur
				cur = st

				c.Log("mark %v", st)
			}

			if l := m.List()[0]; l.LastSeen.Before(before) {
				rt.Fatalf("last seen %v is older than the update at %v", l.LastSeen, before)
			}
		}

		c.NT(same)
	})
}

// Concurrent mutations leave list, ring and version consistent.
func TestC02Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "2..6 goroutines run generated operation lists, on their own members and on shared ones, while readers watch the version; afterwards each private member has its last state, the version equals the number of changes seen by the observer and the ring equals one rebuilt from the list; non-trivial: >=2 writers with >=4 operations", 250, func(rt *rapid.T, c *vh.Case) {
		rep := rapid.IntRange(1, 3).Draw(rt, "rep")
		vn := rapid.SampledFrom([]int{1, 8, 64}).Draw(rt, "vn")
		m := cluster.NewMembership(newRing(rep, vn))

		var (
			evMu sync.Mutex
			evs  = map[uint64]int{}
		)

		m.OnStateChange(func(_ cluster.NodeID, _ cluster.NodeState, v uint64) {
			evMu.Lock()
			evs[v]++
			evMu.Unlock()
		})

		type op struct {
			kind string
			id   cluster.NodeID
			st   cluster.NodeState
		}

		w := rapid.IntRange(2, 6).Draw(rt, "writers")
		plans := make([][]op, w)
		last := map[cluster.NodeID]*cluster.NodeState{}
		total := 0

		for i := range w {
			for range rapid.IntRange(2, 25).Draw(rt, "len") {
				o := op{kind: rapid.SampledFrom([]string{"upsert", "upsert", "remove", "mark", "refute"}).Draw(rt, "kind"), st: rapid.SampledFrom(states).Draw(rt, "st")}
				private := rapid.IntRange(0, 3).Draw(rt, "private") > 0

				if private {
					o.id = cluster.NodeID(fmt.Sprintf("w%d-%d", i, rapid.IntRange(0, 2).Draw(rt, "pid")))
					cur := last[o.id]

					switch o.kind {
					case "upsert":
						s := o.st
						last[o.id] = &s
					case "remove":
						last[o.id] = nil
					case "mark":
						if cur != nil {
							s := o.st
							last[o.id] = &s
						}
					case "refute":
						if cur != nil {
							s := cluster.NodeAlive
							last[o.id] = &s
						}
					}
				} else {
					o.id = cluster.NodeID(fmt.Sprintf("s%d", rapid.IntRange(0, 2).Draw(rt, "sid")))
				}

				plans[i] = append(plans[i], o)
				total++
			}

			c.Log("w%d=%v", i, plans[i])
		}

		stop := make(chan struct{})

		var readers, writers sync.WaitGroup

		var readErr error

		readers.Go(func() {
			prev := uint64(0)

			for {
				select {
				case <-stop:
					return
				default:
				}

				if v := m.Version(); v < prev {
					readErr = fmt.Errorf("version went back from %d to %d", prev, v)

					return
				} else {
					prev = v
				}

				m.List()
				m.Ring().Lookup("x")
			}
		})

		start := make(chan struct{})

		for i := range w {
			writers.Go(func() {
				<-start

				for _, o := range plans[i] {
					switch o.kind {
					case "upsert":
						m.Upsert(&cluster.Node{ID: o.id, Address: "h:1", State: o.st, Incarnation: 1})
					case "remove":
						m.Remove(o.id)
					case "mark":
						m.Mark(o.id, o.st)
					case "refute":
						m.Refute(o.id)
					}
				}
			})
		}

		close(start)
		writers.Wait()
		close(stop)
		readers.Wait()

		if readErr != nil {
			rt.Fatalf("%v", readErr)
		}

		listed := map[cluster.NodeID]cluster.NodeState{}
		for _, n := range m.List() {
			listed[n.ID] = n.State
		}

		for id, st := range last {
			got, ok := listed[id]
			if st == nil && ok || st != nil && (!ok || got != *st) {
				rt.Fatalf("member %s: listed %v (%v), its only writer left it %v", id, ok, got, st)
			}
		}

		evMu.Lock()
		defer evMu.Unlock()

		for v, n := range evs {
			if n != 1 {
				rt.Fatalf("version %d was reported for %d changes", v, n)
			}
		}

		if uint64(len(evs)) != m.Version() {
			rt.Fatalf("version is %d after %d changes", m.Version(), len(evs))
		}

		if err := ringMatches(m, rep, vn, []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}); err != nil {
			rt.Fatalf("after concurrent changes: %v", err)
		}

		c.NT(w >= 2 && total >= 8)
	})
}
