package dist_test

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

// ---- C36: failure detector ----

// segment: from `at` on, the target behaves like mode.
type segment struct {
	at   time.Duration
	mode string // up, slow, refuse, hang
}

type timeline []segment

func (l timeline) mode(t time.Duration) string {
	m := "up"
	for _, s := range l {
		if s.at <= t {
			m = s.mode
		}
	}

	return m
}

func answers36(mode string) bool { return mode == "up" || mode == "slow" }

// steady since: the time from which the behaviour (answers or not) is what it
// is at t.
func (l timeline) since(t time.Duration) time.Duration {
	at, cur := time.Duration(0), true

	for _, s := range l {
		if s.at > t {
			break
		}

		if answers36(s.mode) != cur {
			cur = answers36(s.mode)
			at = s.at
		}
	}

	return at
}

// probed is a transport whose probes behave as the timelines say.
type probed struct {
	backend.DistTransport
	mu     sync.Mutex
	start  time.Time
	direct map[string]timeline            // target -> behaviour seen by the observer
	relay  map[string]map[string]timeline // relay -> target -> behaviour seen through the relay
	slow   time.Duration
	last   map[string]time.Time // last answered probe of a target
	probes map[string]int
	asked  map[time.Time][]string // whom at which moment
	state  func(id string) string // what the observer holds of a member
	bad    string
}

func (p *probed) play(ctx context.Context, mode string) error {
	switch mode {
	case "up":
		return nil
	case "slow":
		select {
		case <-time.After(p.slow):
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	case "refuse":
		return errors.New("refused")
	default:
		<-ctx.Done()

		return ctx.Err()
	}
}

func (p *probed) Health(ctx context.Context, id string) error {
	p.mu.Lock()
	p.probes[id]++
	p.asked[time.Now()] = append(p.asked[time.Now()], id)
	mode := p.direct[id].mode(time.Since(p.start))
	p.mu.Unlock()

	err := p.play(ctx, mode)
	if err == nil {
		p.mu.Lock()
		p.last[id] = time.Now()
		p.mu.Unlock()
	}

	return err
}

func (p *probed) IndirectHealth(ctx context.Context, relay, target string) error {
	t := time.Since(p.start)
	if relay == target {
		return errors.New("a target was asked about itself")
	}

	if st := p.state(relay); st != "alive" {
		p.mu.Lock()
		p.bad = fmt.Sprintf("%s, held as %q, was asked to relay to %s", relay, st, target)
		p.mu.Unlock()
	}

	if m := p.direct[relay].mode(t); !answers36(m) {
		return p.play(ctx, m)
	}

	err := p.play(ctx, p.relay[relay][target].mode(t))
	if err == nil {
		p.mu.Lock()
		p.last[target] = time.Now()
		p.mu.Unlock()
	}

	return err
}

func drawTimeline(rt *rapid.T, label string, total time.Duration, modes []string) timeline {
	n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(rt, label+"changes")

	var l timeline
	for range n {
		l = append(l, segment{
			at:   time.Duration(rapid.IntRange(0, int(total/time.Millisecond/2)).Draw(rt, label+"at")) * time.Millisecond,
			mode: rapid.SampledFrom(modes).Draw(rt, label+"mode"),
		})
	}

	slices.SortStableFunc(l, func(a, b segment) int { return int(a.at - b.at) })

	return l
}

func TestC36_Observer(t *testing.T) {
	vh.Run(t, "observer", "some member stops answering or answers again", 1200, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 6).Draw(rt, "peers")
		iv := rapid.SampledFrom([]time.Duration{200 * time.Millisecond, time.Second, 3 * time.Second}).Draw(rt, "interval")
		suspectAfter := time.Duration(rapid.IntRange(0, 6).Draw(rt, "suspect")) * iv / 2
		deadAfter := suspectAfter + time.Duration(rapid.IntRange(1, 8).Draw(rt, "dead"))*iv/2
		k := rapid.IntRange(0, 3).Draw(rt, "relays")
		sample := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "sample")
		ito := rapid.SampledFrom([]time.Duration{0, iv / 4, iv / 2}).Draw(rt, "relayTimeout")

		if rapid.IntRange(0, 9).Draw(rt, "noDead") == 0 {
			deadAfter = 0
		}

		rounds := 60
		total := time.Duration(rounds) * iv

		modes := []string{"up", "slow", "refuse", "refuse", "hang"}
		ids := make([]string, n)
		direct := map[string]timeline{}
		relay := map[string]map[string]timeline{}

		for i := range n {
			ids[i] = fmt.Sprintf("p%d", i)
			direct[ids[i]] = drawTimeline(rt, ids[i], total, modes)
			relay[ids[i]] = map[string]timeline{}
			c.Log("%s %v", ids[i], direct[ids[i]])
			c.NT(len(direct[ids[i]]) > 0)
		}

		same := rapid.Bool().Draw(rt, "sameThroughRelays")
		for _, r := range ids {
			for _, target := range ids {
				relay[r][target] = direct[target]
				if !same && r != target && rapid.IntRange(0, 2).Draw(rt, "own") == 0 {
					relay[r][target] = drawTimeline(rt, r+target, total, []string{"up", "refuse", "hang"})
					c.Log("%s->%s %v", r, target, relay[r][target])
				}
			}
		}

		c.Log("interval %v suspect %v dead %v sample %d relays %d timeout %v", iv, suspectAfter, deadAfter, sample, k, ito)

		// the longest a round can take
		if ito == 0 {
			ito = iv / 2
		}

		round := time.Duration(n)*(iv/2+time.Duration(k)*ito) + iv
		slack := 2*round + iv

		vh.Bubble(t, func() {
			tr := &probed{DistTransport: backend.NewInProcessTransport(), start: time.Now(), direct: direct, relay: relay,
				slow: iv/2 - time.Millisecond, last: map[string]time.Time{}, probes: map[string]int{}, asked: map[time.Time][]string{}}

			var opts []backend.DistMemoryOption
			opts = append(opts, backend.WithDistHeartbeat(iv, suspectAfter, deadAfter), backend.WithDistHeartbeatSample(sample))

			if k > 0 {
				opts = append(opts, backend.WithDistIndirectProbes(k, ito))
			}

			dm := lone(rt, "self", tr, opts...)
			defer dm.Stop(bg)

			tr.state = func(id string) string { return view(dm)[id].State }

			for _, id := range ids {
				dm.Membership().Upsert(cluster.NewNode(id, id+":1"))
			}

			gone := map[string]bool{}
			was := map[string]string{}

			for step := 0; time.Since(tr.start) < total+2*slack+deadAfter; step++ {
				time.Sleep(iv / 4)
				time.Sleep(time.Microsecond)

				now := time.Since(tr.start)
				v := view(dm)

				if s := v["self"]; s.State != "alive" {
					rt.Fatalf("%v: the node lists itself as %+v\n%s", now, s, c.Desc())
				}

				for _, id := range ids {
					f, listed := v[id]
					l := direct[id]

					relayed := k > 0
					some := false // some relay path answered recently

					for _, r := range ids {
						if r == id {
							continue
						}

						ok := len(relay[r][id]) == 0 && len(direct[r]) == 0
						relayed = relayed && ok
						some = some || !ok && k > 0
					}

					relayed = relayed && n > 1

					always := len(l) == 0 || !slices.ContainsFunc(l, func(s segment) bool { return s.at <= now && !answers36(s.mode) }) || relayed

					if listed && gone[id] {
						rt.Fatalf("%v: %s is back without anyone telling\n%s", now, id, c.Desc())
					}

					if always && (!listed || f.State != "alive") {
						rt.Fatalf("%v: %s always answers but is %q (listed %v)\n%s", now, id, f.State, listed, c.Desc())
					}

					if listed && f.State == "dead" {
						rt.Fatalf("%v: %s is listed as dead\n%s", now, id, c.Desc())
					}

					if !listed && !gone[id] {
						gone[id] = true
						c.Label("removed")

						if deadAfter == 0 {
							rt.Fatalf("%v: %s was removed although removal is off\n%s", now, id, c.Desc())
						}

						tr.mu.Lock()
						at, ok := tr.last[id]
						tr.mu.Unlock()

						if !ok {
							at = tr.start
						}
						// not before it went unanswered for the configured time
						if silent := time.Since(at); silent < deadAfter {
							rt.Fatalf("%v: %s removed %v after it last answered (%v configured)\n%s", now, id, silent, deadAfter, c.Desc())
						}

						// being removed, it was suspect just before, unless the whole story fits between two observations
						if was[id] == "alive" && round < iv/4 {
							rt.Fatalf("%v: %s went from alive to removed\n%s", now, id, c.Desc())
						}
					}

					was[id] = f.State

					since := l.since(now)
					up := answers36(l.mode(now))
					silentAll := !up && (k == 0 || same || n == 1)

					if sample == 0 && !gone[id] {
						if silentAll && now-since > slack && f.State != "suspect" {
							rt.Fatalf("%v: %s has not answered since %v and is %q\n%s", now, id, since, f.State, c.Desc())
						}

						if silentAll && deadAfter > 0 && now-since > deadAfter+slack {
							rt.Fatalf("%v: %s has not answered since %v and is still a member\n%s", now, id, since, c.Desc())
						}

						if up && now-since > slack {
							c.LabelIf(since > 0, "recovered")

							if f.State != "alive" {
								rt.Fatalf("%v: %s answers again since %v and is %q\n%s", now, id, since, f.State, c.Desc())
							}
						}
					}
				}

				for _, key := range []string{"a", "b", "c"} {
					for _, o := range dm.DebugOwners(key) {
						if gone[string(o)] {
							rt.Fatalf("%v: %s was removed and owns %q\n%s", now, o, key, c.Desc())
						}
					}

					if want := min(2, len(v)); len(dm.DebugOwners(key)) != want {
						rt.Fatalf("%v: %q has owners %v with %d members\n%s", now, key, dm.DebugOwners(key), len(v), c.Desc())
					}
				}
			}

			// Even when sampling, everybody gets a turn in the end: with at most
			// three members each round asks a given one with probability 1/3 or
			// more, so 50 rounds without a turn have probability below 2e-9.
			if end := time.Since(tr.start); sample > 0 && n <= 2 {
				v := view(dm)

				for _, id := range ids {
					l := direct[id]
					if end-l.since(end) < 50*iv+slack {
						continue
					}

					f, listed := v[id]
					up := answers36(l.mode(end))

					if up && listed && f.State != "alive" {
						rt.Fatalf("%s answers since %v and is %q\n%s", id, l.since(end), f.State, c.Desc())
					}

					if !up && (k == 0 || same || n == 1) && listed && f.State == "alive" {
						rt.Fatalf("%s is silent since %v and is %q\n%s", id, l.since(end), f.State, c.Desc())
					}
				}
			}

			// With probes answered or refused at once, what is asked at one moment
			// is one round: as many as the sample says, or all.
			instant := k == 0 && !slices.ContainsFunc(ids, func(id string) bool {
				return slices.ContainsFunc(direct[id], func(s segment) bool { return s.mode == "slow" || s.mode == "hang" })
			})

			if instant && len(gone) == 0 {
				most := 0

				for at, who := range tr.asked {
					most = max(most, len(who))

					slices.Sort(who)

					if len(slices.Compact(slices.Clone(who))) != len(who) || sample == 0 && len(who) != n || sample > 0 && len(who) > sample {
						rt.Fatalf("round at %v asks %v of %d peers, sample %d\n%s", at.Sub(tr.start), who, n, sample, c.Desc())
					}
				}

				// The node draws itself in some rounds, but not in all of over 60.
				if sample > 0 && most != min(sample, n) {
					rt.Fatalf("no round asks more than %d of %d peers, sample %d\n%s", most, n, sample, c.Desc())
				}
			}

			if tr.bad != "" {
				rt.Fatalf("%s\n%s", tr.bad, c.Desc())
			}

			if m := dm.Metrics(); int(m.NodesRemoved) != len(gone) {
				rt.Fatalf("%d members were removed, the metric says %d\n%s", len(gone), m.NodesRemoved, c.Desc())
			}
		})
	})
}

// A whole cluster with its own views, heartbeats and gossip.
func TestC36_Cluster(t *testing.T) {
	vh.Run(t, "cluster", "a node crashes", 300, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 5).Draw(rt, "nodes")
		iv := time.Second
		suspectAfter := time.Duration(rapid.IntRange(1, 4).Draw(rt, "suspect")) * iv
		deadAfter := suspectAfter + time.Duration(rapid.IntRange(1, 5).Draw(rt, "dead"))*iv
		gossip := rapid.SampledFrom([]time.Duration{0, 250 * time.Millisecond, time.Second, 1300 * time.Millisecond}).Draw(rt, "gossip")
		k := rapid.IntRange(0, 2).Draw(rt, "relays")
		victim := rapid.SampledFrom([]int{-1, 0, 1, 1}).Draw(rt, "victim")
		crashAt := rapid.IntRange(1, 20).Draw(rt, "crashAt")
		back := rapid.SampledFrom([]int{0, 0, 1, 3, 8, 20, 60}).Draw(rt, "back") // seconds later; 0: never
		offsets := rapid.SliceOfN(rapid.IntRange(0, 999), n, n).Draw(rt, "offsets")

		var cut [][2]int
		if k > 0 && n > 2 && rapid.Bool().Draw(rt, "cut") {
			a := rapid.IntRange(0, n-1).Draw(rt, "from")
			b := rapid.IntRange(0, n-1).Draw(rt, "to")

			if a != b {
				cut = append(cut, [2]int{a, b})
			}
		}

		c.Log("%d nodes suspect %v dead %v gossip %v relays %d victim n%d at %ds back after %ds cut %v", n, suspectAfter, deadAfter, gossip, k, victim, crashAt, back, cut)
		c.NT(victim >= 0)

		vh.Bubble(t, func() {
			nodes := make([]*backend.DistMemory, n)
			trs := make([]*backend.InProcessTransport, n)

			for i := range n {
				trs[i] = backend.NewInProcessTransport()
			}

			start := func(i int) {
				opts := []backend.DistMemoryOption{backend.WithDistHeartbeat(iv, suspectAfter, deadAfter)}
				if gossip > 0 {
					opts = append(opts, backend.WithDistGossipInterval(gossip))
				}

				if k > 0 {
					opts = append(opts, backend.WithDistIndirectProbes(k, iv/4))
				}

				nodes[i] = lone(rt, fmt.Sprintf("n%d", i), trs[i], opts...)
				for j := range n {
					if j != i {
						nodes[i].Membership().Upsert(cluster.NewNode(fmt.Sprintf("n%d", j), fmt.Sprintf("n%d:1", j)))
					}

					if !slices.Contains(cut, [2]int{j, i}) {
						trs[j].Register(nodes[i])
					}
				}
			}

			for i := range n {
				time.Sleep(time.Duration(offsets[i]) * time.Millisecond)
				start(i)
			}

			for i := range n { // the early ones may have missed the late ones
				for j := range n {
					if j != i {
						nodes[i].Membership().Upsert(cluster.NewNode(fmt.Sprintf("n%d", j), fmt.Sprintf("n%d:1", j)))
					}
				}
			}

			defer func() {
				for _, dm := range nodes {
					if dm != nil {
						_ = dm.Stop(bg)
					}
				}
			}()

			down, crashed, returned := false, time.Time{}, time.Time{}
			// probes are refused at once here, so a round takes no time
			slack := 3 * iv

			for s := range crashAt + 150 {
				if s == crashAt && victim >= 0 {
					for j := range n {
						trs[j].Unregister(fmt.Sprintf("n%d", victim))
					}

					_ = nodes[victim].Stop(bg)
					nodes[victim] = nil
					down, crashed = true, time.Now()
				}

				if down && back > 0 && s == crashAt+back {
					start(victim)

					down, returned = false, time.Now()
				}

				time.Sleep(iv + time.Microsecond)

				for i, dm := range nodes {
					if dm == nil {
						continue
					}

					v := view(dm)

					for j := range n {
						id := fmt.Sprintf("n%d", j)
						f, listed := v[id]

						switch {
						case j != victim || crashed.IsZero():
							if slices.Contains(cut, [2]int{i, j}) && victim >= 0 { // the victim may be a relay it needs
								continue
							}

							if !listed || f.State != "alive" && gossip == 0 {
								rt.Fatalf("second %d: n%d holds %s %q (listed %v)\n%s", s, i, id, f.State, listed, c.Desc())
							}
						case down:
							silent := time.Since(crashed)
							if silent > slack && listed && f.State == "alive" {
								rt.Fatalf("second %d: %v after the crash n%d holds %s as %+v\n%s", s, silent, i, id, f, c.Desc())
							}

							if silent > deadAfter+40*iv && listed {
								rt.Fatalf("second %d: %v after the crash n%d still holds %s as %+v\n%s", s, silent, i, id, f, c.Desc())
							}

							if silent > deadAfter+2*slack {
								c.Label("removed")

								for _, key := range []string{"a", "b", "c", "d"} {
									if slices.Contains(dm.DebugOwners(key), cluster.NodeID(id)) {
										rt.Fatalf("second %d: n%d gives %q to the removed %s\n%s", s, i, key, id, c.Desc())
									}
								}
							}
						default:
							c.Label("returned")
							// without gossip those that removed it have no way to learn of it
							if (gossip > 0 || time.Duration(back)*iv < deadAfter-iv) && time.Since(returned) > 2*deadAfter+30*iv {
								if slices.Contains(cut, [2]int{i, j}) {
									continue
								}

								if !listed || f.State != "alive" {
									rt.Fatalf("second %d: n%d holds the returned %s as %+v (listed %v)\n%s", s, i, id, f, listed, c.Desc())
								}
							}
						}
					}
				}
			}
		})
	})
}
