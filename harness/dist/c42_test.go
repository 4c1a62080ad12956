package dist_test

import (
	"context"
	"errors"
	"fmt"
	"math"
	"slices"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// ---- C42: fault injection ----

// reached counts the calls that got through the fault injection. Deletes with
// their versions take a way past it, so they are judged by their effects.
type reached struct {
	*backend.InProcessTransport

	mu sync.Mutex
	n  int64
	at []time.Time
}

func (r *reached) hit() {
	r.mu.Lock()
	defer r.mu.Unlock()

	r.n++
	r.at = append(r.at, time.Now())
}

func (r *reached) count() int64 {
	r.mu.Lock()
	defer r.mu.Unlock()

	return r.n
}

func (r *reached) ForwardSet(ctx context.Context, id string, item *cache.Item, replicate bool) error {
	r.hit()

	return r.InProcessTransport.ForwardSet(ctx, id, item, replicate)
}

func (r *reached) ForwardGet(ctx context.Context, id, key string) (*cache.Item, bool, error) {
	r.hit()

	return r.InProcessTransport.ForwardGet(ctx, id, key)
}

func (r *reached) ForwardRemove(ctx context.Context, id, key string, replicate bool) error {
	r.hit()

	return r.InProcessTransport.ForwardRemove(ctx, id, key, replicate)
}

func (r *reached) Health(ctx context.Context, id string) error {
	r.hit()

	return r.InProcessTransport.Health(ctx, id)
}

func (r *reached) IndirectHealth(ctx context.Context, relay, target string) error {
	r.hit()

	return r.InProcessTransport.IndirectHealth(ctx, relay, target)
}

func (r *reached) Gossip(ctx context.Context, id string, ms []backend.GossipMember) error {
	r.hit()

	return r.InProcessTransport.Gossip(ctx, id, ms)
}

func (r *reached) ListKeys(ctx context.Context, id, pattern string) ([]string, error) {
	r.hit()

	return r.InProcessTransport.ListKeys(ctx, id, pattern)
}

func (r *reached) FetchMerkle(ctx context.Context, id string) (*backend.MerkleTree, error) {
	r.hit()

	return r.InProcessTransport.FetchMerkle(ctx, id)
}

// A cluster under fault injection behaves like one whose calls fail: all of
// them at rate one, none at rate zero, and each exactly as often as reported.
func TestC42(t *testing.T) {
	vh.Run(t, "chaos", "2-4 nodes, replication 1-3, one of them under fault injection given before or after its transport or with the transport replaced later, 6-25 steps of writes, reads, removes, listings, syncs and changes of drop rate (0, 1, in between and out of range) and latency, in virtual time, beside an identical cluster without it; at rate zero both clusters answer and hold the same, at rate one nothing leaves the node, calls fail with the named error and each is counted, and latency is taken exactly as often as counted; non-trivial: steps at both rates, calls dropped and delayed", 300, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { chaos42(rt, c) })
	})
}

func chaos42(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(2, 4).Draw(rt, "nodes")
	rf := rapid.IntRange(1, 3).Draw(rt, "rf")
	rl, wl := levels().Draw(rt, "read"), levels().Draw(rt, "write")
	how := rapid.SampledFrom([]string{"chaos first", "transport first", "transport replaced"}).Draw(rt, "how")
	chaos := backend.NewChaos()
	base := []backend.DistMemoryOption{backend.WithDistReadConsistency(rl), backend.WithDistWriteConsistency(wl), backend.WithDistShardCount(2)}

	plain := newClu(rt, n, rf, base...)
	defer plain.stop()

	// the same cluster, with node 0 under fault injection
	cl := &clu{ring: cluster.NewRing(cluster.WithReplication(rf)), down: map[[2]int]bool{}}
	cl.ms = cluster.NewMembership(cl.ring)

	gate := &reached{InProcessTransport: backend.NewInProcessTransport()}
	opts := slices.Clone(base)
	opts = append(opts, backend.WithDistMembership(cl.ms, cluster.NewNode("n0", "n0:0")))

	switch how {
	case "chaos first":
		opts = append(opts, backend.WithDistChaos(chaos), backend.WithDistTransport(gate))
	case "transport first":
		opts = append(opts, backend.WithDistTransport(gate), backend.WithDistChaos(chaos))
	default:
		opts = append(opts, backend.WithDistChaos(chaos), backend.WithDistTransport(backend.NewInProcessTransport()))
	}

	b, err := backend.NewDistMemory(bg, opts...)
	if err != nil {
		rt.Fatalf("%v", err)
	}

	dm := b.(*backend.DistMemory)
	gate.Register(dm)
	cl.nodes, cl.tr = append(cl.nodes, dm), append(cl.tr, gate.InProcessTransport)

	if how == "transport replaced" {
		dm.SetTransport(gate)
	}

	for i := 1; i < n; i++ {
		cl.add(rt, i, base...)
	}

	defer cl.stop()

	c.Log("%d nodes rf %d read %v write %v %s", n, rf, rl, wl, how)

	keys := rapid.SliceOfNDistinct(keyGen, 3, 6, rapid.ID[string]).Draw(rt, "keys")
	rate, latRate := 0.0, 0.0
	lat := time.Duration(0)
	same := true // nothing was dropped so far: both clusters agree

	var zero, one, delayed bool

	for step := range rapid.IntRange(6, 25).Draw(rt, "steps") {
		key := rapid.SampledFrom(keys).Draw(rt, "key")
		node := rapid.SampledFrom([]int{0, 0, 0, n - 1}).Draw(rt, "node")
		d0, l0, g0, start := chaos.Drops(), chaos.Latencies(), gate.count(), time.Now()
		before := make([]map[string]state, n)

		for i, nd := range cl.nodes {
			before[i] = contents(nd)
		}

		same1 := func(what string, got, want any) {
			if same && fmt.Sprint(got) != fmt.Sprint(want) {
				rt.Fatalf("step %d: %s: %v, without faults %v\n%s", step, what, got, want, c.Desc())
			}
		}

		var e1, e2 error

		op := rapid.SampledFrom([]string{"set", "set", "set", "get", "get", "remove", "list", "sync", "rate", "rate", "latency"}).Draw(rt, "op")

		needs := false // a call of node 0 the operation cannot do without

		switch op {
		case "set":
			e1, e2 = cl.nodes[node].Set(bg, mkItem(key, step)), plain.nodes[node].Set(bg, mkItem(key, step))
			needs = node == 0 && !slices.Contains(cl.owners(key), 0)
		case "get":
			it, ok := cl.nodes[node].Get(bg, key)
			jt, ok2 := plain.nodes[node].Get(bg, key)

			if rate == 0 {
				same1("hit", ok, ok2)

				if ok && ok2 {
					same1("value", it.Value, jt.Value)
				}
			}

			if rate >= 1 && node == 0 && ok && !before[0][key].has {
				rt.Fatalf("step %d: a read crossed the faults: %v\n%s", step, it, c.Desc())
			}
		case "remove":
			e1, e2 = cl.nodes[node].Remove(bg, key), plain.nodes[node].Remove(bg, key)
			needs = node == 0 && !slices.Contains(cl.owners(key), 0)
		case "list":
			r, err := cl.nodes[node].ListKeys(bg, "", 0)
			r2, err2 := plain.nodes[node].ListKeys(bg, "", 0)
			e1, e2 = err, err2

			if rate == 0 {
				same1("listing", r, r2)
			}

			if rate >= 1 && node == 0 && err == nil && len(r.PartialNodes) != n-1 {
				rt.Fatalf("step %d: a listing without any answer names %v as missing\n%s", step, r.PartialNodes, c.Desc())
			}
		case "sync":
			to := rapid.IntRange(1, n-1).Draw(rt, "peer")
			e1, e2 = cl.nodes[0].SyncWith(bg, cl.id(to)), plain.nodes[0].SyncWith(bg, plain.id(to))
			node, needs = 0, true
		case "rate":
			p := rapid.SampledFrom([]float64{0, 0, 1, 1, 0.5, -3, 2.5}).Draw(rt, "rate")
			chaos.SetDropRate(p)
			rate = min(max(p, 0), 1)
			c.Log("%d: drop rate %v", step, p)

			continue
		default:
			lat = rapid.SampledFrom([]time.Duration{0, time.Millisecond, 70 * time.Millisecond, -time.Second}).Draw(rt, "latency")
			p := rapid.SampledFrom([]float64{0, 1, 1, 0.5, -1, 7}).Draw(rt, "share")
			chaos.SetLatency(lat, p)
			latRate = min(max(p, 0), 1)
			c.Log("%d: latency %v at %v", step, lat, p)

			continue
		}

		took := time.Since(start)
		drops, lats, through := chaos.Drops()-d0, chaos.Latencies()-l0, gate.count()-g0
		c.Log("%d: n%d %s %q (owners %v) -> %v; %d dropped %d delayed %d through", step, node, op, key, cl.owners(key), e1, drops, lats, through)

		m := dm.Metrics()
		if m.ChaosDrops != chaos.Drops() || m.ChaosLatencies != chaos.Latencies() {
			rt.Fatalf("step %d: %d/%d injected, metrics say %d/%d\n%s", step, chaos.Drops(), chaos.Latencies(), m.ChaosDrops, m.ChaosLatencies, c.Desc())
		}

		switch {
		case rate == 0 && drops != 0, (latRate == 0 || lat <= 0) && lats != 0:
			rt.Fatalf("step %d: faults injected at rate zero: %d %d\n%s", step, drops, lats, c.Desc())
		case rate >= 1 && through != 0:
			rt.Fatalf("step %d: %d calls got through at rate one\n%s", step, through, c.Desc())
		case rate >= 1 && lats != 0:
			rt.Fatalf("step %d: a dropped call was delayed\n%s", step, c.Desc())
		case latRate >= 1 && lat > 0 && (lats < through || (op != "remove" && lats != through)):
			rt.Fatalf("step %d: %d of %d calls were delayed\n%s", step, lats, through, c.Desc())
		case !(op == "get" || op == "list") && took != time.Duration(lats)*max(lat, 0) || took > time.Duration(lats)*max(lat, 0):
			rt.Fatalf("step %d: %d delays of %v reported, it took %v\n%s", step, lats, lat, took, c.Desc())
		}

		if op == "set" && needs && drops+through != 1 {
			rt.Fatalf("step %d: one call was made, %d were dropped and %d went through\n%s", step, drops, through, c.Desc())
		}

		if rate == 0 {
			zero = zero || through > 0
			same1("error", e1, e2)
		}

		if rate >= 1 && node == 0 {
			if needs && (!errors.Is(e1, backend.ErrChaosDrop) || drops == 0) {
				rt.Fatalf("step %d: every call is dropped (%d), yet the answer is %v\n%s", step, drops, e1, c.Desc())
			}

			if e1 != nil && !errors.Is(e1, backend.ErrChaosDrop) && !errors.Is(e1, sentinel.ErrQuorumFailed) {
				rt.Fatalf("step %d: unexpected error %v\n%s", step, e1, c.Desc())
			}

			for i := 1; i < n; i++ {
				if dump(contents(cl.nodes[i])) != dump(before[i]) {
					rt.Fatalf("step %d: node %d changed from%s to%s though nothing gets through\n%s", step, i, dump(before[i]), dump(contents(cl.nodes[i])), c.Desc())
				}
			}

			one = one || drops > 0
		}

		delayed = delayed || lats > 0

		if drops > 0 {
			same = false
		}

		if same {
			for i := range n {
				if g, w := dump(contents(cl.nodes[i])), dump(contents(plain.nodes[i])); g != w {
					rt.Fatalf("step %d: node %d holds%s, without faults%s\n%s", step, i, g, w, c.Desc())
				}
			}
		}
	}

	c.NT(zero && one && delayed)
	c.LabelIf(zero, "transparent")
	c.LabelIf(one, "all dropped")
	c.LabelIf(delayed, "delayed")
}

// Every kind of call between nodes is subject to the drop rate.
func TestC42Calls(t *testing.T) {
	vh.Run(t, "calls", "a node with heartbeats, relays, gossip, automatic sync, hints and rebalancing among 2-3 peers, in virtual time, with drop rate one from a random moment and zero later; from then on no call of any kind reaches a peer and each is counted as dropped, the peers are suspected and removed, and afterwards calls pass again; with latency instead every background call takes it; non-trivial: five kinds of background calls before", 100, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { calls42(rt, c) })
	})
}

func calls42(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(2, 3).Draw(rt, "peers")
	hb := 200 * time.Millisecond
	gate := &reached{InProcessTransport: backend.NewInProcessTransport()}
	chaos := backend.NewChaos()
	ms := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(2)))

	var peers []*backend.DistMemory

	for i := range n {
		id := fmt.Sprintf("p%d", i)

		pm := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(2)))

		b, err := backend.NewDistMemory(bg, backend.WithDistMembership(pm, cluster.NewNode(id, id+":0")), backend.WithDistTransport(backend.NewInProcessTransport()))
		if err != nil {
			rt.Fatalf("%v", err)
		}

		dm := b.(*backend.DistMemory)
		peers = append(peers, dm)
		gate.Register(dm)
		ms.Upsert(cluster.NewNode(id, id+":0"))

		for j := range n {
			pm.Upsert(cluster.NewNode(fmt.Sprintf("p%d", j), fmt.Sprintf("p%d:0", j)))
		}

		pm.Upsert(cluster.NewNode("w", "w:0"))
	}

	b, err := backend.NewDistMemory(bg, backend.WithDistMembership(ms, cluster.NewNode("w", "w:0")), backend.WithDistTransport(gate), backend.WithDistChaos(chaos),
		backend.WithDistHeartbeat(hb, 2*hb, 6*hb), backend.WithDistIndirectProbes(2, hb/4), backend.WithDistGossipInterval(hb),
		backend.WithDistMerkleAutoSync(300*time.Millisecond), backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(hb),
		backend.WithDistReplication(2), backend.WithDistRebalanceInterval(500*time.Millisecond),
		backend.WithDistWriteConsistency(backend.ConsistencyOne))
	if err != nil {
		rt.Fatalf("%v", err)
	}

	dm := b.(*backend.DistMemory)

	defer func() {
		_ = dm.Stop(bg)
		for _, p := range peers {
			_ = p.Stop(bg)
		}

		time.Sleep(10 * time.Second) // calls under way end
	}()

	time.Sleep(hb / 8)

	for k := range rapid.IntRange(0, 8).Draw(rt, "keys") {
		_ = dm.Set(bg, mkItem(fmt.Sprintf("k%d", k), k))
	}

	pre := time.Duration(rapid.IntRange(1, 30).Draw(rt, "before")) * 100 * time.Millisecond
	out := time.Duration(rapid.IntRange(1, 40).Draw(rt, "out")) * 100 * time.Millisecond

	time.Sleep(pre)

	g0 := gate.count()
	if chaos.Drops() != 0 || (pre > 2*hb && g0 == 0) {
		rt.Fatalf("%d drops, %d calls before any fault\n%s", chaos.Drops(), g0, c.Desc())
	}

	chaos.SetDropRate(1)
	c.Log("%d peers, %v before, %v out", n, pre, out)

	for k := range rapid.IntRange(0, 5).Draw(rt, "writes") {
		_ = dm.Set(bg, mkItem(fmt.Sprintf("o%d", k), k))
	}

	held := make([]string, n)
	for i, p := range peers {
		held[i] = dump(contents(p))
	}

	time.Sleep(out)

	if gate.count() != g0 {
		rt.Fatalf("%d calls got through\n%s", gate.count()-g0, c.Desc())
	}

	m := dm.Metrics()
	if m.ChaosDrops != chaos.Drops() || (out > 3*hb && (m.HeartbeatFailure == 0 || m.MembersAlive != 1)) || (out > 12*hb && m.MembersSuspect != 0) {
		rt.Fatalf("after %v without a call getting through: %+v\n%s", out, m, c.Desc())
	}

	for i, p := range peers {
		if dump(contents(p)) != held[i] {
			rt.Fatalf("peer %d changed\n%s", i, c.Desc())
		}
	}

	chaos.SetDropRate(0)

	d := time.Duration(rapid.IntRange(0, 20).Draw(rt, "latency")) * time.Millisecond
	chaos.SetLatency(d, 1)

	l0, d0, g1 := chaos.Latencies(), chaos.Drops(), gate.count()

	for range 20 {
		time.Sleep(100 * time.Millisecond)
	}

	if ms.Version() > 0 && len(ms.List()) > 1 && gate.count() == g1 {
		rt.Fatalf("no call passes after the faults ended, members %d\n%s", len(ms.List()), c.Desc())
	}

	through, lats := gate.count()-g1, chaos.Latencies()-l0
	if chaos.Drops() != d0 || (d == 0 && lats != 0) || (d > 0 && (lats < through)) {
		rt.Fatalf("%d calls, latency %v: %d delayed, %d dropped\n%s", through, d, lats, chaos.Drops()-d0, c.Desc())
	}

	c.NT(m.HeartbeatFailure > 0 && m.ChaosDrops > 5 && through > 0)
}

// Each call is dropped, or delayed, on its own with the configured probability.
func TestC42Rate(t *testing.T) {
	vh.Run(t, "rate", "600 routed writes through one node at a drop rate and a latency share from 0.05 to 0.95, in virtual time; each write fails exactly when its call was counted as dropped and takes the latency exactly when counted, and the shares are within six standard deviations; non-trivial: always", 12, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			chaos := backend.NewChaos()
			cl := newClu(rt, 0, 1)
			cl.add(rt, 0, backend.WithDistChaos(chaos))
			cl.add(rt, 1)

			defer cl.stop()

			p := float64(rapid.IntRange(1, 19).Draw(rt, "drop")) / 20
			q := float64(rapid.IntRange(1, 19).Draw(rt, "delay")) / 20
			chaos.SetDropRate(p)
			chaos.SetLatency(time.Millisecond, q)
			c.Log("drop %v delay %v", p, q)

			key := ""
			for k := 0; key == ""; k++ {
				if s := fmt.Sprintf("k%d", k); cl.owners(s)[0] == 1 {
					key = s
				}
			}

			const calls = 600

			for range calls {
				d, l, start := chaos.Drops(), chaos.Latencies(), time.Now()
				err := cl.nodes[0].Set(bg, mkItem(key, 1))

				if dropped := chaos.Drops()-d == 1; dropped != errors.Is(err, backend.ErrChaosDrop) || (err != nil) != dropped || chaos.Drops()-d > 1 {
					rt.Fatalf("%d dropped, the answer is %v\n%s", chaos.Drops()-d, err, c.Desc())
				}

				if time.Since(start) != time.Duration(chaos.Latencies()-l)*time.Millisecond {
					rt.Fatalf("%d delays, it took %v\n%s", chaos.Latencies()-l, time.Since(start), c.Desc())
				}
			}

			within := func(what string, got, n int64, p float64) {
				mean, dev := float64(n)*p, math.Sqrt(float64(n)*p*(1-p))
				if math.Abs(float64(got)-mean) > 6*dev+1 {
					rt.Fatalf("%d of %d calls %s at rate %v\n%s", got, n, what, p, c.Desc())
				}
			}

			within("dropped", chaos.Drops(), calls, p)
			within("delayed", chaos.Latencies(), calls-chaos.Drops(), q)
			c.NT(true)
		})
	})
}
