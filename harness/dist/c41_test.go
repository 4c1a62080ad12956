package dist_test

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"slices"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/metric"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// ---- C41: cluster telemetry ----

// call is one transport call a node made.
type tcall struct {
	kind  string // set (routed write), copy (replica write), get, remove, health, indirect, merkle
	to    string
	err   error
	found bool
	ver   uint64
	orig  string
}

// tele is a transport that records what its node asks of others.
type tele struct {
	*backend.InProcessTransport

	mu    sync.Mutex
	delay time.Duration
	calls []tcall
}

func (p *tele) note(c tcall) {
	p.mu.Lock()
	defer p.mu.Unlock()

	p.calls = append(p.calls, c)
}

func (p *tele) wait() {
	p.mu.Lock()
	d := p.delay
	p.mu.Unlock()

	if d > 0 {
		time.Sleep(d)
	}
}

func (p *tele) take() []tcall {
	p.mu.Lock()
	defer p.mu.Unlock()

	c := p.calls
	p.calls = nil

	return c
}

func (p *tele) ForwardSet(ctx context.Context, id string, item *cache.Item, replicate bool) error {
	p.wait()

	err := p.InProcessTransport.ForwardSet(ctx, id, item, replicate)
	kind := "copy"

	if replicate {
		kind = "set"
	}

	p.note(tcall{kind: kind, to: id, err: err})

	return err
}

func (p *tele) ForwardGet(ctx context.Context, id, key string) (*cache.Item, bool, error) {
	p.wait()

	it, ok, err := p.InProcessTransport.ForwardGet(ctx, id, key)
	c := tcall{kind: "get", to: id, err: err, found: ok}

	if ok {
		c.ver, c.orig = it.Version, it.Origin
	}

	p.note(c)

	return it, ok, err
}

func (p *tele) ForwardRemove(ctx context.Context, id, key string, replicate bool) error {
	p.wait()

	err := p.InProcessTransport.ForwardRemove(ctx, id, key, replicate)
	p.note(tcall{kind: "remove", to: id, err: err})

	return err
}

func (p *tele) Health(ctx context.Context, id string) error {
	err := p.InProcessTransport.Health(ctx, id)
	p.note(tcall{kind: "health", to: id, err: err})

	return err
}

func (p *tele) IndirectHealth(ctx context.Context, relay, target string) error {
	err := p.InProcessTransport.IndirectHealth(ctx, relay, target)
	p.note(tcall{kind: "indirect", to: target, err: err})

	return err
}

func (p *tele) FetchMerkle(ctx context.Context, id string) (*backend.MerkleTree, error) {
	t, err := p.InProcessTransport.FetchMerkle(ctx, id)
	p.note(tcall{kind: "merkle", to: id, err: err})

	return t, err
}

func count41(cs []tcall, f func(tcall) bool) int64 {
	n := int64(0)

	for _, c := range cs {
		if f(c) {
			n++
		}
	}

	return n
}

// exported names every metric a node exports and the number it stands for.
func exported(m backend.DistMetrics) map[string]int64 {
	return map[string]int64{
		"dist.forward.get": m.ForwardGet, "dist.forward.set": m.ForwardSet, "dist.forward.remove": m.ForwardRemove,
		"dist.replica.fanout.set": m.ReplicaFanoutSet, "dist.replica.fanout.remove": m.ReplicaFanoutRemove,
		"dist.read.repair": m.ReadRepair, "dist.read.repair.batched": m.ReadRepairBatched,
		"dist.read.repair.coalesced": m.ReadRepairCoalesced, "dist.read.primary_promote": m.ReadPrimaryPromote,
		"dist.heartbeat.success": m.HeartbeatSuccess, "dist.heartbeat.failure": m.HeartbeatFailure,
		"dist.heartbeat.indirect_probe.success": m.IndirectProbeSuccess,
		"dist.heartbeat.indirect_probe.failure": m.IndirectProbeFailure,
		"dist.heartbeat.indirect_probe.refuted": m.IndirectProbeRefuted,
		"dist.drains":                           m.Drains, "dist.nodes.suspect": m.NodesSuspect, "dist.nodes.dead": m.NodesDead,
		"dist.nodes.removed": m.NodesRemoved, "dist.version.conflicts": m.VersionConflicts, "dist.version.tie_breaks": m.VersionTieBreaks,
		"dist.hinted.queued": m.HintedQueued, "dist.hinted.replayed": m.HintedReplayed, "dist.hinted.expired": m.HintedExpired,
		"dist.hinted.dropped": m.HintedDropped, "dist.hinted.global_dropped": m.HintedGlobalDropped, "dist.hinted.bytes": m.HintedBytes,
		"dist.migration.queued": m.MigrationHintQueued, "dist.migration.replayed": m.MigrationHintReplayed,
		"dist.migration.expired": m.MigrationHintExpired, "dist.migration.dropped": m.MigrationHintDropped,
		"dist.migration.last_age_ns": m.MigrationHintLastAgeNanos,
		"dist.merkle.syncs":          m.MerkleSyncs, "dist.merkle.keys_pulled": m.MerkleKeysPulled,
		"dist.merkle.last_build_ns": m.MerkleBuildNanos, "dist.merkle.last_diff_ns": m.MerkleDiffNanos,
		"dist.merkle.last_fetch_ns": m.MerkleFetchNanos, "dist.auto_sync.loops": m.AutoSyncLoops,
		"dist.auto_sync.last_ns": m.LastAutoSyncNanos, "dist.auto_sync.clean_ticks": m.AutoSyncCleanTicks,
		"dist.auto_sync.backoff_factor": m.AutoSyncBackoffFactor, "dist.chaos.drops": m.ChaosDrops,
		"dist.chaos.latencies": m.ChaosLatencies, "dist.tombstones.active": m.TombstonesActive,
		"dist.tombstones.purged": m.TombstonesPurged, "dist.write.attempts": m.WriteAttempts, "dist.write.acks": m.WriteAcks,
		"dist.write.quorum_failures": m.WriteQuorumFailures, "dist.write.forward_promotion": m.WriteForwardPromotion,
		"dist.write.apply_refused": m.WriteApplyRefused, "dist.rebalance.keys": m.RebalancedKeys,
		"dist.rebalance.batches": m.RebalanceBatches, "dist.rebalance.throttle": m.RebalanceThrottle,
		"dist.rebalance.last_ns": m.RebalanceLastNanos, "dist.rebalance.replica_diff": m.RebalancedReplicaDiff,
		"dist.rebalance.replica_diff_throttle": m.RebalanceReplicaDiffThrottle, "dist.rebalance.primary": m.RebalancedPrimary,
		"dist.members.alive": m.MembersAlive, "dist.members.suspect": m.MembersSuspect, "dist.members.dead": m.MembersDead,
		"dist.membership.version": int64(m.MembershipVersion),
	}
}

// collect41 reads what an exporter would see.
func collect41(rd *metric.ManualReader) (map[string]int64, error) {
	var rm metricdata.ResourceMetrics

	err := rd.Collect(bg, &rm)
	if err != nil {
		return nil, err
	}

	out := map[string]int64{}

	for _, sm := range rm.ScopeMetrics {
		for _, m := range sm.Metrics {
			switch d := m.Data.(type) {
			case metricdata.Sum[int64]:
				for _, p := range d.DataPoints {
					out[m.Name] += p.Value
				}
			case metricdata.Gauge[int64]:
				for _, p := range d.DataPoints {
					out[m.Name] += p.Value
				}
			}
		}
	}

	return out, nil
}

func compare41(rt *rapid.T, c *vh.Case, dm *backend.DistMemory, rd *metric.ManualReader) {
	got, err := collect41(rd)
	if err != nil {
		rt.Fatalf("collecting: %v\n%s", err, c.Desc())
	}

	for name, want := range exported(dm.Metrics()) {
		v, ok := got[name]
		if !ok || v != want {
			rt.Fatalf("%s: %s exported as %d (there: %v), the node says %d\n%s", dm.LocalNodeID(), name, v, ok, want, c.Desc())
		}
	}
}

var bounds41 = []time.Duration{
	50 * time.Microsecond, 100 * time.Microsecond, 250 * time.Microsecond, 500 * time.Microsecond,
	time.Millisecond, 2 * time.Millisecond, 5 * time.Millisecond, 10 * time.Millisecond, 25 * time.Millisecond,
	50 * time.Millisecond, 100 * time.Millisecond, 250 * time.Millisecond, 500 * time.Millisecond, time.Second,
}

func bucket41(d time.Duration) int {
	for i, b := range bounds41 {
		if d <= b {
			return i
		}
	}

	return len(bounds41)
}

func attrs41(s sdktrace.ReadOnlySpan) map[string]string {
	out := map[string]string{}
	for _, kv := range s.Attributes() {
		out[string(kv.Key)] = kv.Value.Emit()
	}

	return out
}

// Every operation moves the counters, histograms and traces of the nodes by
// exactly what it did.
func TestC41Ops(t *testing.T) {
	vh.Run(t, "ops", "1-6 nodes, replication 1-5, all consistency levels, sequential and parallel reads, 10-30 steps of set, get, remove (1-4 keys), sync and drain through arbitrary nodes with links cut and healed and calls taking 0-1.5 s, in virtual time; after every step the change of every counter and histogram of every node is the one the calls between the nodes and their contents imply, the exported metrics are the node's, and the spans tell the same story; non-trivial: a failed write, a write taken by a stand-in, a forwarded read and a read repair", 300, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { ops41(rt, c) })
	})
}

func ops41(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(1, 6).Draw(rt, "nodes")
	rf := rapid.IntRange(1, 5).Draw(rt, "rf")
	rl, wl := levels().Draw(rt, "read"), levels().Draw(rt, "write")
	par := rapid.Bool().Draw(rt, "parallel")
	hints := rapid.Bool().Draw(rt, "hints")
	cl := newClu(rt, 0, rf)
	spans := make([]*tracetest.SpanRecorder, n)
	readers := make([]*metric.ManualReader, n)
	tl := make([]*tele, n)

	for i := range n {
		spans[i] = tracetest.NewSpanRecorder()
		readers[i] = metric.NewManualReader()
		opts := []backend.DistMemoryOption{
			backend.WithDistReadConsistency(rl), backend.WithDistWriteConsistency(wl), backend.WithDistParallelReads(par),
			backend.WithDistShardCount(2), backend.WithDistMerkleChunkSize(2),
			backend.WithDistTracerProvider(sdktrace.NewTracerProvider(sdktrace.WithSpanProcessor(spans[i]))),
			backend.WithDistMeterProvider(metric.NewMeterProvider(metric.WithReader(readers[i]))),
		}

		if hints {
			opts = append(opts, backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(time.Hour))
		}

		dm := cl.add(rt, i, opts...)
		tl[i] = &tele{InProcessTransport: cl.tr[i]}
		dm.SetTransport(tl[i])
	}

	defer cl.stop()

	c.Log("%d nodes rf %d read %v write %v parallel %v hints %v", n, rf, rl, wl, par, hints)

	keys := rapid.SliceOfNDistinct(keyGen, 4, 7, rapid.ID[string]).Draw(rt, "keys")
	drained := map[int]bool{}
	seenSpans := make([]int, n)

	var failed, standIn, forwarded, repaired bool

	for step := range rapid.IntRange(10, 40).Draw(rt, "steps") {
		a := rapid.IntRange(0, n-1).Draw(rt, "node")
		key := rapid.SampledFrom(keys).Draw(rt, "key")
		owners := cl.owners(key)
		dm := cl.nodes[a]
		delay := rapid.SampledFrom([]time.Duration{0, 0, 50 * time.Microsecond, 51 * time.Microsecond, 125 * time.Microsecond, time.Millisecond, 1100 * time.Microsecond, 30 * time.Millisecond, 1500 * time.Millisecond}).Draw(rt, "delay")

		before := make([]map[string]state, n)
		m0 := make([]backend.DistMetrics, n)
		h0 := make([]map[string][]uint64, n)

		for i, nd := range cl.nodes {
			tl[i].delay = delay
			tl[i].take()
			before[i] = contents(nd)
			m0[i] = nd.Metrics()
			h0[i] = nd.LatencyHistograms()
		}

		op := rapid.SampledFrom([]string{"set", "set", "set", "get", "get", "get", "remove", "sync", "link", "link", "drain", "invalid", "clear", "clear", "heal", "sync", "sync"}).Draw(rt, "op")
		rootSpan := "dist." + op
		start := time.Now()
		val := fmt.Sprintf("v%d", step)

		var (
			err     error
			hit     bool
			rmKeys  []string
			target  int
			latency = true
		)

		switch op {
		case "set":
			err = dm.Set(bg, mkItem(key, val))
		case "get":
			_, hit = dm.Get(bg, key)
		case "remove":
			rmKeys = append([]string{key}, rapid.SliceOfNDistinct(rapid.SampledFrom(keys), 0, 3, rapid.ID[string]).Draw(rt, "more")...)
			err = dm.Remove(bg, rmKeys...)
		case "sync":
			target, latency, rootSpan = rapid.IntRange(0, n-1).Draw(rt, "peer"), false, ""
			err = dm.SyncWith(bg, cl.id(target))
		case "link":
			target, latency, rootSpan = rapid.IntRange(0, n-1).Draw(rt, "to"), false, ""
			if target != a {
				cl.link(a, target, cl.down[[2]int{a, target}])
			}
		case "drain":
			latency, rootSpan = false, ""

			if rapid.IntRange(0, 3).Draw(rt, "rarely") > 0 {
				op = "nothing"

				break
			}

			_ = dm.Drain(bg)
			_ = dm.Drain(bg)
		case "heal":
			latency, rootSpan = false, ""

			for l, cut := range cl.down {
				if cut {
					cl.link(l[0], l[1], true)
				}
			}
		case "clear": // one owner loses everything it holds, and may be asked itself
			latency, rootSpan = false, ""
			lost := cl.nodes[rapid.SampledFrom(owners).Draw(rt, "loser")]

			err = lost.Clear(bg)
		case "invalid":
			latency, rootSpan = false, ""
			if dm.Set(bg, mkItem(" ", val)) == nil {
				rt.Fatalf("an item without a key was taken\n%s", c.Desc())
			}
		}

		took := time.Since(start)

		synctest.Wait()
		time.Sleep(5 * time.Second) // parallel reads cut short end by themselves
		synctest.Wait()

		after := make([]map[string]state, n)
		m1 := make([]backend.DistMetrics, n)
		calls := make([][]tcall, n)

		for i, nd := range cl.nodes {
			after[i] = contents(nd)
			m1[i] = nd.Metrics()
			calls[i] = tl[i].take()
		}

		c.Log("%d: n%d %s %q %v(owners %v, peer %d, calls %v) in %v -> %v %v", step, a, op, key, rmKeys, owners, target, delay, took, hit, err)

		d := func(i int, f func(backend.DistMetrics) int64) int64 { return f(m1[i]) - f(m0[i]) }
		sum := func(f func(backend.DistMetrics) int64) int64 {
			s := int64(0)
			for i := range n {
				s += d(i, f)
			}

			return s
		}

		want := func(what string, got, want int64) {
			if got != want {
				rt.Fatalf("step %d: %s moved by %d, want %d\n%s", step, what, got, want, c.Desc())
			}
		}

		// what a call between nodes says
		draining := op == "set" && drained[a]
		leftover := before[a][key].has && !slices.Contains(owners, a) // a copy synced without owning it

		for i := range n {
			set := count41(calls[i], func(k tcall) bool { return k.kind == "set" })
			rem := count41(calls[i], func(k tcall) bool { return k.kind == "remove" })
			want(fmt.Sprintf("n%d ForwardSet", i), d(i, func(m backend.DistMetrics) int64 { return m.ForwardSet }), set)
			want(fmt.Sprintf("n%d ForwardRemove", i), d(i, func(m backend.DistMetrics) int64 { return m.ForwardRemove }), rem)

			if rl == backend.ConsistencyOne && op == "get" && leftover {
				_ = i // read at the owners in a second way
			} else if rl == backend.ConsistencyOne && op == "get" {
				get := count41(calls[i], func(k tcall) bool { return k.kind == "get" })
				want(fmt.Sprintf("n%d ForwardGet", i), d(i, func(m backend.DistMetrics) int64 { return m.ForwardGet }), get)
				forwarded = forwarded || get > 0
			} else {
				want(fmt.Sprintf("n%d ForwardGet", i), d(i, func(m backend.DistMetrics) int64 { return m.ForwardGet }), 0)
			}

			stepDrain := int64(0)
			if op == "drain" && i == a && !drained[a] {
				stepDrain = 1
			}

			want(fmt.Sprintf("n%d Drains", i), d(i, func(m backend.DistMetrics) int64 { return m.Drains }), stepDrain)

			attempts := int64(0)
			if op == "set" && i == a && !drained[a] {
				attempts = 1
			}

			want(fmt.Sprintf("n%d WriteAttempts", i), d(i, func(m backend.DistMetrics) int64 { return m.WriteAttempts }), attempts)

			promoted := int64(0)

			if i == a && slices.Contains(owners, a) || op == "remove" && i == a {
				promoted = count41(calls[i], func(k tcall) bool {
					return k.kind == "set" && k.err != nil && !errors.Is(k.err, sentinel.ErrQuorumFailed)
				})

				if op == "remove" {
					promoted = 0

					// in order: a key that nobody takes ends the call
					for _, k := range rmKeys {
						own := cl.owners(k)
						if own[0] == a || !cl.down[[2]int{a, own[0]}] {
							continue
						}

						if !slices.Contains(own, a) {
							break
						}

						promoted++
					}

					if drained[a] {
						promoted = 0
					}
				}
			}

			want(fmt.Sprintf("n%d WriteForwardPromotion", i), d(i, func(m backend.DistMetrics) int64 { return m.WriteForwardPromotion }), promoted)
			standIn = standIn || promoted > 0 && op == "set"

			tombs, fresh := int64(0), false
			for k, s := range after[i] {
				if s.deleted {
					tombs++

					fresh = fresh || s != before[i][k]
				}
			}

			if tombs != m1[i].TombstonesActive && op == "remove" && fresh {
				rt.Fatalf("step %d: n%d remembers %d deletes and reports %d\n%s", step, i, tombs, m1[i].TombstonesActive, c.Desc())
			}

			if m1[i].MembersAlive != int64(n) || m1[i].MembersSuspect != 0 || m1[i].MembersDead != 0 || m1[i].MembershipVersion != cl.ms.Version() {
				rt.Fatalf("step %d: n%d reports %d/%d/%d members at %d, there are %d at %d\n%s", step, i, m1[i].MembersAlive, m1[i].MembersSuspect, m1[i].MembersDead, m1[i].MembershipVersion, n, cl.ms.Version(), c.Desc())
			}

			if m1[i].WriteApplyRefused != 0 || m1[i].NodesSuspect != 0 || m1[i].NodesRemoved != 0 || m1[i].RebalancedKeys != 0 || m1[i].ChaosDrops != 0 || m1[i].AutoSyncLoops != 0 {
				rt.Fatalf("step %d: n%d reports things that did not happen: %+v\n%s", step, i, m1[i], c.Desc())
			}
		}

		// writes
		holders := int64(0)

		for i := range n {
			if op == "set" && after[i][key].has && after[i][key].val == any(val) {
				holders++
			}
		}

		want("all WriteAcks", sum(func(m backend.DistMetrics) int64 { return m.WriteAcks }), holders)

		quorumFailed := int64(0)
		if op == "set" && errors.Is(err, sentinel.ErrQuorumFailed) {
			quorumFailed, failed = 1, true
		}

		want("all WriteQuorumFailures", sum(func(m backend.DistMetrics) int64 { return m.WriteQuorumFailures }), quorumFailed)

		if op == "set" && holders > 0 && hints {
			want("all HintedQueued", sum(func(m backend.DistMetrics) int64 { return m.HintedQueued }), int64(len(owners))-holders)
		} else {
			want("all HintedQueued", sum(func(m backend.DistMetrics) int64 { return m.HintedQueued }), 0)
		}

		if draining && (err == nil || holders > 0) {
			rt.Fatalf("step %d: a draining node took a write: %v\n%s", step, err, c.Desc())
		}

		fan := int64(0)

		if op == "remove" && !drained[a] {
			for _, k := range rmKeys {
				own := cl.owners(k)
				if own[0] != a && cl.down[[2]int{a, own[0]}] && !slices.Contains(own, a) {
					break
				}

				fan += int64(len(own) - 1)
			}
		}

		want("all ReplicaFanoutRemove", sum(func(m backend.DistMetrics) int64 { return m.ReplicaFanoutRemove }), fan)

		// reads
		repair := sum(func(m backend.DistMetrics) int64 { return m.ReadRepair })
		conflicts := sum(func(m backend.DistMetrics) int64 { return m.VersionConflicts })
		ties := sum(func(m backend.DistMetrics) int64 { return m.VersionTieBreaks })
		promote := sum(func(m backend.DistMetrics) int64 { return m.ReadPrimaryPromote })

		if op != "get" {
			want("all ReadRepair", repair, 0)
			want("all VersionConflicts", conflicts, 0)
			want("all ReadPrimaryPromote", promote, 0)
		} else {
			changed := int64(0)

			for i := range n {
				if before[i][key] != after[i][key] {
					changed++
				}
			}

			if repair < changed || (!hit && repair != 0) || (rl == backend.ConsistencyOne && repair != changed) {
				rt.Fatalf("step %d: a read (hit %v) repaired %d owners, %d repairs reported\n%s", step, hit, changed, repair, c.Desc())
			}

			repaired = repaired || changed > 0

			// the answers the read collected
			type ans struct {
				ver  uint64
				orig string
			}

			seen := map[ans]bool{}
			vers := map[uint64]map[string]bool{}

			for _, o := range owners {
				s := before[o][key]
				if !s.has || (o != a && cl.down[[2]int{a, o}]) {
					continue
				}

				seen[ans{s.ver, s.origin}] = true

				if vers[s.ver] == nil {
					vers[s.ver] = map[string]bool{}
				}

				vers[s.ver][s.origin] = true
			}

			tie := false
			for _, os := range vers {
				tie = tie || len(os) > 1
			}

			switch {
			case leftover:
			case (rl == backend.ConsistencyOne || len(seen) < 2) && conflicts != 0, !tie && ties != 0, ties > conflicts:
				rt.Fatalf("step %d: %d conflicts and %d ties reported, the owners hold %v\n%s", step, conflicts, ties, seen, c.Desc())
			case rl == backend.ConsistencyAll && len(seen) > 1 && !slices.ContainsFunc(owners, func(o int) bool { return o != a && cl.down[[2]int{a, o}] }) && conflicts == 0:
				rt.Fatalf("step %d: the owners disagree (%v), no conflict reported\n%s", step, seen, c.Desc())
			}

			primaryAnswers := owners[0] == a || !cl.down[[2]int{a, owners[0]}]
			elsewhere := false

			for _, k := range calls[a] {
				elsewhere = elsewhere || (k.kind == "get" && k.found && k.to != cl.id(owners[0]))
			}

			switch {
			case leftover:
			case rl == backend.ConsistencyOne && primaryAnswers && before[owners[0]][key].has && promote != 0,
				primaryAnswers && !elsewhere && !slices.Contains(owners[1:], a) && promote != 0:
				rt.Fatalf("step %d: the primary answered, yet %d promotions are reported\n%s", step, promote, c.Desc())
			case rl == backend.ConsistencyOne && hit && elsewhere && promote == 0,
				!primaryAnswers && elsewhere && promote == 0:
				rt.Fatalf("step %d: another owner than the primary answered, no promotion is reported\n%s", step, c.Desc())
			}
		}

		// syncs
		pulled, same := int64(0), int64(0)

		if op == "sync" && err == nil {
			for k, s := range before[target] {
				if s.has && before[a][k].has && before[a][k].ver == s.ver && before[a][k].origin == s.origin {
					same++ // may be fetched again with its neighbours
				}
			}

			for k, s := range after[a] {
				if s.has && s != before[a][k] {
					pulled++
				}
			}
		}

		if got := sum(func(m backend.DistMetrics) int64 { return m.MerkleKeysPulled }); op != "sync" && got != 0 || got < pulled || got > pulled+same {
			rt.Fatalf("step %d: %d keys pulled, %d reported\n%s", step, pulled, got, c.Desc())
		}

		syncs := int64(0)
		if op == "sync" && err == nil && dump(sigs41(before[a])) != dump(sigs41(before[target])) {
			syncs = 1
		}

		want("all MerkleSyncs", sum(func(m backend.DistMetrics) int64 { return m.MerkleSyncs }), syncs)

		// latencies
		for i, nd := range cl.nodes {
			h1 := nd.LatencyHistograms()

			for _, name := range []string{"set", "get", "remove"} {
				for b := range h1[name] {
					w := uint64(0)
					if latency && i == a && name == op && b == bucket41(took) {
						w = 1
					}

					if got := h1[name][b] - h0[i][name][b]; got != w {
						rt.Fatalf("step %d: bucket %d of %s latencies at n%d moved by %d, want %d (took %v)\n%s", step, b, name, i, got, w, took, c.Desc())
					}
				}
			}

			compare41(rt, c, nd, readers[i])
		}

		// spans
		roots := 0
		copies := map[string]int{}

		for i := range n {
			ended := spans[i].Ended()
			fresh := ended[seenSpans[i]:]
			seenSpans[i] = len(ended)

			for _, s := range fresh {
				at := attrs41(s)

				for k, v := range at {
					if len(key) > 3 && strings.Contains(v, key) {
						rt.Fatalf("step %d: span %s tells the key: %s=%s\n%s", step, s.Name(), k, v, c.Desc())
					}
				}

				switch s.Name() {
				case "dist.set", "dist.get", "dist.remove":
					roots++

					isErr := s.Status().Code == codes.Error
					if i != a || s.Name() != rootSpan || isErr != (err != nil) || s.EndTime().Sub(s.StartTime()) != took {
						rt.Fatalf("step %d: span %s at n%d status %v lasting %v\n%s", step, s.Name(), i, s.Status(), s.EndTime().Sub(s.StartTime()), c.Desc())
					}

					switch op {
					case "get":
						if at["cache.hit"] != fmt.Sprint(hit) || at["cache.key.length"] != fmt.Sprint(len(key)) || at["dist.consistency"] != rl.String() {
							rt.Fatalf("step %d: get span says %v\n%s", step, at, c.Desc())
						}
					case "set":
						if at["cache.key.length"] != fmt.Sprint(len(key)) || at["dist.consistency"] != wl.String() {
							rt.Fatalf("step %d: set span says %v\n%s", step, at, c.Desc())
						}

						local := d(a, func(m backend.DistMetrics) int64 { return m.WriteAcks }) > 0
						if local && at["dist.acks"] != fmt.Sprint(holders) || !draining && at["dist.owners.count"] != fmt.Sprint(len(owners)) {
							rt.Fatalf("step %d: set span says %v, %d owners %d holders\n%s", step, at, len(owners), holders, c.Desc())
						}
					case "remove":
						if at["dist.keys.count"] != fmt.Sprint(len(rmKeys)) {
							rt.Fatalf("step %d: remove span says %v\n%s", step, at, c.Desc())
						}
					}
				case "dist.replicate.set":
					copies[fmt.Sprintf("n%d>%s %v", i, at["peer.id"], s.Status().Code == codes.Error)]++
				case "dist.replicate.remove":
					if op != "remove" {
						rt.Fatalf("step %d: a remove was traced\n%s", step, c.Desc())
					}

					to := cl.index(cluster.NodeID(at["peer.id"]))
					if to < 0 || cl.down[[2]int{i, to}] && s.Status().Code != codes.Error {
						rt.Fatalf("step %d: n%d traced its delete at %v as %v\n%s", step, i, at, s.Status(), c.Desc())
					}
				default:
					rt.Fatalf("step %d: unexpected span %s\n%s", step, s.Name(), c.Desc())
				}
			}
		}

		if wantRoots := map[bool]int{true: 1}[rootSpan != ""]; roots != wantRoots {
			rt.Fatalf("step %d: %d operation spans, want %d\n%s", step, roots, wantRoots, c.Desc())
		}

		if op == "set" {
			sent := map[string]int{}

			for i := range n {
				for _, k := range calls[i] {
					if k.kind == "copy" {
						sent[fmt.Sprintf("n%d>%s %v", i, k.to, k.err != nil)]++
					}
				}
			}

			if !maps.Equal(sent, copies) {
				rt.Fatalf("step %d: replica writes %v were traced as %v\n%s", step, sent, copies, c.Desc())
			}
		} else if len(copies) > 0 {
			rt.Fatalf("step %d: replica writes traced: %v\n%s", step, copies, c.Desc())
		}

		if op == "drain" {
			drained[a] = true
		}
	}

	c.NT(failed && standIn && repaired && (forwarded || rl != backend.ConsistencyOne))
	c.LabelIf(failed, "failed write")
	c.LabelIf(standIn, "stand-in")
	c.LabelIf(forwarded, "forwarded read")
	c.LabelIf(repaired, "repair")

	cl.stop()

	for i := range n {
		got, err := collect41(readers[i])
		if err != nil || len(got) > 0 {
			rt.Fatalf("a stopped node still exports: %v %v\n%s", got, err, c.Desc())
		}
	}
}

// sigs41 is what a digest covers: no values.
func sigs41(m map[string]state) map[string]state {
	out := map[string]state{}
	for k, s := range m {
		s.val = nil
		out[k] = s
	}

	return out
}

// The failure detector's counters are the probes it made and the transitions
// its membership went through.
func TestC41Liveness(t *testing.T) {
	vh.Run(t, "liveness", "a node watching 1-6 members, random probe interval, time-outs, sampling and relays, links to members and from relays cut and healed at random times, in virtual time; probe counters equal the probes made and their outcomes, suspicions and removals equal the transitions seen in the membership, and the gauges its states at every moment; non-trivial: a suspicion, a removal and a refutation by a relay", 200, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { liveness41(rt, c) })
	})
}

func liveness41(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(1, 6).Draw(rt, "members")
	hb := rapid.SampledFrom([]time.Duration{100 * time.Millisecond, 300 * time.Millisecond, time.Second}).Draw(rt, "interval")
	suspect := hb * time.Duration(rapid.IntRange(1, 4).Draw(rt, "suspect"))
	dead := suspect + hb*time.Duration(rapid.IntRange(1, 6).Draw(rt, "dead"))
	relays := rapid.IntRange(0, 3).Draw(rt, "relays")
	sample := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "sample")
	ring := cluster.NewRing(cluster.WithReplication(2))
	ms := cluster.NewMembership(ring)
	tr := backend.NewInProcessTransport()
	p := &tele{InProcessTransport: tr}
	links := make([]*backend.InProcessTransport, n)

	var peers []*backend.DistMemory

	for i := range n {
		id := fmt.Sprintf("m%d", i)
		links[i] = backend.NewInProcessTransport()

		b, err := backend.NewDistMemory(bg, backend.WithDistNode(id, ""), backend.WithDistTransport(links[i]), backend.WithDistShardCount(1))
		if err != nil {
			rt.Fatalf("%v", err)
		}

		dm := b.(*backend.DistMemory)

		for j, o := range peers {
			links[i].Register(o)
			links[j].Register(dm)
		}

		peers = append(peers, dm)
		tr.Register(dm)
		ms.Upsert(cluster.NewNode(id, id+":0"))
	}

	rd := metric.NewManualReader()

	b, err := backend.NewDistMemory(bg, backend.WithDistMembership(ms, cluster.NewNode("watch", "watch:0")), backend.WithDistTransport(p),
		backend.WithDistHeartbeat(hb, suspect, dead), backend.WithDistHeartbeatSample(sample), backend.WithDistIndirectProbes(relays, hb/4),
		backend.WithDistMeterProvider(metric.NewMeterProvider(metric.WithReader(rd))))
	if err != nil {
		rt.Fatalf("%v", err)
	}

	dm := b.(*backend.DistMemory)

	defer func() {
		_ = dm.Stop(bg)
		for _, o := range peers {
			_ = o.Stop(bg)
		}
	}()

	c.Log("%d members, every %v suspect %v dead %v relays %d sample %d", n, hb, suspect, dead, relays, sample)

	states := func() map[string]string {
		out := map[string]string{}
		for _, m := range ms.List() {
			out[string(m.ID)] = m.State.String()
		}

		return out
	}

	last := states()

	var suspected, removed int64

	var all []tcall

	refuted := int64(0)

	for range rapid.IntRange(8, 30).Draw(rt, "steps") {
		i := rapid.IntRange(0, n-1).Draw(rt, "member")

		switch rapid.IntRange(0, 4).Draw(rt, "op") {
		case 0, 1:
			tr.Unregister(string(peers[i].LocalNodeID()))
			c.Log("lost m%d", i)
		case 2:
			tr.Register(peers[i])
			c.Log("back m%d", i)
		case 3: // its peers lose it, too
			for j := range n {
				if j != i {
					links[j].Unregister(string(peers[i].LocalNodeID()))
				}
			}

			c.Log("gone m%d", i)
		default:
			for j := range n {
				if j != i {
					links[j].Register(peers[i])
				}
			}

			c.Log("there m%d", i)
		}

		ticks := rapid.IntRange(1, 8).Draw(rt, "rounds")
		c.Log("%d rounds", ticks)

		for range ticks {
			time.Sleep(hb)
			synctest.Wait()

			now := states()
			calls := p.take()
			all = append(all, calls...)

			for id, st := range last {
				switch {
				case now[id] == "":
					removed++
				case st == "alive" && now[id] == "suspect":
					suspected++
				}
			}

			for k, cl := range calls {
				if cl.kind == "indirect" && cl.err == nil && k > 0 {
					refuted++
				}
			}

			last = now

			m := dm.Metrics()
			gauge := map[string]int64{}

			for _, st := range now {
				gauge[st]++
			}

			want := map[string]int64{
				"heartbeat success": count41(all, func(k tcall) bool { return k.kind == "health" && k.err == nil }),
				"heartbeat failure": count41(all, func(k tcall) bool { return k.kind == "health" && k.err != nil }),
				"indirect success":  count41(all, func(k tcall) bool { return k.kind == "indirect" && k.err == nil }),
				"indirect failure":  count41(all, func(k tcall) bool { return k.kind == "indirect" && k.err != nil }),
				"refuted":           refuted, "suspect": suspected, "dead": removed, "removed": removed,
				"alive now": gauge["alive"], "suspect now": gauge["suspect"], "dead now": gauge["dead"],
			}
			got := map[string]int64{
				"heartbeat success": m.HeartbeatSuccess, "heartbeat failure": m.HeartbeatFailure,
				"indirect success": m.IndirectProbeSuccess, "indirect failure": m.IndirectProbeFailure,
				"refuted": m.IndirectProbeRefuted, "suspect": m.NodesSuspect, "dead": m.NodesDead, "removed": m.NodesRemoved,
				"alive now": m.MembersAlive, "suspect now": m.MembersSuspect, "dead now": m.MembersDead,
			}

			if !maps.Equal(got, want) || m.MembershipVersion != ms.Version() {
				rt.Fatalf("reported %v at %d, happened %v at %d\n%s", got, m.MembershipVersion, want, ms.Version(), c.Desc())
			}

			snap := dm.DistMembershipSnapshot()
			if fmt.Sprint(snap["version"]) != fmt.Sprint(ms.Version()) || fmt.Sprint(snap["counts"]) != fmt.Sprint(map[string]int64{"alive": gauge["alive"], "suspect": gauge["suspect"], "dead": gauge["dead"]}) {
				rt.Fatalf("snapshot %v, the members are %v at %d\n%s", snap, now, ms.Version(), c.Desc())
			}

			compare41(rt, c, dm, rd)
		}
	}

	c.NT(suspected > 0 && removed > 0 && refuted > 0)
	c.LabelIf(suspected > 0, "suspicion")
	c.LabelIf(removed > 0, "removal")
	c.LabelIf(refuted > 0, "refutation")
}

// The background jobs count what they did.
func TestC41Background(t *testing.T) {
	vh.Run(t, "background", "2-4 nodes, replication 2-4, automatic sync with and without backoff, delete retention and sweeps, a hint queue with bounds and replays, links cut and healed, in virtual time; syncs, clean rounds, pulled keys, the last error, backoff, remembered and purged deletes, queued, delivered, expired and dropped hints are what the calls and contents say; non-trivial: a failed sync round, a purged delete and a delivered hint", 200, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { background41(rt, c) })
	})
}

func background41(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(2, 4).Draw(rt, "nodes")
	rf := rapid.IntRange(2, 4).Draw(rt, "rf")
	every := rapid.SampledFrom([]time.Duration{0, time.Second, 3 * time.Second}).Draw(rt, "sync")
	factor := rapid.SampledFrom([]int{0, 1, 2, 4, 8}).Draw(rt, "backoff")
	ttl := rapid.SampledFrom([]time.Duration{2 * time.Second, 20 * time.Second, time.Hour}).Draw(rt, "retention")
	replay := rapid.SampledFrom([]time.Duration{730 * time.Millisecond, 4970 * time.Millisecond}).Draw(rt, "replay")
	hintTTL := rapid.SampledFrom([]time.Duration{2 * time.Second, time.Minute}).Draw(rt, "hint ttl")
	perNode := rapid.SampledFrom([]int{0, 1, 3}).Draw(rt, "hint cap")
	cl := newClu(rt, 0, rf)
	tl := make([]*tele, n)
	readers := make([]*metric.ManualReader, n)

	for i := range n {
		readers[i] = metric.NewManualReader()
		dm := cl.add(rt, i, backend.WithDistShardCount(2), backend.WithDistMerkleAutoSync(every), backend.WithDistMerkleAdaptiveBackoff(factor),
			backend.WithDistTombstoneTTL(ttl), backend.WithDistTombstoneSweep(500*time.Millisecond), backend.WithDistMerkleChunkSize(1),
			backend.WithDistHintTTL(hintTTL), backend.WithDistHintReplayInterval(replay), backend.WithDistHintMaxPerNode(perNode),
			backend.WithDistReadConsistency(backend.ConsistencyOne), backend.WithDistWriteConsistency(backend.ConsistencyOne),
			backend.WithDistMeterProvider(metric.NewMeterProvider(metric.WithReader(readers[i]))))
		tl[i] = &tele{InProcessTransport: cl.tr[i]}
		dm.SetTransport(tl[i])
	}

	defer cl.stop()

	c.Log("%d nodes rf %d sync %v x%d retention %v hints %v/%v/%d", n, rf, every, factor, ttl, hintTTL, replay, perNode)

	// the loops start with the nodes: step half a unit off their ticks
	time.Sleep(50 * time.Millisecond)

	keys := rapid.SliceOfNDistinct(keyGen, 3, 6, rapid.ID[string]).Draw(rt, "keys")
	was := make([]backend.DistMetrics, n)
	held := make([]map[string]state, n)
	forgot := make([]int64, n)
	loops, failedRounds := make([]int64, n), make([]int64, n)

	var purged, delivered, broken bool

	for i, nd := range cl.nodes {
		was[i], held[i] = nd.Metrics(), contents(nd)
	}

	for step := range rapid.IntRange(8, 25).Draw(rt, "steps") {
		a := rapid.IntRange(0, n-1).Draw(rt, "node")
		key := rapid.SampledFrom(keys).Draw(rt, "key")

		switch rapid.IntRange(0, 5).Draw(rt, "op") {
		case 0, 1:
			err := cl.nodes[a].Set(bg, mkItem(key, step))
			c.Log("n%d set %q=%d (owners %v) %v", a, key, step, cl.owners(key), err)
		case 2:
			ks := []string{key}
			if rapid.Bool().Draw(rt, "all") {
				ks = keys
			}

			err := cl.nodes[a].Remove(bg, ks...)
			c.Log("n%d remove %q (owners %v) %v", a, ks, cl.owners(key), err)
		case 3, 4:
			b := rapid.IntRange(0, n-1).Draw(rt, "other")
			if b != a {
				up := cl.down[[2]int{a, b}]
				cl.link(a, b, up)
				c.Log("link n%d>n%d %v", a, b, up)
			}
		default:
		}

		units := rapid.IntRange(0, 12).Draw(rt, "units")
		c.Log("%d x100ms", units)

		for range units + 1 {
			for i, nd := range cl.nodes { // what the operation changed
				held[i] = contents(nd)
			}

			for i := range n {
				was[i] = cl.nodes[i].Metrics()
				tl[i].take()
			}

			time.Sleep(100 * time.Millisecond)
			synctest.Wait()

			for i, nd := range cl.nodes {
				m, now, calls := nd.Metrics(), contents(nd), tl[i].take()
				merkle := slices.DeleteFunc(slices.Clone(calls), func(k tcall) bool { return k.kind != "merkle" })

				if len(merkle) > 0 { // one round: every other member
					loops[i]++
				}

				if m.AutoSyncLoops != loops[i] {
					rt.Fatalf("n%d reports %d sync rounds, there were %d\n%s", i, m.AutoSyncLoops, loops[i], c.Desc())
				}

				lastErr := ""

				for _, k := range merkle {
					if k.err != nil {
						lastErr = k.err.Error()
						broken = true
					}
				}

				clean := m.AutoSyncCleanTicks - was[i].AutoSyncCleanTicks

				if len(merkle) > 0 {
					if m.LastAutoSyncError != lastErr {
						rt.Fatalf("n%d: last sync error %q, reported %q\n%s", i, lastErr, m.LastAutoSyncError, c.Desc())
					}

					if lastErr != "" {
						failedRounds[i]++
					}

					diverged := m.MerkleSyncs - was[i].MerkleSyncs
					if want := lastErr == "" && diverged == 0 && factor > 1; clean > 1 || (clean == 1) != want {
						rt.Fatalf("n%d: round with error %q and %d diverging peers: %d clean rounds reported\n%s", i, lastErr, diverged, clean, c.Desc())
					}

					backoff := int64(1)
					if factor <= 1 {
						backoff = was[i].AutoSyncBackoffFactor
					} else if clean == 1 {
						backoff = min(max(was[i].AutoSyncBackoffFactor, 1)*2, int64(factor))
					}

					if m.AutoSyncBackoffFactor != backoff {
						rt.Fatalf("n%d: backoff %d after %d (clean %d)\n%s", i, m.AutoSyncBackoffFactor, was[i].AutoSyncBackoffFactor, clean, c.Desc())
					}
				} else if clean != 0 || m.MerkleSyncs != was[i].MerkleSyncs || m.MerkleKeysPulled != was[i].MerkleKeysPulled || m.LastAutoSyncError != was[i].LastAutoSyncError {
					rt.Fatalf("n%d reports syncs without any: %+v\n%s", i, m, c.Desc())
				}

				gone, replaced := int64(0), int64(0) // a sweep and a sync may meet

				for k, s := range held[i] {
					switch {
					case s.deleted && !now[k].deleted && !now[k].has:
						gone++
					case s.deleted && now[k] != s:
						replaced++
					}
				}

				if got := m.TombstonesPurged - forgot[i]; got < gone || got > gone+replaced {
					rt.Fatalf("n%d forgot %d deletes, reports %d\n%s", i, gone, got, c.Desc())
				}

				forgot[i] = m.TombstonesPurged
				purged = purged || forgot[i] > 0

				if q := m.HintedQueued - m.HintedReplayed - m.HintedExpired; m.HintedDropped+m.HintedGlobalDropped == 0 && (q < 0 || (q == 0) != (m.HintedBytes == 0)) {
					rt.Fatalf("n%d: %d hints queued, %d delivered, %d expired, yet %d bytes held\n%s", i, m.HintedQueued, m.HintedReplayed, m.HintedExpired, m.HintedBytes, c.Desc())
				}

				copies := count41(calls, func(k tcall) bool { return k.kind == "copy" && k.err == nil })
				if got := m.HintedReplayed - was[i].HintedReplayed; got < 0 || got > count41(calls, func(k tcall) bool { return k.kind == "copy" }) || got < copies {
					rt.Fatalf("n%d delivered %d, reports %d\n%s", i, copies, got, c.Desc())
				}

				delivered = delivered || copies > 0

				compare41(rt, c, nd, readers[i])
			}
		}

		// a sweep brings the gauge up to date
		time.Sleep(500 * time.Millisecond)
		synctest.Wait()

		for i, nd := range cl.nodes {
			now := contents(nd)
			tombs := int64(0)

			for _, s := range now {
				if s.deleted {
					tombs++
				}
			}

			m := nd.Metrics()
			if every == 0 && !slices.ContainsFunc(cl.nodes, func(o *backend.DistMemory) bool { return o.Metrics().HintedQueued > 0 }) && m.TombstonesActive != tombs {
				rt.Fatalf("n%d remembers %d deletes, reports %d\n%s", i, tombs, m.TombstonesActive, c.Desc())
			}

			forgot[i] = m.TombstonesPurged // what was learned and forgotten in between
			loops[i] = m.AutoSyncLoops
		}
	}

	c.NT(broken && purged && delivered)
	c.LabelIf(broken, "failed round")
	c.LabelIf(purged, "purged")
	c.LabelIf(delivered, "delivered")
}

// Concurrent operations are counted one by one.
func TestC41Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "1-4 nodes, 2-8 callers issuing 5-40 operations each through random nodes at once; attempts, latencies and spans add up to the operations issued, acknowledgements to the copies stored; non-trivial: three or more callers on three or more nodes", 150, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 4).Draw(rt, "nodes")
		rf := rapid.IntRange(1, 3).Draw(rt, "rf")
		cl := newClu(rt, 0, rf)
		spans := make([]*tracetest.SpanRecorder, n)

		for i := range n {
			spans[i] = tracetest.NewSpanRecorder()
			cl.add(rt, i, backend.WithDistTracerProvider(sdktrace.NewTracerProvider(sdktrace.WithSpanProcessor(spans[i]))))
		}

		defer cl.stop()

		callers := rapid.IntRange(2, 8).Draw(rt, "callers")
		plans := make([][][2]int, callers)
		want := make([]map[string]uint64, n)

		for i := range want {
			want[i] = map[string]uint64{}
		}

		acks := int64(0)

		for w := range callers {
			for k := range rapid.IntRange(5, 40).Draw(rt, "ops") {
				op, at := rapid.IntRange(0, 2).Draw(rt, "op"), rapid.IntRange(0, n-1).Draw(rt, "at")
				plans[w] = append(plans[w], [2]int{op, at})
				want[at][[]string{"set", "get", "remove"}[op]]++

				if op == 0 { // keys of its own: nobody refuses it
					acks += int64(len(cl.owners(fmt.Sprintf("k%d-%d", w, k))))
				}
			}
		}

		c.Log("%d nodes rf %d callers %d %v", n, rf, callers, plans)

		var wg sync.WaitGroup

		for w := range callers {
			wg.Go(func() {
				for k, p := range plans[w] {
					key := fmt.Sprintf("k%d-%d", w, k)

					switch p[0] {
					case 0:
						_ = cl.nodes[p[1]].Set(bg, mkItem(key, k))
					case 1:
						_, _ = cl.nodes[p[1]].Get(bg, key)
					default:
						_ = cl.nodes[p[1]].Remove(bg, fmt.Sprintf("x%d", k%3))
					}
				}
			})
		}

		vhWithin(rt, "concurrent operations", wg.Wait)

		total := int64(0)

		for i, nd := range cl.nodes {
			m := nd.Metrics()
			total += m.WriteAcks

			if m.WriteAttempts != int64(want[i]["set"]) {
				rt.Fatalf("n%d reports %d writes, there were %v\n%s", i, m.WriteAttempts, want[i], c.Desc())
			}

			got := map[string]uint64{}

			for name, bs := range nd.LatencyHistograms() {
				for _, b := range bs {
					got[name] += b
				}

				if got[name] != want[i][name] {
					rt.Fatalf("n%d measured %d %s, there were %v\n%s", i, got[name], name, want[i], c.Desc())
				}
			}

			named := map[string]uint64{}
			for _, s := range spans[i].Ended() {
				named[strings.TrimPrefix(s.Name(), "dist.")]++
			}

			for _, name := range []string{"set", "get", "remove"} {
				if named[name] != want[i][name] {
					rt.Fatalf("n%d traced %d %s, there were %v\n%s", i, named[name], name, want[i], c.Desc())
				}
			}
		}

		if total != acks {
			rt.Fatalf("%d acknowledgements reported, %d copies stored\n%s", total, acks, c.Desc())
		}

		c.NT(callers >= 3 && n >= 3)
	})
}
