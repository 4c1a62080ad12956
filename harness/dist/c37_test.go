package dist_test

import (
	"context"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"go.opentelemetry.io/otel/metric/noop"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// ---- C37: lifecycle of distributed nodes ----

// drawLoops draws any set of background work.
func drawLoops(rt *rapid.T) (opts []backend.DistMemoryOption, desc string) {
	ivl := rapid.SampledFrom([]time.Duration{time.Millisecond, 3 * time.Millisecond, 50 * time.Millisecond, time.Hour}).Draw(rt, "interval")
	mask := rapid.IntRange(0, 1<<11-1).Draw(rt, "loops")

	for i, o := range []backend.DistMemoryOption{
		backend.WithDistGossipInterval(ivl),
		backend.WithDistHeartbeat(ivl, 20*ivl, 40*ivl),
		backend.WithDistMerkleAutoSync(ivl),
		backend.WithDistHintReplayInterval(ivl),
		backend.WithDistTombstoneSweep(ivl),
		backend.WithDistRebalanceInterval(ivl),
		backend.WithDistReadRepairBatch(ivl, 2),
		backend.WithDistParallelReads(true),
		backend.WithDistIndirectProbes(2, 5*time.Millisecond),
		backend.WithDistMeterProvider(noop.NewMeterProvider()),
		backend.WithDistMerkleAdaptiveBackoff(8),
	} {
		if mask&(1<<i) != 0 {
			opts = append(opts, o)
		}
	}

	opts = append(opts, backend.WithDistHintTTL(time.Minute), backend.WithDistTombstoneTTL(time.Minute))

	return opts, fmt.Sprintf("loops %b every %v", mask, ivl)
}

type nodeOp struct{ node, op, key int }

func (o nodeOp) run(dm *backend.DistMemory) {
	ctx, cancel := context.WithTimeout(bg, 3*time.Second)
	defer cancel()

	key := fmt.Sprintf("k%d", o.key)

	switch o.op {
	case 0, 1, 2:
		it := newItem(key, "v")
		_ = dm.Set(ctx, it)
	case 3, 4:
		dm.Get(ctx, key)
	case 5:
		_ = dm.Remove(ctx, key, "k1")
	case 6:
		_, _ = dm.List(ctx)
	case 7:
		_ = dm.Clear(ctx)
	case 8:
		_ = dm.Drain(ctx)
	case 9:
		dm.Metrics()
		dm.Count(ctx)
		dm.BuildMerkleTree()
	case 10:
		_ = dm.SyncWith(ctx, fmt.Sprintf("n%d", o.key%3))
	case 11:
		dm.RemovePeer("n1@10.0.0.1:1")
		dm.AddPeer(fmt.Sprintf("n%d", o.key%3))
	case 12:
		dm.SetCapacity(o.key)
		dm.Capacity()
	case 13:
		_ = dm.LocalContains(key)
		dm.LatencyHistograms()
		dm.LifecycleContext()
	}
}

func newItem(key string, v any) *cache.Item {
	return &cache.Item{Key: key, Value: v, LastAccess: time.Now()}
}

func drawOps(rt *rapid.T, nodes, most int) []nodeOp {
	ops := make([]nodeOp, rapid.IntRange(0, most).Draw(rt, "ops"))
	for i := range ops {
		ops[i] = nodeOp{rapid.IntRange(0, nodes-1).Draw(rt, "node"), rapid.IntRange(0, 13).Draw(rt, "op"), rapid.IntRange(0, 9).Draw(rt, "key")}
	}

	return ops
}

func TestC37_Nodes(t *testing.T) {
	vh.Run(t, "nodes", "1..4 nodes with any set of background loops, over in-process or HTTP transports, some peers crashed or hanging, were stopped while operations ran; non-trivial: a background loop ran or an operation raced", 200, func(rt *rapid.T, c *vh.Case) {
		base := vh.Running()
		n := rapid.IntRange(1, 4).Draw(rt, "n")
		overHTTP := rapid.Bool().Draw(rt, "http")
		opts, desc := drawLoops(rt)
		c.Log("%d nodes http %v %s", n, overHTTP, desc)

		ctx, cancel := context.WithCancel(bg)
		defer cancel()

		var (
			nodes []*backend.DistMemory
			addrs []string
		)

		hole, err := net.Listen("tcp", "127.0.0.1:0") // a peer whose backlog takes connections that nobody serves
		if err != nil {
			rt.Fatalf("listen: %v", err)
		}
		defer hole.Close()

		shared := rapid.Bool().Draw(rt, "shared")
		ring := cluster.NewRing(cluster.WithReplication(2))
		ms := cluster.NewMembership(ring)
		tr := backend.NewInProcessTransport()
		hanging := rapid.IntRange(0, 2).Draw(rt, "hanging") == 0

		for i := range n {
			if overHTTP {
				addrs = append(addrs, freeAddr())
			} else {
				addrs = append(addrs, fmt.Sprintf("n%d:1", i))
			}
		}

		for i := range n {
			id := fmt.Sprintf("n%d", i)
			o := append([]backend.DistMemoryOption{
				backend.WithDistNode(id, addrs[i]), backend.WithDistReplication(2),
				backend.WithDistHTTPLimits(backend.DistHTTPLimits{ClientTimeout: 30 * time.Millisecond}),
			}, opts...)

			if shared {
				o = append(o, backend.WithDistMembership(ms, cluster.NewNode(id, addrs[i])))
			} else {
				var seeds []string
				for j := range n {
					seeds = append(seeds, fmt.Sprintf("n%d@%s", j, addrs[j]))
				}

				if hanging {
					seeds = append(seeds, "hang@"+hole.Addr().String())
				}

				o = append(o, backend.WithDistSeeds(seeds))
			}

			if !overHTTP {
				o = append(o, backend.WithDistTransport(tr))
			}

			b, err := backend.NewDistMemory(ctx, o...)
			if err != nil {
				rt.Fatalf("NewDistMemory: %v", err)
			}

			dm := b.(*backend.DistMemory)
			nodes = append(nodes, dm)

			if !overHTTP {
				tr.Register(dm)
			}
		}

		if shared && hanging {
			ms.Upsert(cluster.NewNode("hang", hole.Addr().String()))
		}

		before := drawOps(rt, n, 12)
		racers := make([][]nodeOp, rapid.IntRange(0, 4).Draw(rt, "racers"))

		for i := range racers {
			racers[i] = drawOps(rt, n, 12)
		}

		after := drawOps(rt, n, 8)
		order := rapid.Permutation(seq(n)).Draw(rt, "order")
		stops := rapid.IntRange(1, 3).Draw(rt, "stops")
		together := rapid.Bool().Draw(rt, "together")
		delay := time.Duration(rapid.IntRange(0, 3000).Draw(rt, "delay")) * time.Microsecond
		cancelWhen := rapid.SampledFrom([]string{"never", "never", "before", "after"}).Draw(rt, "cancel")
		c.Log("before %v racers %v after %v order %v stops %d together %v delay %v cancel %s", before, racers, after, order, stops, together, delay, cancelWhen)
		c.NT(!strings.HasPrefix(desc, "loops 0 ") || len(racers) > 0)
		c.LabelIf(overHTTP, "http")
		c.LabelIf(hanging, "hanging peer")

		vh.Within(rt, 60*time.Second, "operations", func() {
			for _, o := range before {
				o.run(nodes[o.node])
			}
		})

		if cancelWhen == "before" {
			cancel()
		}

		var (
			wg   sync.WaitGroup
			mu   sync.Mutex
			errs []error
		)

		for _, ops := range racers {
			wg.Go(func() {
				for _, o := range ops {
					o.run(nodes[o.node])
				}
			})
		}

		stop := func(i int) {
			sctx, done := context.WithTimeout(bg, 10*time.Second)
			defer done()

			err := nodes[i].Stop(sctx)

			mu.Lock()
			errs = append(errs, err)
			mu.Unlock()
		}

		wg.Go(func() {
			time.Sleep(delay)

			for _, i := range order {
				for range stops {
					if together {
						wg.Go(func() { stop(i) })
					} else {
						stop(i)
					}
				}
			}
		})

		vh.Within(rt, 60*time.Second, "Stop and the operations racing with it", wg.Wait)

		for _, err := range errs {
			if err != nil {
				rt.Fatalf("Stop: %v\n%s", err, c.Desc())
			}
		}

		vh.Within(rt, 60*time.Second, "operations after Stop", func() {
			for _, o := range after {
				o.run(nodes[o.node])
			}
		})

		if left := vh.Quiet(10*time.Second, base); len(left) > 0 {
			rt.Fatalf("still running after Stop:\n%s\n%s", strings.Join(left, "\n\n"), c.Desc())
		}

		if overHTTP {
			for _, a := range addrs {
				if conn, err := net.DialTimeout("tcp", a, time.Second); err == nil {
					conn.Close()
					rt.Fatalf("%s still accepts connections after Stop\n%s", a, c.Desc())
				}
			}
		}

		for i, dm := range nodes {
			if dm.LifecycleContext().Err() == nil {
				rt.Fatalf("the lifecycle context of n%d outlives Stop", i)
			}
		}
	})
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}

	return out
}
