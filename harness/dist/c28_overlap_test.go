package dist_test

import (
	"context"
	"slices"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/hyp3rd/hypercache/pkg/backend"
	"verif.local/vh"
)

// TestC28Overlap: listings that are under way at the same time, some of them
// given up by their callers, are answered each for what it asked.
func TestC28Overlap(t *testing.T) {
	vh.Run(t, "overlap", "2-4 nodes with message delays in virtual time holding random keys, 2-6 overlapping listings with patterns and limits of their own, some cancelled midway; non-trivial: two overlapping listings through one node with the same pattern and different limits, or one of them cancelled", 150, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { c28overlap(rt, c) })
	})
}

func c28overlap(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(2, 4).Draw(rt, "nodes")
	cl := newClu(rt, 0, rapid.IntRange(1, 3).Draw(rt, "rf"))

	for i := range n {
		ch := backend.NewChaos() // used for its latency only
		ch.SetLatency(time.Duration(rapid.IntRange(1, 20).Draw(rt, "latency"))*time.Millisecond, 1)
		cl.add(rt, i, backend.WithDistShardCount(2), backend.WithDistChaos(ch))
	}

	defer cl.stop()

	for i, k := range rapid.SliceOfNDistinct(listKey, 2, 20, rapid.ID[string]).Draw(rt, "keys") {
		if err := cl.nodes[i%n].Set(bg, mkItem(k, i)); err != nil {
			rt.Fatalf("set %q: %v", k, err)
		}
	}

	type call struct {
		node, most, pause, patience int
		pattern                     string
		got                         backend.ListKeysResult
		err                         error
	}

	patterns := rapid.SliceOfN(listPattern, 1, 2).Draw(rt, "patterns")
	calls := make([]*call, rapid.IntRange(2, 6).Draw(rt, "calls"))

	var wg sync.WaitGroup

	for i := range calls {
		q := &call{
			node: rapid.IntRange(0, n-1).Draw(rt, "node"), most: rapid.IntRange(0, 8).Draw(rt, "most"), pause: rapid.IntRange(0, 4).Draw(rt, "pause"),
			pattern: rapid.SampledFrom(patterns).Draw(rt, "pattern"),
		}
		if rapid.IntRange(0, 3).Draw(rt, "gives up") == 0 {
			q.patience = rapid.IntRange(1, 10).Draw(rt, "patience")
		}

		calls[i] = q

		wg.Go(func() {
			time.Sleep(time.Duration(q.pause) * time.Millisecond)

			ctx := bg

			if q.patience > 0 {
				var cancel context.CancelFunc

				ctx, cancel = context.WithTimeout(bg, time.Duration(q.patience)*time.Millisecond)
				defer cancel()
			}

			q.got, q.err = cl.nodes[q.node].ListKeys(ctx, q.pattern, q.most)
			q.got.Keys = slices.Clone(q.got.Keys)
			q.got.PartialNodes = slices.Clone(q.got.PartialNodes)
		})
	}

	wg.Wait()

	for i, q := range calls {
		match, valid := matcher(q.pattern)
		if (q.err == nil) != valid {
			rt.Fatalf("pattern %q: %v", q.pattern, q.err)
		}

		if !valid || q.patience > 0 {
			continue
		}

		c.Log("%d: %q most %d through %d from %d ms: %d keys", i, q.pattern, q.most, q.node, q.pause, len(q.got.Keys))

		want, missing := listing(cl, q.node, match, func(int) bool { return true })
		checkListing(rt, c, q.got, want, q.most, missing)

		for _, o := range calls {
			if o != q && o.node == q.node && o.pattern == q.pattern && (o.most != q.most || o.patience > 0) {
				c.NT(true)
			}
		}
	}
}
