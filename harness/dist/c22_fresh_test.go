package dist_test

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/hyp3rd/hypercache/pkg/backend"
	"verif.local/vh"
)

// TestC22Fresh: reads that overlap each other and writes. A key has one writer,
// so its history is known: a read returns nothing older than the last write
// that was done when it began, and nothing that had not begun when it ended;
// what a reader does to its item is not seen by another.
func TestC22Fresh(t *testing.T) {
	vh.Run(t, "fresh", "2-5 nodes, replication 1-3, each node with its own message delay in virtual time; one writer per key (sets and removes through random nodes) and 1-5 readers of the same keys through random nodes, several at once through one node; non-trivial: two overlapping reads of one key through one node of which the later began after a write had ended that the earlier overlapped", 500, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { c22fresh(rt, c) })
	})
}

func c22fresh(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(2, 5).Draw(rt, "nodes")
	cl := newClu(rt, 0, rapid.IntRange(1, 3).Draw(rt, "rf"))
	wl := levels().Draw(rt, "write")

	for i := range n {
		ch := backend.NewChaos() // used for its latency only
		ch.SetLatency(time.Duration(rapid.IntRange(0, 5).Draw(rt, "latency"))*time.Millisecond, 1)
		cl.add(rt, i, backend.WithDistReadConsistency(levels().Draw(rt, "read")),
			backend.WithDistWriteConsistency(wl), backend.WithDistShardCount(2), backend.WithDistChaos(ch))
	}

	defer cl.stop()

	type step struct {
		node, pause, key int
		remove           bool
	}

	type write struct {
		begin, end int64
		val        any // nil: removed
	}

	type read struct {
		node, key  int
		begin, end int64
		val        any
	}

	nk := rapid.IntRange(1, 2).Draw(rt, "keys")
	steps := func(label string, lo, hi int) []step {
		out := []step{}

		for range rapid.IntRange(lo, hi).Draw(rt, label) {
			out = append(out, step{rapid.IntRange(0, n-1).Draw(rt, "node"), rapid.IntRange(0, 5).Draw(rt, "pause"), rapid.IntRange(0, nk-1).Draw(rt, "key"), rapid.IntRange(0, 4).Draw(rt, "rm") == 0})
		}

		return out
	}

	writes := make([][]write, nk)
	plans := make([][]step, nk)

	for k := range nk {
		plans[k] = steps("writes", 1, 8)
		writes[k] = []write{{}} // absent at first
	}

	readers := make([][]step, rapid.IntRange(1, 5).Draw(rt, "readers"))
	for i := range readers {
		readers[i] = steps("reads", 2, 14)
	}

	var (
		clock atomic.Int64
		wg    sync.WaitGroup
		mu    sync.Mutex
		reads []read
		fail  string
	)

	for k, plan := range plans {
		wg.Go(func() {
			for j, st := range plan {
				time.Sleep(time.Duration(st.pause) * time.Millisecond)

				w := write{begin: clock.Add(1)}
				key := fmt.Sprintf("k%d", k)

				var err error
				if st.remove {
					err = cl.nodes[st.node].Remove(bg, key)
				} else {
					w.val = fmt.Sprintf("v%d", j)
					err = cl.nodes[st.node].Set(bg, mkItem(key, w.val))
				}

				w.end = clock.Add(1)
				writes[k] = append(writes[k], w)

				if err != nil {
					mu.Lock()
					fail = fmt.Sprintf("write %d of %s: %v", j, key, err)
					mu.Unlock()
				}
			}
		})
	}

	for _, plan := range readers {
		wg.Go(func() {
			for _, st := range plan {
				time.Sleep(time.Duration(st.pause) * time.Millisecond)

				r := read{node: st.node, key: st.key, begin: clock.Add(1)}

				it, ok := cl.nodes[st.node].Get(bg, fmt.Sprintf("k%d", st.key))
				if ok {
					r.val = it.Value
					it.Value, it.Key = "scribbled", "scribbled"
				}

				r.end = clock.Add(1)

				mu.Lock()
				reads = append(reads, r)
				mu.Unlock()
			}
		})
	}

	wg.Wait()

	if fail != "" {
		rt.Fatalf("%s", fail)
	}

	overtaken := false

	for _, r := range reads {
		ok := false

		for i, w := range writes[r.key] {
			over := i+1 < len(writes[r.key]) && writes[r.key][i+1].end < r.begin
			ok = ok || (!over && w.begin < r.end && w.val == r.val)
		}

		if !ok {
			rt.Fatalf("k%d read through node %d during %d-%d as %v; writes (nil is a remove) %v", r.key, r.node, r.begin, r.end, r.val, writes[r.key])
		}

		for _, e := range reads {
			if e.key == r.key && e.node == r.node && e.begin < r.begin && r.begin < e.end {
				for _, w := range writes[r.key][1:] {
					overtaken = overtaken || (e.begin < w.end && w.end < r.begin)
				}
			}
		}
	}

	c.Log("%d nodes, %d reads, writes %v", n, len(reads), writes)
	c.NT(overtaken)
}
