package dist_test

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/hyp3rd/hypercache/pkg/backend"
	"verif.local/vh"
)

// TestC26Overlap: rounds that are under way at the same time each do their work.
func TestC26Overlap(t *testing.T) {
	vh.Run(t, "overlap", "3-4 replicas of everything planted with different contents, with message delays in virtual time; one runs overlapping rounds with several or the same of the others, and holds afterwards of every key at least what each of those held; non-trivial: two rounds overlap and each had something to bring", 120, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { c26overlap(rt, c) })
	})
}

func c26overlap(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(3, 4).Draw(rt, "nodes")
	cl := newClu(rt, 0, n)

	for i := range n {
		ch := backend.NewChaos() // used for its latency only
		ch.SetLatency(time.Duration(rapid.IntRange(1, 20).Draw(rt, "latency"))*time.Millisecond, 1)
		cl.add(rt, i, backend.WithDistShardCount(2), backend.WithDistMerkleChunkSize(rapid.SampledFrom([]int{1, 2, 8}).Draw(rt, "chunk")), backend.WithDistChaos(ch))
	}

	defer cl.stop()

	for i, nd := range cl.nodes {
		plant(rt, nd, cl.tr[i], drawEntries(rt, fmt.Sprintf("n%d", i), 10))
	}

	before := make([]map[string]state, n)
	for i, nd := range cl.nodes {
		before[i] = contents(nd)
	}

	rounds := rapid.IntRange(2, 5).Draw(rt, "rounds")
	errs := make([]error, rounds)
	peers := make([]int, rounds)

	var wg sync.WaitGroup

	for r := range rounds {
		peers[r] = rapid.IntRange(1, n-1).Draw(rt, "peer")
		pause := rapid.IntRange(0, 5).Draw(rt, "pause")

		wg.Go(func() {
			time.Sleep(time.Duration(pause) * time.Millisecond)

			errs[r] = cl.nodes[0].SyncWith(bg, cl.id(peers[r]))
		})
	}

	wg.Wait()

	after := contents(cl.nodes[0])
	brought := map[int]bool{}

	for r, p := range peers {
		if errs[r] != nil {
			rt.Fatalf("round with %s: %v", cl.id(p), errs[r])
		}

		for k, s := range before[p] {
			if older(after[k], s) {
				rt.Fatalf("after its round with %s, %q is %v; that one has %v", cl.id(p), k, after[k], s)
			}

			if older(before[0][k], s) {
				brought[p] = true
			}
		}
	}

	c.Log("%d nodes, rounds with %v", n, peers)
	c.NT(len(brought) >= 2)
}
