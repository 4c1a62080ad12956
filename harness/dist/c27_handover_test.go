package dist_test

import (
	"fmt"
	"slices"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

// One node leaves and returns while its keys are being handed over, with
// messages under way, and is written to in between.
func TestC27Handover(t *testing.T) {
	vh.Run(t, "handover", "2-4 nodes, replication 1-3, rebalancers every 100 ms of virtual time with random grace period and batch size, messages that take 0-30 ms to arrive and 0-20 ms to be answered; one node leaves and returns 1-6 times at offsets around the handover of its 1-5 keys and overwrites or removes some while the others may be out of its reach; no state of a key is lost, nothing is dropped that an owner lacks or a grace period protects, and at the end the owners know the newest value or delete of every key; non-trivial: the node returned while messages were under way and wrote then", 700, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { c27handover(rt, c) })
	})
}

func c27handover(rt *rapid.T, c *vh.Case) {
	const interval = 100 * time.Millisecond

	n, rf := rapid.IntRange(2, 4).Draw(rt, "nodes"), rapid.IntRange(1, 3).Draw(rt, "rf")
	x := &churn{rt: rt, c: c, cl: newClu(rt, 0, rf), member: map[int]bool{}, live: map[int]bool{}, newest: map[string]state{}, interval: interval, looked: time.Now()}
	grace := rapid.SampledFrom([]time.Duration{0, 0, 150 * time.Millisecond, 420 * time.Millisecond}).Draw(rt, "grace")
	arrive := rapid.SampledFrom([]int{0, 10, 30}).Draw(rt, "arrive")
	answer := rapid.SampledFrom([]int{0, 20}).Draw(rt, "answer")

	ch := backend.NewChaos() // used for its latency only
	ch.SetLatency(time.Duration(arrive)*time.Millisecond, 1)

	x.opts = []backend.DistMemoryOption{
		backend.WithDistRebalanceInterval(interval), backend.WithDistRebalanceBatchSize(rapid.SampledFrom([]int{1, 64}).Draw(rt, "batch")),
		backend.WithDistRemovalGrace(grace), backend.WithDistShardCount(rapid.SampledFrom([]int{1, 4}).Draw(rt, "shards")), backend.WithDistChaos(ch),
	}

	start := time.Now()

	for range n {
		x.fl[x.join()].answer = time.Duration(answer) * time.Millisecond
	}

	defer func() {
		for _, nd := range x.cl.nodes {
			_ = nd.Stop(bg)
		}
	}()

	c.Log("%d nodes rf %d grace %v arrive %d answer %d", n, rf, grace, arrive, answer)

	var (
		ops          sync.WaitGroup
		left, joined time.Time // when node 0 last left and returned
		protected    map[string]state
		seq          int
		busy, raced  bool
	)

	look := func() {
		x.observe()

		if !x.member[0] && time.Since(left) < grace {
			for k, s := range protected {
				if now := x.prev[0][k]; older(now, s) {
					rt.Fatalf("%v after leaving, node 0 has %v of %q, had %v\n%s", time.Since(left), now, k, s, c.Desc())
				}
			}
		}
	}

	pass := func(d time.Duration) {
		for d > 0 { // closer looks towards the end, which may be in the middle of a handover
			step := min(d, max(10*time.Millisecond, d/4))
			time.Sleep(step)
			look()

			d -= step
		}
	}

	write := func(key string, remove bool) bool {
		if !x.member[0] || x.owners(key)[0] != 0 {
			return false
		}

		seq++
		v := fmt.Sprintf("v%d", seq)
		was := contents(x.cl.nodes[0])[key]

		ops.Go(func() {
			if remove {
				_ = x.cl.nodes[0].Remove(bg, key)
			} else {
				_ = x.cl.nodes[0].Set(bg, mkItem(key, v))
			}
		})
		synctest.Wait()

		s := contents(x.cl.nodes[0])[key]
		if s.deleted != remove || !remove && s.val != v || s.ver <= was.ver {
			rt.Fatalf("%q: %v became %v\n%s", key, was, s, c.Desc())
		}

		c.Log("%v %q=%v", time.Since(start), key, s)

		x.newest[key] = s
		if _, ok := protected[key]; ok {
			protected[key] = s
		}

		return true
	}

	leave := func() {
		if !x.member[0] {
			return
		}

		look()

		x.cl.ms.Remove(cluster.NodeID(x.cl.id(0)))
		x.member[0] = false
		protected = nil

		// the node must have noticed that it was an owner again
		if joined.IsZero() || time.Since(joined) > 3*interval+2*time.Duration(arrive+answer)*5*time.Millisecond*2 {
			protected = contents(x.cl.nodes[0])
			for k, s := range protected {
				if !s.has {
					delete(protected, k)
				}
			}
		}

		left = time.Now()

		c.Log("%v leaves", time.Since(start))
		look()
	}

	back := func() {
		if x.member[0] {
			return
		}

		look()

		seq++
		nd := cluster.NewNode(x.cl.id(0), x.cl.id(0)+":0")
		nd.Incarnation = uint64(100 + seq)
		x.cl.ms.Upsert(nd)
		x.member[0], joined = true, time.Now()

		c.Log("%v returns", time.Since(start))
		look()
	}

	reach := func(i int, up bool) {
		x.cl.link(0, i, up)
		c.Log("%v n%d in reach: %v", time.Since(start), i, up)
	}

	heal := func() {
		for j := range n {
			for i := range n {
				if i != j && x.cl.down[[2]int{j, i}] {
					x.cl.link(j, i, true)
				}
			}
		}

		c.Log("%v healed", time.Since(start))
	}

	keys := rapid.SliceOfNDistinct(rapid.StringMatching(`k[0-9]{1,2}`), 1, 5, rapid.ID[string]).Draw(rt, "keys")
	for _, k := range keys {
		if rapid.IntRange(0, 2).Draw(rt, "later") > 0 {
			write(k, false)
			ops.Wait()
		}
	}

	for range rapid.IntRange(1, 3).Draw(rt, "rounds") {
		pass(time.Duration(rapid.IntRange(1, 700).Draw(rt, "calm")) * time.Millisecond)

		if rapid.Bool().Draw(rt, "alone") {
			reach(rapid.IntRange(1, n-1).Draw(rt, "cut"), false)

			for range rapid.IntRange(0, 3).Draw(rt, "writes") {
				write(rapid.SampledFrom(keys).Draw(rt, "key"), rapid.IntRange(0, 2).Draw(rt, "rm") == 0)
			}

			ops.Wait()
			pass(5 * time.Millisecond)
		}

		for i := 1; i < n; i++ {
			if x.cl.down[[2]int{0, i}] && rapid.IntRange(0, 2).Draw(rt, "still") > 0 {
				reach(i, true)
			}
		}

		if n > 2 && rapid.IntRange(0, 2).Draw(rt, "others") == 0 { // the new primary may not reach all replicas
			for j := 1; j < n; j++ {
				i := rapid.IntRange(1, n-1).Draw(rt, "other")
				if i != j {
					x.cl.link(j, i, false)
					c.Log("%v n%d out of n%d's reach", time.Since(start), i, j)
				}
			}
		}

		leave()

		// to where the next handover is under way
		tick := interval - time.Since(start)%interval
		pass(tick + time.Duration(rapid.IntRange(0, 60).Draw(rt, "into"))*time.Millisecond + time.Microsecond)

		for range rapid.IntRange(0, 5).Draw(rt, "actions") {
			switch rapid.IntRange(0, 7).Draw(rt, "action") {
			case 0, 1:
				busy = busy || !x.member[0]

				back()
			case 2, 3:
				leave()
			case 4:
				raced = write(rapid.SampledFrom(keys).Draw(rt, "key"), false) && busy || raced
			case 5:
				raced = write(rapid.SampledFrom(keys).Draw(rt, "key"), true) && busy || raced
			case 6:
				i := rapid.IntRange(1, n-1).Draw(rt, "target")
				reach(i, x.cl.down[[2]int{0, i}])
			default:
				pass(time.Duration(rapid.IntRange(1, 20).Draw(rt, "pause")) * time.Millisecond)
			}

			look()
		}

		pass(time.Duration(rapid.IntRange(0, 30).Draw(rt, "pause")) * time.Millisecond)

		heal()

		if rapid.Bool().Draw(rt, "return") {
			back()
		}
	}

	vhWithin(rt, "operations", ops.Wait)

	if rapid.IntRange(0, 3).Draw(rt, "leave") > 0 {
		leave()
	}

	pass(2 * time.Second)

	for k, s := range x.newest {
		owners := x.owners(k)

		for i := range x.cl.nodes {
			got := contents(x.cl.nodes[i])[k]
			own := slices.Contains(owners, i)

			switch {
			case !own && got.has && (!x.member[0] || s.has):
				rt.Fatalf("settled: node %d, no owner, has %v of %q, newest %v; %s\n%s", i, got, k, s, x.holders(k), c.Desc())
			case own && older(got, s) && (i == 0 && (got.has || s.has) || !x.member[0]):
				rt.Fatalf("settled: owner %d has %v of %q, newest %v; %s\n%s", i, got, k, s, x.holders(k), c.Desc())
			}
		}
	}

	c.NT(raced)
}
