package dist_test

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"testing"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// lossy is a transport on which the answer to a delivered write can get lost.
type lossy struct {
	*backend.InProcessTransport

	lose map[string]bool
}

var errLost = errors.New("answer lost")

func (l *lossy) ForwardSet(ctx context.Context, nodeID string, item *cache.Item, replicate bool) error {
	err := l.InProcessTransport.ForwardSet(ctx, nodeID, item, replicate)
	if err == nil && l.lose[nodeID] {
		return errLost
	}

	return err
}

// attempt is one write (val nil: a delete) and whether it was acknowledged.
type attempt struct {
	val   any
	acked bool
}

func need(lvl backend.ConsistencyLevel, n int) int {
	if lvl == backend.ConsistencyAll {
		return n
	}

	return n/2 + 1
}

func TestC23(t *testing.T) {
	vh.Run(t, "histories", "3-6 nodes, replication 2-5, quorum or all-replica reads and writes, 25-80 steps of sets, removes and reads through random nodes while single links and whole nodes fail and heal and answers to delivered writes get lost; every acknowledgement is backed by enough owners holding the value, every read reaching enough owners returns the latest acknowledged write or one reported as failed, every other read nothing; non-trivial: a read that had to find the value although an owner answered without it or with an older one, and a write that failed its quorum", 700, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(3, 6).Draw(rt, "nodes")
		rf := rapid.IntRange(2, 5).Draw(rt, "rf")
		quorums := rapid.SampledFrom([]backend.ConsistencyLevel{backend.ConsistencyQuorum, backend.ConsistencyQuorum, backend.ConsistencyAll})
		wl, rl := quorums.Draw(rt, "write"), quorums.Draw(rt, "read")
		cl := newClu(rt, 0, rf)
		withHints := rapid.Bool().Draw(rt, "hints")
		losses := make([]*lossy, n)

		for i := range n {
			opts := []backend.DistMemoryOption{
				backend.WithDistReadConsistency(rl),
				backend.WithDistWriteConsistency(wl),
				backend.WithDistParallelReads(rapid.Bool().Draw(rt, "parallel")),
				backend.WithDistShardCount(rapid.SampledFrom([]int{1, 4}).Draw(rt, "shards")),
			}
			if withHints {
				opts = append(opts, backend.WithDistHintTTL(1<<40))
			}

			dm := cl.add(rt, i, opts...)
			losses[i] = &lossy{cl.tr[i], map[string]bool{}}
			dm.SetTransport(losses[i])
		}
		defer cl.stop()

		rf = min(rf, n)
		c.Log("%d nodes rf %d write %v read %v hints %v", n, rf, wl, rl, withHints)

		keys := rapid.SliceOfNDistinct(keyGen, 1, 2, rapid.ID[string]).Draw(rt, "keys")
		hist := map[string][]attempt{}

		reach := func(from int, owners []int) []int {
			var out []int
			for _, o := range owners {
				if o == from || !cl.down[[2]int{from, o}] {
					out = append(out, o)
				}
			}

			return out
		}

		var hidden, failed bool

		seq := 0

		step := func(op, node int, key string) {
			owners := cl.owners(key)
			dm := cl.nodes[node]

			switch {
			case op < 5:
				seq++
				v := valGen(seq).Draw(rt, "val")
				err := dm.Set(bg, mkItem(key, v))
				c.Log("set n%d %q=%v -> %v", node, key, v, err)
				hist[key] = append(hist[key], attempt{v, err == nil})
				failed = failed || errors.Is(err, sentinel.ErrQuorumFailed)

				holding := 0
				for _, o := range owners {
					if s := contents(cl.nodes[o])[key]; s.has && sameVal(s.val, v) {
						holding++
					}
				}

				if err == nil && holding < need(wl, rf) {
					rt.Fatalf("set acknowledged with %d of %d owners holding it\n%s", holding, need(wl, rf), c.Desc())
				}

				if err != nil && len(reach(owners[0], owners)) == rf && len(losses[owners[0]].lose) == 0 && len(losses[node].lose) == 0 &&
					(node == owners[0] || !cl.down[[2]int{node, owners[0]}]) {
					rt.Fatalf("set failed (%v) although every owner was reachable\n%s", err, c.Desc())
				}
			case op == 5: // remove
				coord := -1

				switch {
				case node == owners[0]:
					coord = node
				case !cl.down[[2]int{node, owners[0]}]:
					coord = owners[0]
				case slices.Contains(owners, node):
					coord = node
				}

				err := dm.Remove(bg, key)
				c.Log("remove n%d %q -> %v", node, key, err)

				if (coord < 0) != (err != nil) {
					rt.Fatalf("remove through node %d, coordinator %d: %v\n%s", node, coord, err, c.Desc())
				}

				if coord >= 0 {
					hist[key] = append(hist[key], attempt{nil, len(reach(coord, owners)) >= need(wl, rf)})
				}
			case op < 11: // read
				var (
					got *cache.Item
					ok  bool
				)

				reached := reach(node, owners)
				lacking := 0
				h := hist[key]
				last := len(h) - 1

				for last >= 0 && !h[last].acked {
					last--
				}

				for _, o := range reached {
					if s := contents(cl.nodes[o])[key]; last >= 0 && h[last].val != nil && (!s.has || !sameVal(s.val, h[last].val)) {
						lacking++
					}
				}

				vhWithin(rt, "read", func() { got, ok = dm.Get(bg, key) })
				c.Log("get n%d %q -> %v", node, key, got)

				if len(reached) < need(rl, rf) {
					if ok {
						rt.Fatalf("node %d reaches only %d owners of %q and still reads %v\n%s", node, len(reached), key, got.Value, c.Desc())
					}

					return
				}

				var val any
				if ok {
					val = got.Value
				}

				allowed := last < 0 && !ok
				for i, a := range h {
					allowed = allowed || ((i == last || !a.acked) && sameVal(a.val, val))
				}

				if !allowed {
					rt.Fatalf("node %d reads %v of %q, last acknowledged: %v (attempt %d of %v)\n%s", node, val, key, h[max(last, 0)], last, h, c.Desc())
				}

				hidden = hidden || (lacking > 0 && ok)
			case op < 13: // another minority of the owners fails
				for i := range n {
					cl.isolate(i, true)
				}

				out := rapid.SliceOfNDistinct(rapid.SampledFrom(owners), 0, max(0, rf-need(wl, rf)), rapid.ID[int]).Draw(rt, "failing")
				for _, o := range out {
					cl.isolate(o, false)
				}

				c.Log("failing: %v", out)
			case op == 13: // a node fails or heals
				up := rapid.Bool().Draw(rt, "up")
				cl.isolate(node, up)
				c.Log("isolate n%d up=%v", node, up)
			case op == 14:
				other := rapid.IntRange(0, n-1).Draw(rt, "other")
				if other != node {
					up := rapid.Bool().Draw(rt, "up")
					cl.link(node, other, up)
					c.Log("link n%d->n%d up=%v", node, other, up)
				}
			case op == 15:
				for i := range n {
					cl.isolate(i, true)
				}

				for _, l := range losses {
					clear(l.lose)
				}

				c.Log("heal all")
			default:
				other := fmt.Sprintf("n%d", rapid.IntRange(0, n-1).Draw(rt, "lossy"))
				if losses[node].lose[other] {
					delete(losses[node].lose, other)
				} else {
					losses[node].lose[other] = true
				}

				c.Log("answers n%d->%s lost: %v", node, other, losses[node].lose[other])
			}
		}

		for range rapid.IntRange(15, 50).Draw(rt, "steps") {
			node := rapid.IntRange(0, n-1).Draw(rt, "node")
			key := rapid.SampledFrom(keys).Draw(rt, "key")
			op := rapid.IntRange(0, 20).Draw(rt, "op")

			if op < 17 {
				step(op, node, key)

				continue
			}

			// a write during one outage, read during another
			step(12, node, key)
			step(rapid.SampledFrom([]int{0, 0, 0, 5}).Draw(rt, "w"), node, key)
			step(12, node, key)
			step(10, rapid.IntRange(0, n-1).Draw(rt, "reader"), key)
		}

		c.LabelIf(hidden, "hidden")
		c.LabelIf(failed, "failed")
		c.NT(hidden && failed)
	})
}
