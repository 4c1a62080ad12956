package client_test

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"slices"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/client"
)

// TestC09Fresh: calls that overlap. A key has one writer, so its history is
// known: a read returns nothing older than the last write that was done when it
// began, nothing that had not begun when it ended, ends with its own context
// only, and what its caller does to the bytes is not seen by another.
func TestC09Fresh(t *testing.T) {
	rule := "1-2 clients of a server with generated transit times (virtual time): one writer per key (Set, Delete) and 1-5 readers (Get, GetItem, BatchGet), several at once, some with a short patience; non-trivial = two overlapping reads of one key through one client of which the later began after a write had ended that the earlier overlapped, or of which the earlier gave up"
	vh.Run(t, "fresh", rule, 500, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() { c09fresh(rt, c) })
	})
}

func c09fresh(rt *rapid.T, c *vh.Case) {
	net, ref := newNet(), newRef()

	type trip struct{ there, back int }

	trips := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) trip {
		return trip{rapid.IntRange(0, 12).Draw(t, "there"), rapid.IntRange(0, 12).Draw(t, "back")}
	}), 1, 7).Draw(rt, "trips")

	var (
		turn atomic.Int64
		busy sync.Mutex
	)

	wait := func(ctx context.Context, ms int) error {
		if ms == 0 {
			return ctx.Err()
		}

		select {
		case <-time.After(time.Duration(ms) * time.Millisecond):
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	}

	net.set("srv:1", func(r *http.Request, b []byte) (*http.Response, error) {
		tr := trips[int(turn.Add(1)-1)%len(trips)]

		if err := wait(r.Context(), tr.there); err != nil {
			return nil, err
		}

		busy.Lock()
		resp, err := ref.serve(r, b)
		busy.Unlock()

		if w := wait(r.Context(), tr.back); w != nil {
			return nil, w
		}

		return resp, err
	})

	cls := make([]*client.Client, rapid.IntRange(1, 2).Draw(rt, "clients"))
	for i := range cls {
		cl, err := client.New([]string{"http://srv:1"}, client.WithHTTPClient(&http.Client{Transport: net}))
		if err != nil {
			rt.Fatalf("New: %v", err)
		}

		cls[i] = cl
	}

	type step struct {
		cl, pause, key, patience int
		remove                   bool
		kind                     string
	}

	type write struct {
		begin, end int64
		val        string // "": absent
	}

	type read struct {
		step

		begin, end int64
		val        string
		err        error
	}

	keys := []string{"k0", "k 1/é"}[:rapid.IntRange(1, 2).Draw(rt, "keys")]
	writes := make([][]write, len(keys))
	plans := make([][]step, len(keys))
	draw := func(lo, hi int) []step {
		out := []step{}

		for range rapid.IntRange(lo, hi).Draw(rt, "steps") {
			s := step{
				cl: rapid.IntRange(0, len(cls)-1).Draw(rt, "cl"), pause: rapid.IntRange(0, 9).Draw(rt, "pause"), key: rapid.IntRange(0, len(keys)-1).Draw(rt, "key"),
				remove: rapid.IntRange(0, 4).Draw(rt, "rm") == 0, kind: rapid.SampledFrom([]string{"get", "get", "get", "item", "batch"}).Draw(rt, "kind"),
			}
			if rapid.IntRange(0, 4).Draw(rt, "short") == 0 {
				s.patience = rapid.IntRange(1, 10).Draw(rt, "patience")
			}

			out = append(out, s)
		}

		return out
	}

	for k := range keys {
		plans[k] = draw(1, 7)
		writes[k] = []write{{}}
	}

	readers := make([][]step, rapid.IntRange(1, 5).Draw(rt, "readers"))
	for i := range readers {
		readers[i] = draw(2, 10)
	}

	var (
		clock atomic.Int64
		wg    sync.WaitGroup
		mu    sync.Mutex
		reads []read
		fail  string
	)

	for k, plan := range plans {
		wg.Go(func() {
			for j, st := range plan {
				time.Sleep(time.Duration(st.pause) * time.Millisecond)

				last := writes[k][len(writes[k])-1]
				w := write{begin: clock.Add(1)}

				var err error
				if st.remove && last.val != "" {
					err = cls[st.cl].Delete(bg, keys[k])
				} else {
					w.val = fmt.Sprintf("v%d of %d", j, k)
					err = cls[st.cl].Set(bg, keys[k], []byte(w.val), 0)
				}

				w.end = clock.Add(1)
				writes[k] = append(writes[k], w)

				if err != nil {
					mu.Lock()
					fail = fmt.Sprintf("write %d of %q: %v", j, keys[k], err)
					mu.Unlock()
				}
			}
		})
	}

	for _, plan := range readers {
		wg.Go(func() {
			for _, st := range plan {
				time.Sleep(time.Duration(st.pause) * time.Millisecond)

				ctx, cancel := context.WithCancel(bg)
				if st.patience > 0 {
					ctx, cancel = context.WithTimeout(bg, time.Duration(st.patience)*time.Millisecond)
				}

				r := read{step: st, begin: clock.Add(1)}

				var b []byte

				switch st.kind {
				case "get":
					b, r.err = cls[st.cl].Get(ctx, keys[st.key])
				case "item":
					it, err := cls[st.cl].GetItem(ctx, keys[st.key])
					if r.err = err; err == nil {
						b = it.Value
					}
				default:
					rows, err := cls[st.cl].BatchGet(ctx, keys)
					if r.err = err; err == nil && rows[st.key].Item != nil {
						b = rows[st.key].Item.Value
					}
				}

				r.val = string(b)
				for i := range b {
					b[i] = '#'
				}

				r.end = clock.Add(1)

				cancel()

				if errors.Is(r.err, client.ErrNotFound) {
					r.err = nil
				}

				mu.Lock()
				reads = append(reads, r)
				mu.Unlock()
			}
		})
	}

	wg.Wait()

	if fail != "" {
		rt.Fatalf("%s", fail)
	}

	telling := false

	for _, r := range reads {
		if r.err != nil {
			if r.patience == 0 || !errors.Is(r.err, context.DeadlineExceeded) {
				rt.Fatalf("%s of %q with patience %d: %v", r.kind, keys[r.key], r.patience, r.err)
			}

			continue
		}

		h := writes[r.key]

		if !slices.ContainsFunc(h, func(w write) bool {
			i := slices.Index(h, w)

			return w.val == r.val && w.begin < r.end && (i+1 == len(h) || h[i+1].end > r.begin)
		}) {
			rt.Fatalf("%s of %q during %d-%d: %q; history %+v", r.kind, keys[r.key], r.begin, r.end, r.val, h)
		}

		for _, e := range reads {
			if e.key == r.key && e.cl == r.cl && e.begin < r.begin && r.begin < e.end {
				telling = telling || e.err != nil || slices.ContainsFunc(h[1:], func(w write) bool { return e.begin < w.end && w.end < r.begin })
			}
		}
	}

	c.Log("%d clients, %d reads, writes %+v, trips %v", len(cls), len(reads), writes, trips)
	c.NT(telling)
}
