package root_test

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/sentinel"
)

type timed struct {
	v    any
	ttl  time.Duration
	last time.Time // last set or access
	n    uint32    // reads since it was set
}

func (e *timed) expired(now time.Time) bool { return e.ttl > 0 && now.Sub(e.last) > e.ttl }

func TestC18Model(t *testing.T) {
	vh.Run(t, "model", "histories of sets with and without time-to-live, all four read paths, triggers and clock advances (virtual time, including one nanosecond either side of an expiry) over sweep intervals and debounces; every read is compared with a model in which a read or write restarts the item's time; the items left after a sweep are exactly the live ones; non-trivial: an item expired and a live one with a time-to-live was read", 1500, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			s := drawRoomy(rt)
			s.debounce = rapid.SampledFrom([]time.Duration{0, 0, 7 * time.Millisecond, time.Second}).Draw(rt, "debounce2")
			s.expireIvl = rapid.SampledFrom([]time.Duration{0, 13 * time.Millisecond, time.Second, time.Hour}).Draw(rt, "expire2")
			c.Log("%v", s)

			ctx := context.Background()
			hc := s.build(ctx, rt.Fatalf)
			start := time.Now()

			defer func() { _ = hc.Stop(ctx) }()

			model := map[string]*timed{}

			var (
				expiredOnce, readLive bool
				accepted              time.Time // when the last on-demand sweep was accepted
				ticked                = start
			)

			sweep := func() { // all expired items are removed
				for k, e := range model {
					if e.expired(time.Now()) {
						delete(model, k)
					}
				}
			}

			trigger := func() {
				if s.debounce > 0 && time.Since(accepted) < s.debounce {
					return
				}

				accepted = time.Now()

				sweep()
			}

			// read is called for every read access; it returns the live entry, if any
			read := func(k string) *timed {
				e := model[k]
				if e == nil {
					return nil
				}

				if e.expired(time.Now()) {
					expiredOnce = true

					return nil
				}

				readLive = readLive || e.ttl > 0
				e.last = time.Now()
				e.n++

				return e
			}

			check := func(what string) {
				synctest.Wait()

				got := listing(rt, hc)

				for k, e := range model {
					if it := got[k]; it == nil || !same(it.Value, e.v) || it.Expiration != e.ttl || !it.LastAccess.Equal(e.last) || it.AccessCount != e.n {
						rt.Fatalf("after %s at %v: key %q is %+v, model %+v", what, time.Since(start), k, it, *e)
					}
				}

				if len(got) != len(model) || hc.Count(ctx) != len(model) {
					for k := range got {
						if model[k] == nil {
							rt.Fatalf("after %s at %v: expired key %q was not swept", what, time.Since(start), k)
						}
					}

					rt.Fatalf("after %s: count %d, model %d", what, hc.Count(ctx), len(model))
				}
			}

			steps := rapid.IntRange(2, 45).Draw(rt, "steps")
			for range steps {
				op := rapid.SampledFrom([]string{"set", "set", "get", "get", "info", "multi", "orset", "remove", "trigger", "sleep", "sleep", "edge"}).Draw(rt, "op")

				switch op {
				case "set":
					k, v := drawKey(rt), drawVal(rt)
					ttl := rapid.SampledFrom([]time.Duration{0, 1, time.Microsecond, 5 * time.Millisecond, 11 * time.Millisecond, 40 * time.Millisecond, 2 * time.Second, time.Hour, 1 << 62}).Draw(rt, "ttl")
					c.Log("set %q %v", k, ttl)

					if err := hc.Set(ctx, k, v.v, ttl); err != nil {
						rt.Fatalf("Set: %v", err)
					}

					model[k] = &timed{v.v, ttl, time.Now(), 0}
				case "get":
					k := drawKey(rt)
					c.Log("get %q", k)

					got, ok := hc.Get(ctx, k)
					was := model[k]
					e := read(k)

					if ok != (e != nil) || ok && !same(got, e.v) {
						rt.Fatalf("at %v Get(%q) = %v, %v; model %+v", time.Since(start), k, got, ok, e)
					}

					if was != nil && e == nil {
						trigger()
					}
				case "info":
					k := drawKey(rt)
					c.Log("info %q", k)

					got, ok := hc.GetWithInfo(ctx, k)
					was := model[k]
					e := read(k)

					if ok != (e != nil) || ok && (!same(got.Value, e.v) || got.Expiration != e.ttl || got.Expired()) {
						rt.Fatalf("at %v GetWithInfo(%q) = %+v, %v; model %+v", time.Since(start), k, got, ok, e)
					}

					if was != nil && e == nil {
						trigger()
					}
				case "multi":
					keys := rapid.SliceOfNDistinct(rapid.SampledFrom(keyPool), 0, 6, rapid.ID[string]).Draw(rt, "keys")
					c.Log("multi %q", keys)

					hits, miss := hc.GetMultiple(ctx, keys...)
					stale := false

					for _, k := range keys {
						was := model[k]
						e := read(k)
						got, ok := hits[k]

						if ok != (e != nil) || ok && !same(got, e.v) {
							rt.Fatalf("at %v GetMultiple(%q): %q = %v, %v; model %+v", time.Since(start), keys, k, got, ok, e)
						}

						if !ok && !errors.Is(miss[k], sentinel.ErrKeyNotFound) {
							rt.Fatalf("GetMultiple(%q): miss of %q is %v", keys, k, miss[k])
						}

						stale = stale || was != nil && e == nil
					}

					if stale {
						trigger()
					}
				case "orset":
					k, v := drawKey(rt), drawVal(rt)
					ttl := rapid.SampledFrom([]time.Duration{0, 9 * time.Millisecond}).Draw(rt, "ttl")
					c.Log("orset %q %v", k, ttl)

					got, err := hc.GetOrSet(ctx, k, v.v, ttl)
					was := model[k]
					e := read(k)

					switch {
					case was != nil && e == nil: // expired but not swept
						if err == nil && same(got, v.v) {
							model[k] = &timed{v.v, ttl, time.Now(), 0} // stored afresh
						} else if !errors.Is(err, sentinel.ErrKeyExpired) || got != nil {
							rt.Fatalf("at %v GetOrSet(%q) = %v, %v of an expired item", time.Since(start), k, got, err)
						} else {
							trigger()
						}
					case e != nil:
						if err != nil || !same(got, e.v) {
							rt.Fatalf("at %v GetOrSet(%q) = %v, %v; model %+v", time.Since(start), k, got, err, e)
						}
					default:
						if err != nil || !same(got, v.v) {
							rt.Fatalf("at %v GetOrSet(%q) = %v, %v of an absent item", time.Since(start), k, got, err)
						}

						model[k] = &timed{v.v, ttl, time.Now(), 0}
					}
				case "remove":
					k := drawKey(rt)
					c.Log("remove %q", k)

					if err := hc.Remove(ctx, k); err != nil {
						rt.Fatalf("Remove: %v", err)
					}

					delete(model, k)
				case "trigger":
					c.Log("trigger")
					hc.TriggerExpiration()
					trigger()
				case "sleep", "edge":
					d := rapid.SampledFrom([]time.Duration{1, time.Millisecond, 6 * time.Millisecond, 30 * time.Millisecond, 3 * time.Second, 2 * time.Hour}).Draw(rt, "d")

					if op == "edge" { // right up to, or one tick past, some item's expiry
						k := drawKey(rt)
						if e := model[k]; e != nil && e.ttl > 0 && e.ttl < time.Hour {
							left := e.ttl - time.Since(e.last) + time.Duration(rapid.IntRange(0, 1).Draw(rt, "past"))
							if left > 0 {
								d = left
							}
						}
					}

					if s.expireIvl > 0 {
						d = min(d, 250*s.expireIvl)
					}

					if s.evictIvl > 0 {
						d = min(d, 2000*s.evictIvl)
					}

					c.Log("sleep %v", d)

					// the background sweep runs at every multiple of the interval
					end := time.Now().Add(d)

					if s.expireIvl > 0 {
						for !ticked.Add(s.expireIvl).After(end) {
							ticked = ticked.Add(s.expireIvl)
							time.Sleep(time.Until(ticked))
							synctest.Wait()
							sweep()
							check("tick")
						}
					}

					time.Sleep(time.Until(end))
				}

				check(op)
			}

			c.NT(expiredOnce && readLive)
			c.LabelIf(s.debounce > 0, "debounce")
			c.LabelIf(s.expireIvl > 0, "background sweep")
		})
	})
}

func TestC18SweepRace(t *testing.T) {
	vh.Run(t, "sweep-race", "dozens of expired keys are rewritten, partly deleted again and partly re-read by 1..4 goroutines while triggered and periodic sweeps run; no rewritten value may be lost and no expired value served, and once quiet one trigger leaves no expired item; non-trivial: >=20 keys rewritten", 200, func(rt *rapid.T, c *vh.Case) {
		s := drawRoomy(rt)
		s.capacity, s.debounce = 0, 0
		s.expireIvl = rapid.SampledFrom([]time.Duration{0, time.Millisecond}).Draw(rt, "expire2")
		s.evictIvl = 0
		n := rapid.IntRange(1, 4).Draw(rt, "n")
		keys := rapid.IntRange(5, 150).Draw(rt, "keys")
		rounds := rapid.IntRange(1, 4).Draw(rt, "rounds")
		orset := rapid.Bool().Draw(rt, "orset")
		c.Log("%v n=%d keys=%d rounds=%d orset=%v", s, n, keys, rounds, orset)

		ctx := context.Background()
		hc := s.build(ctx, rt.Fatalf)

		defer func() { _ = hc.Stop(ctx) }()

		for r := range rounds {
			for i := range keys {
				if err := hc.Set(ctx, fmt.Sprint(i), fmt.Sprintf("old%d", r), time.Nanosecond); err != nil {
					rt.Fatalf("Set: %v", err)
				}
			}

			time.Sleep(time.Microsecond)

			var (
				wg   sync.WaitGroup
				mu   sync.Mutex
				fail string
			)

			note := func(f string, a ...any) {
				mu.Lock()
				defer mu.Unlock()

				fail = fmt.Sprintf(f, a...)
			}

			wg.Go(func() {
				for range 20 {
					hc.TriggerExpiration()
				}
			})

			for g := range n {
				wg.Go(func() {
					for i := g; i < keys; i += n {
						k := fmt.Sprint(i)

						if i%3 == 0 {
							if v, ok := hc.Get(ctx, k); ok {
								note("expired value %v of %s served", v, k)
							}
						}

						want := fmt.Sprintf("new%d.%d", r, i)

						if orset && i%2 == 0 {
							if got, err := hc.GetOrSet(ctx, k, want, 0); err == nil && got != want {
								note("GetOrSet(%s) = %v", k, got)
							} else if err != nil && !errors.Is(err, sentinel.ErrKeyExpired) {
								note("GetOrSet(%s): %v", k, err)
							}
						}

						if err := hc.Set(ctx, k, want, 0); err != nil {
							note("Set(%s): %v", k, err)
						}

						if v, ok := hc.Get(ctx, k); !ok || v != want {
							note("right after writing %s=%s it reads %v, %v", k, want, v, ok)
						}
					}
				})
			}

			wg.Wait()

			if fail != "" {
				rt.Fatalf("round %d: %s", r, fail)
			}

			time.Sleep(200 * time.Microsecond)

			for i := range keys {
				want := fmt.Sprintf("new%d.%d", r, i)
				if v, ok := hc.Get(ctx, fmt.Sprint(i)); !ok || v != want {
					rt.Fatalf("round %d: key %d lost its new value %s: %v, %v", r, i, want, v, ok)
				}
			}
		}

		// a late expired item still goes after one trigger
		_ = hc.Set(ctx, "late", "x", time.Nanosecond)

		time.Sleep(time.Microsecond)

		if _, ok := hc.Get(ctx, "late"); ok {
			rt.Fatalf("expired item served")
		}

		if !vh.Eventually(2*time.Second, func() bool { return hc.Count(ctx) == keys }) {
			rt.Fatalf("the sweep triggered by reading an expired item never ran: count %d, want %d", hc.Count(ctx), keys)
		}

		c.NT(keys >= 20)
	})
}
