package root_test

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/sentinel"
)

type entry struct {
	v       val
	ttl     time.Duration
	touches uint32
}

var keyPool = []string{"a", "b", "c", "user:1", "user:2", "ключ", " lead", "trail ", "x/y?z=1", "\x00", "A", "long-" + fmt.Sprint(make([]int, 40)), "k1", "k2", "k3", "k4"}

func drawKey(rt *rapid.T) string { return rapid.SampledFrom(keyPool).Draw(rt, "key") }

func drawRoomy(rt *rapid.T) setup {
	s := setup{
		alg:      rapid.SampledFrom(algs).Draw(rt, "alg"),
		shards:   rapid.SampledFrom([]int{0, 1, 2, 8, 32}).Draw(rt, "shards"),
		capacity: rapid.SampledFrom([]int{0, len(keyPool), len(keyPool) + 1, 1000}).Draw(rt, "cap"),
		maxSize:  rapid.SampledFrom([]int64{0, 1 << 20}).Draw(rt, "maxsize"),
		maxEvict: rapid.SampledFrom([]uint{0, 1, 3, 100}).Draw(rt, "maxevict"),
		evictIvl: rapid.SampledFrom([]time.Duration{0, time.Second, time.Hour}).Draw(rt, "evict"),
		trigBuf:  rapid.IntRange(0, 3).Draw(rt, "buf"),
		debounce: rapid.SampledFrom([]time.Duration{0, 50 * time.Millisecond}).Draw(rt, "debounce"),
	}
	s.expireIvl = rapid.SampledFrom([]time.Duration{0, time.Second, time.Hour}).Draw(rt, "expire")

	return s
}

func TestC16Model(t *testing.T) {
	vh.Run(t, "model", "histories of all cache operations over 16 odd keys and 8 value kinds, under every eviction policy, shard count, interval and option mix but without pressure, compared step by step with a plain map; invalid writes interleaved; background ticks run in virtual time; non-trivial: an overwrite, a removal and an invalid write in one history", 900, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			s := drawRoomy(rt)
			c.Log("%v", s)

			ctx := context.Background()
			hc := s.build(ctx, rt.Fatalf)

			defer func() { _ = hc.Stop(ctx) }()

			model := map[string]*entry{}

			var overwrote, removed, invalid bool

			check := func(what string) {
				synctest.Wait()

				got := listing(rt, hc)
				if len(got) != len(model) || hc.Count(ctx) != len(model) {
					rt.Fatalf("after %s: %d listed, count %d, model holds %d", what, len(got), hc.Count(ctx), len(model))
				}

				for k, e := range model {
					it := got[k]
					if it == nil || !same(it.Value, e.v.v) || it.Expiration != e.ttl || it.AccessCount != e.touches {
						rt.Fatalf("after %s: key %q listed as %+v, model %+v", what, k, it, *e)
					}
				}
			}

			steps := rapid.IntRange(1, 40).Draw(rt, "steps")
			for range steps {
				op := rapid.SampledFrom([]string{"set", "set", "set", "get", "info", "getorset", "multi", "remove", "clear", "bad", "bg", "sleep"}).Draw(rt, "op")

				switch op {
				case "set":
					k, v := drawKey(rt), drawVal(rt)
					ttl := rapid.SampledFrom([]time.Duration{0, 24 * time.Hour}).Draw(rt, "ttl")
					c.Log("set %q %T", k, v.v)

					if err := hc.Set(ctx, k, v.v, ttl); err != nil {
						rt.Fatalf("Set(%q): %v", k, err)
					}

					overwrote = overwrote || model[k] != nil
					model[k] = &entry{v: v, ttl: ttl}
				case "get":
					k := drawKey(rt)
					c.Log("get %q", k)

					got, ok := hc.Get(ctx, k)
					e := model[k]

					if ok != (e != nil) || ok && !same(got, e.v.v) {
						rt.Fatalf("Get(%q) = %v, %v; model %v", k, got, ok, e)
					}

					if e != nil {
						e.touches++
					}
				case "info":
					k := drawKey(rt)
					c.Log("info %q", k)

					got, ok := hc.GetWithInfo(ctx, k)
					e := model[k]

					if ok != (e != nil) {
						rt.Fatalf("GetWithInfo(%q) = %v; model %v", k, ok, e)
					}

					if !ok {
						break
					}

					e.touches++

					if got.Key != k || !same(got.Value, e.v.v) || got.Expiration != e.ttl || e.v.size >= 0 && got.Size != e.v.size || got.AccessCount != e.touches {
						rt.Fatalf("GetWithInfo(%q) = %+v; model %+v", k, *got, *e)
					}

					// the caller owns what it got: changing it must not reach the cache
					got.Value, got.Key, got.Expiration = "mine", "mine", -1
				case "getorset":
					k, v := drawKey(rt), drawVal(rt)
					c.Log("getorset %q", k)

					got, err := hc.GetOrSet(ctx, k, v.v, 0)
					if err != nil {
						rt.Fatalf("GetOrSet(%q): %v", k, err)
					}

					if model[k] == nil {
						model[k] = &entry{v: v}
					} else {
						model[k].touches++
					}

					if !same(got, model[k].v.v) {
						rt.Fatalf("GetOrSet(%q) = %v, model %v", k, got, model[k].v.v)
					}
				case "multi":
					keys := rapid.SliceOfN(rapid.SampledFrom(append([]string{"none1", "none2", "none3", "none4"}, keyPool...)), 0, 24).Draw(rt, "keys")
					c.Log("multi %q", keys)

					hits, miss := hc.GetMultiple(ctx, keys...)
					want := map[string]bool{}

					for _, k := range keys {
						want[k] = true

						if e := model[k]; e != nil {
							e.touches++
						}
					}

					for k := range want {
						e := model[k]
						got, ok := hits[k]
						err, failed := miss[k]

						if e != nil && (!ok || failed || !same(got, e.v.v)) || e == nil && (ok || !errors.Is(err, sentinel.ErrKeyNotFound)) {
							rt.Fatalf("GetMultiple(%q): key %q hit %v=%v, miss %v=%v, model %v", keys, k, ok, got, failed, err, e)
						}
					}

					if len(hits)+len(miss) != len(want) {
						rt.Fatalf("GetMultiple(%q) reports %d hits and %d misses", keys, len(hits), len(miss))
					}
				case "remove":
					keys := rapid.SliceOfN(rapid.SampledFrom(keyPool), 0, 4).Draw(rt, "keys")
					c.Log("remove %q", keys)

					if err := hc.Remove(ctx, keys...); err != nil {
						rt.Fatalf("Remove(%q): %v", keys, err)
					}

					for _, k := range keys {
						removed = removed || model[k] != nil
						delete(model, k)
					}
				case "clear":
					if rapid.IntRange(0, 2).Draw(rt, "really") != 0 {
						break
					}

					c.Log("clear")

					if err := hc.Clear(ctx); err != nil {
						rt.Fatalf("Clear: %v", err)
					}

					removed = removed || len(model) > 0
					clear(model)
				case "bad":
					invalid = true
					badWrite(rt, c, hc, drawKey(rt), model)
				case "bg":
					c.Log("trigger")
					hc.TriggerExpiration()
					hc.TriggerEviction(ctx)
				case "sleep":
					d := rapid.SampledFrom([]time.Duration{time.Millisecond, time.Second, time.Minute}).Draw(rt, "d")
					c.Log("sleep %v", d)
					time.Sleep(d)
				}

				check(op)
			}

			for _, k := range keyPool {
				got, ok := hc.Get(ctx, k)
				if e := model[k]; ok != (e != nil) || ok && !same(got, e.v.v) {
					rt.Fatalf("finally Get(%q) = %v, %v; model %v", k, got, ok, e)
				}
			}

			c.NT(overwrote && removed && invalid)
		})
	})
}

// badWrite offers a write the cache must refuse.
func badWrite(rt *rapid.T, c *vh.Case, hc *hypercache.HyperCache[mem], key string, model map[string]*entry) {
	ctx := context.Background()

	var (
		v    any = "v"
		ttl  time.Duration
		want error
	)

	bad := rapid.IntRange(0, 3).Draw(rt, "bad")
	switch bad {
	case 0:
		key = rapid.SampledFrom([]string{"", " ", "\t\n", "\u00a0 "}).Draw(rt, "emptykey")
		want = sentinel.ErrInvalidKey
	case 1:
		v = nil
		want = sentinel.ErrNilValue
	case 2:
		ttl = -rapid.SampledFrom([]time.Duration{1, time.Second, 1 << 62}).Draw(rt, "negative")
		want = sentinel.ErrInvalidExpiration
	default:
		v = unsizable{}
		want = sentinel.ErrInvalidSize
	}

	orSet := rapid.Bool().Draw(rt, "orset")
	c.Log("bad %q %v %v orset=%v", key, v, ttl, orSet)

	var err error

	if orSet {
		if model[key] != nil {
			return // a hit, not a write
		}

		_, err = hc.GetOrSet(ctx, key, v, ttl)
	} else {
		err = hc.Set(ctx, key, v, ttl)
	}

	if err == nil {
		rt.Fatalf("write of key %q value %v ttl %v was accepted", key, v, ttl)
	}

	if !errors.Is(err, want) {
		rt.Fatalf("write of key %q value %v ttl %v failed with %v, want %v", key, v, ttl, err, want)
	}
}

func TestC16Concurrent(t *testing.T) {
	vh.Run(t, "private-keys", "2..6 goroutines run random histories on disjoint keys of one shared cache, each checking every result against its own map; non-trivial: >=3 goroutines with an overwrite and a removal", 150, func(rt *rapid.T, c *vh.Case) {
		s := drawRoomy(rt)
		s.capacity = rapid.SampledFrom([]int{0, 1000}).Draw(rt, "cap2")
		n := rapid.IntRange(2, 6).Draw(rt, "n")
		c.Log("%v n=%d", s, n)

		type step struct {
			op, key int
			v       string
		}

		plans := make([][]step, n)
		for i := range plans {
			m := rapid.IntRange(5, 40).Draw(rt, "m")
			for j := range m {
				plans[i] = append(plans[i], step{rapid.IntRange(0, 6).Draw(rt, "op"), rapid.IntRange(0, 3).Draw(rt, "k"), fmt.Sprintf("%d.%d", i, j)})
			}
		}

		ctx := context.Background()
		hc := s.build(ctx, rt.Fatalf)

		defer func() { _ = hc.Stop(ctx) }()

		errs := make(chan string, n)

		for i := range n {
			go func() {
				errs <- func() string {
					own := map[string]string{}

					for _, st := range plans[i] {
						k := fmt.Sprintf("g%d-%d", i, st.key)
						want, has := own[k]

						switch st.op {
						case 0, 1, 2:
							if err := hc.Set(ctx, k, st.v, 0); err != nil {
								return fmt.Sprintf("Set(%s): %v", k, err)
							}

							own[k] = st.v
						case 3:
							if err := hc.Remove(ctx, k); err != nil {
								return fmt.Sprintf("Remove(%s): %v", k, err)
							}

							delete(own, k)
						case 4:
							got, err := hc.GetOrSet(ctx, k, st.v, 0)
							if !has {
								own[k], want = st.v, st.v
							}

							if err != nil || got != want {
								return fmt.Sprintf("GetOrSet(%s) = %v, %v want %v", k, got, err, want)
							}
						case 5:
							got, ok := hc.Get(ctx, k)
							if ok != has || ok && got != want {
								return fmt.Sprintf("Get(%s) = %v, %v want %v, %v", k, got, ok, want, has)
							}
						default:
							hc.TriggerExpiration()
							hc.TriggerEviction(ctx)

							got, _ := hc.GetMultiple(ctx, k)
							if v, ok := got[k]; ok != has || ok && v != want {
								return fmt.Sprintf("GetMultiple(%s) = %v want %v, %v", k, got, want, has)
							}
						}
					}

					for k, want := range own {
						if got, ok := hc.Get(ctx, k); !ok || got != want {
							return fmt.Sprintf("finally Get(%s) = %v, %v want %v", k, got, ok, want)
						}
					}

					return ""
				}()
			}()
		}

		var fails []string

		for range n {
			if e := <-errs; e != "" {
				fails = append(fails, e)
			}
		}

		slices.Sort(fails)

		if len(fails) > 0 {
			rt.Fatalf("%v", fails)
		}

		c.NT(n >= 3)
	})
}

// TestC16Large: the same rules at sizes a real cache has: thousands of items,
// values up to megabytes, and single calls naming many keys.
func TestC16Large(t *testing.T) {
	vh.Run(t, "large", "300..6000 items under every policy, values up to 3 MiB, GetMultiple and Remove of up to all keys in one call, compared with a plain map; non-trivial = all", 30, func(rt *rapid.T, c *vh.Case) {
		s := drawRoomy(rt)
		s.capacity, s.maxSize = 0, 0
		s.evictIvl, s.expireIvl = 0, 0
		ctx := context.Background()
		hc := s.build(ctx, rt.Fatalf)

		defer func() { _ = hc.Stop(ctx) }()

		n := rapid.SampledFrom([]int{300, 700, 1100, 2500, 6000}).Draw(rt, "n")
		fat := rapid.SampledFrom([]int{0, 1 << 16, 1 << 20, 3 << 20}).Draw(rt, "fat")
		c.Log("%v n %d fat %d", s, n, fat)
		c.NT(true)

		model := map[string]string{}
		keys := make([]string, n)

		for i := range keys {
			keys[i] = fmt.Sprintf("key-%d", i)
			model[keys[i]] = fmt.Sprintf("value-%d", i)

			if fat > 0 && i%(n/5) == 0 {
				model[keys[i]] += string(make([]byte, fat))
			}

			if err := hc.Set(ctx, keys[i], model[keys[i]], 0); err != nil {
				rt.Fatalf("Set: %v", err)
			}
		}

		agree := func(what string) {
			if hc.Count(ctx) != len(model) {
				rt.Fatalf("after %s: count %d, model %d", what, hc.Count(ctx), len(model))
			}

			got := listing(rt, hc)
			for k, v := range model {
				if it := got[k]; it == nil || it.Value != v || it.Size != int64(len(v)) {
					rt.Fatalf("after %s: %q is not listed as stored", what, k)
				}
			}

			if len(got) != len(model) {
				rt.Fatalf("after %s: %d listed, model %d", what, len(got), len(model))
			}

			ask := append(rapid.Permutation(keys).Draw(rt, "ask"), "absent-a", "absent-b")
			ask = ask[rapid.IntRange(0, 40).Draw(rt, "from"):]

			hits, miss := hc.GetMultiple(ctx, ask...)
			if len(hits)+len(miss) != len(ask) {
				rt.Fatalf("after %s: GetMultiple of %d keys reports %d hits, %d misses", what, len(ask), len(hits), len(miss))
			}

			for _, k := range ask {
				want, in := model[k]
				if v, ok := hits[k]; ok != in || in && v != want || !in && !errors.Is(miss[k], sentinel.ErrKeyNotFound) {
					rt.Fatalf("after %s: GetMultiple key %q: hit %v, miss %v, stored %v", what, k, ok, miss[k], in)
				}
			}
		}

		agree("filling")

		gone := rapid.Permutation(keys).Draw(rt, "gone")[:rapid.SampledFrom([]int{100, 200, 290, n / 2, n - 1}).Draw(rt, "nGone")]
		if err := hc.Remove(ctx, gone...); err != nil {
			rt.Fatalf("Remove: %v", err)
		}

		for _, k := range gone {
			delete(model, k)
		}

		agree(fmt.Sprintf("removing %d keys", len(gone)))

		if err := hc.Clear(ctx); err != nil {
			rt.Fatalf("Clear: %v", err)
		}

		clear(model)
		agree("clear")

		if a := hc.Allocation(); a != 0 {
			rt.Fatalf("allocation %d after clear", a)
		}

		_ = hc.Set(ctx, keys[0], "again", 0)
		model[keys[0]] = "again"
		agree("writing again")
	})
}

// TestC16Touches: many reads of one key are all counted.
func TestC16Touches(t *testing.T) {
	vh.Run(t, "touches", "one key read 1..70000 times: the access count is the number of reads; non-trivial: >1000 reads", 30, func(rt *rapid.T, c *vh.Case) {
		s := drawRoomy(rt)
		ctx := context.Background()
		hc := s.build(ctx, rt.Fatalf)

		defer func() { _ = hc.Stop(ctx) }()

		n := rapid.SampledFrom([]int{1, 14, 40, 127, 130, 255, 256, 300, 5000, 66000}).Draw(rt, "n")
		c.Log("%v %d", s, n)
		c.NT(n > 1000)

		_ = hc.Set(ctx, "k", "v", 0)

		for range n {
			if _, ok := hc.Get(ctx, "k"); !ok {
				rt.Fatalf("Get missed")
			}
		}

		if it := listing(rt, hc)["k"]; it == nil || int(it.AccessCount) != n {
			rt.Fatalf("%d reads counted as %+v", n, it)
		}
	})
}
