package root_test

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ugorji/go/codec"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

func drawTight(rt *rapid.T) setup {
	s := setup{
		alg:      rapid.SampledFrom(algs).Draw(rt, "alg"),
		shards:   rapid.SampledFrom([]int{0, 1, 2, 8, 32}).Draw(rt, "shards"),
		capacity: rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 12}).Draw(rt, "cap"),
		maxSize:  rapid.SampledFrom([]int64{0, 0, 0, -1, -50, 1, 40, 90, 200, 3100, 7000}).Draw(rt, "maxsize"),
		maxEvict: rapid.SampledFrom([]uint{0, 0, 1, 2, 5, 50}).Draw(rt, "maxevict"),
		evictIvl: rapid.SampledFrom([]time.Duration{0, 0, time.Second}).Draw(rt, "evict"),
	}
	s.expireIvl = rapid.SampledFrom([]time.Duration{0, 3 * time.Second}).Draw(rt, "expire")

	return s
}

func total(items map[string]int64) (n int64) {
	for _, s := range items {
		n += s
	}

	return n
}

// sizes checks that the reported allocation is the total of the stored
// items' sizes and returns those.
func sizes(rt *rapid.T, hc *hypercache.HyperCache[mem], what string) map[string]int64 {
	out := map[string]int64{}

	for k, it := range listing(rt, hc) {
		out[k] = it.Size

		var want int64

		switch v := it.Value.(type) {
		case string:
			want = int64(len(v))
		case []byte:
			want = int64(len(v))
		case sized:
			want = int64(v.n)
		case marshaled:
			want = int64(len(v.s))
		default:
			want = it.Size
		}

		if it.Size != want || it.Size < 0 {
			rt.Fatalf("after %s: item %q (%T) accounts %d bytes, its value has %d", what, k, it.Value, it.Size, want)
		}
	}

	if got, want := hc.Allocation(), total(out); got != want {
		rt.Fatalf("after %s: allocation %d, stored items total %d: %v", what, got, want, out)
	}

	if n := hc.Count(context.Background()); n != len(out) {
		rt.Fatalf("after %s: count %d, %d items listed", what, n, len(out))
	}

	return out
}

func TestC17Model(t *testing.T) {
	vh.Run(t, "model", "histories of sets, overwrites of other sizes, get-or-sets, refused writes, (repeated) removals, clears, expirations, capacity changes and eviction triggers under every policy, shard count, run bound and interval, with capacities 0..12 and byte limits 0..200, in virtual time; after each step allocation, count, what was kept and what was refused are compared with exact accounting; non-trivial: an eviction, an overwrite and a refusal or removal in one history", 1500, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			s := drawTight(rt)
			c.Log("%v", s)

			ctx := context.Background()
			hc := s.build(ctx, rt.Fatalf)

			defer func() { _ = hc.Stop(ctx) }()

			capacity := s.capacity
			model := map[string]any{} // every key's last accepted value, evicted or not
			start := time.Now()

			// most an eviction run may take: the option, by default the capacity at construction
			run := int(s.maxEvict)
			if run == 0 {
				run = s.capacity
			}

			var evicted, overwrote, refused bool

			prev := sizes(rt, hc, "start")

			steps := rapid.IntRange(1, 50).Draw(rt, "steps")
			for i := range steps {
				op := rapid.SampledFrom([]string{"set", "set", "set", "set", "orset", "remove", "clear", "bad", "capacity", "evict", "tick", "ttl", "read"}).Draw(rt, "op")

				// allowed bounds for the number of items after the step
				lo, hi := len(prev), len(prev)
				gone := map[string]bool{} // keys that must be gone
				want := map[string]bool{} // keys that must be there whatever eviction does

				settle := func(n int) { // n items before eviction
					lo, hi = n, n

					if s.evictIvl == 0 && capacity > 0 && n > capacity {
						lo, hi = n-1, n-1
						evicted = true
					}
				}

				switch op {
				case "set", "orset", "ttl":
					k, v := drawKey(rt), drawVal(rt)

					var ttl time.Duration
					if op == "ttl" {
						ttl = 2*time.Second + time.Millisecond
					}

					c.Log("%s %q %v(%d)", op, k, v.v, v.size)

					var (
						err error
						got any
					)

					_, had := prev[k]

					if op == "orset" {
						got, err = hc.GetOrSet(ctx, k, v.v, ttl)
						if had {
							if err == nil && !same(got, model[k]) {
								rt.Fatalf("GetOrSet(%q) = %v, stored %v", k, got, model[k])
							}

							if err != nil && !errors.Is(err, sentinel.ErrKeyExpired) {
								rt.Fatalf("GetOrSet(%q): %v", k, err)
							}

							if err != nil { // an expired one; the sweep it triggers takes the expired items
								lo, hi = 0, len(prev)
							}

							break
						}
					} else {
						err = hc.Set(ctx, k, v.v, ttl)
					}

					size := v.size
					if err == nil && size < 0 {
						size = hc.Allocation() - total(prev) + prev[k] // taken over; verified against the item below
					}

					if err != nil {
						if !errors.Is(err, sentinel.ErrCacheFull) || s.maxSize <= 0 {
							rt.Fatalf("write of %q: %v", k, err)
						}

						if size >= 0 && total(prev)-prev[k]+size <= s.maxSize {
							rt.Fatalf("write of %q (%d bytes, replacing %d) refused at allocation %d, limit %d", k, size, prev[k], total(prev), s.maxSize)
						}

						refused = true

						break
					}

					if s.maxSize > 0 && v.size >= 0 && total(prev)-prev[k]+v.size > s.maxSize {
						rt.Fatalf("write of %q (%d bytes, replacing %d) accepted at allocation %d, limit %d", k, v.size, prev[k], total(prev), s.maxSize)
					}

					overwrote = overwrote || had
					model[k] = v.v

					n := len(prev)
					if !had {
						n++
					}

					settle(n)
				case "remove":
					keys := rapid.SliceOfN(rapid.SampledFrom(keyPool), 0, 5).Draw(rt, "keys")
					c.Log("remove %q", keys)

					if err := hc.Remove(ctx, keys...); err != nil {
						rt.Fatalf("Remove: %v", err)
					}

					n := len(prev)

					for _, k := range keys {
						if _, ok := prev[k]; ok && !gone[k] {
							n--

							refused = true
						}

						gone[k] = true
					}

					lo, hi = n, n
				case "clear":
					if rapid.IntRange(0, 3).Draw(rt, "really") != 0 {
						break
					}

					c.Log("clear")

					if err := hc.Clear(ctx); err != nil {
						rt.Fatalf("Clear: %v", err)
					}

					lo, hi = 0, 0
				case "bad":
					m := map[string]*entry{}
					for k := range prev {
						m[k] = &entry{}
					}

					badTight(rt, c, hc, drawKey(rt), m)
				case "capacity":
					capacity = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 12, 20}).Draw(rt, "newcap")
					own, cancel := context.WithCancel(ctx)

					if neg := rapid.IntRange(-3, 3).Draw(rt, "neg"); neg < 0 { // not a capacity: ignored
						was := hc.Capacity()
						hc.SetCapacity(own, neg)

						if hc.Capacity() != was {
							rt.Fatalf("SetCapacity(%d) changed the capacity from %d to %d", neg, was, hc.Capacity())
						}

						synctest.Wait()

						prev = sizes(rt, hc, "capacity") // the call may restore the present capacity
						lo, hi = len(prev), len(prev)
					}

					c.Log("capacity %d", capacity)
					hc.SetCapacity(own, capacity)
					cancel() // a caller's context usually ends with its call
					synctest.Wait()

					if hc.Capacity() != capacity {
						rt.Fatalf("capacity %d after SetCapacity(%d)", hc.Capacity(), capacity)
					}

					if capacity > 0 && len(prev) > capacity {
						lo, hi = capacity, capacity
						evicted = true
					}
				case "evict":
					c.Log("evict")
					hc.TriggerEviction(ctx)
					synctest.Wait()

					lo, hi = afterRun(len(prev), capacity, run)
					evicted = evicted || hi < len(prev)
				case "tick":
					d := time.Duration(rapid.IntRange(1, 4).Draw(rt, "halves")) * 500 * time.Millisecond
					before := time.Since(start) / time.Second
					c.Log("tick %v", d)
					time.Sleep(d)
					synctest.Wait()

					if s.evictIvl > 0 {
						for range int(time.Since(start)/time.Second - before) {
							_, hi = afterRun(hi, capacity, run)
						}
					}

					evicted = evicted || hi < len(prev)
					// items with a time-to-live may have been swept as well
					lo = 0
				case "read":
					k := drawKey(rt)
					c.Log("read %q", k)

					got, ok := hc.Get(ctx, k)
					_, had := prev[k]

					if ok && (!had || !same(got, model[k])) {
						rt.Fatalf("Get(%q) = %v, stored %v (%v)", k, got, model[k], had)
					}

					lo = 0 // reading an expired item triggers a sweep
				}

				synctest.Wait()

				now := sizes(rt, hc, op)
				if len(now) < lo || len(now) > hi {
					rt.Fatalf("step %d %s: %d items, then %d; capacity %d: want %d..%d", i, op, len(prev), len(now), capacity, lo, hi)
				}

				if s.evictIvl == 0 && capacity > 0 && len(now) > capacity {
					rt.Fatalf("step %d %s: %d items stay above capacity %d", i, op, len(now), capacity)
				}

				for k := range now {
					if gone[k] {
						rt.Fatalf("step %d %s: removed key %q is still there", i, op, k)
					}

					if _, ok := prev[k]; !ok && op != "set" && op != "orset" && op != "ttl" {
						rt.Fatalf("step %d %s: key %q appeared", i, op, k)
					}
				}

				for k := range want {
					if _, ok := now[k]; !ok {
						rt.Fatalf("step %d %s: key %q disappeared", i, op, k)
					}
				}

				for k, it := range listing(rt, hc) {
					if !same(it.Value, model[k]) {
						rt.Fatalf("step %d %s: key %q holds %v, last accepted %v", i, op, k, it.Value, model[k])
					}
				}

				for k := range prev { // evicted or removed: gone for every reader
					if _, ok := now[k]; ok {
						continue
					}

					if _, ok := hc.GetWithInfo(ctx, k); ok {
						rt.Fatalf("step %d %s: evicted key %q is still read", i, op, k)
					}
				}

				prev = now
			}

			c.NT(evicted && overwrote && refused)
			c.LabelIf(evicted, "evicted")
			c.LabelIf(refused, "refused")
		})
	})
}

// afterRun bounds the number of items after one eviction run.
func afterRun(n, capacity, run int) (int, int) {
	if capacity == 0 || n <= capacity {
		return n, n
	}

	excess := n - capacity
	if run > 0 && excess > run {
		excess = run
	}

	return n - excess, n - excess
}

func badTight(rt *rapid.T, c *vh.Case, hc *hypercache.HyperCache[mem], key string, model map[string]*entry) {
	ctx := context.Background()

	var (
		v   any = "some value"
		ttl time.Duration
	)

	switch rapid.IntRange(0, 3).Draw(rt, "bad") {
	case 0:
		key = "  "
	case 1:
		v = nil
	case 2:
		ttl = -time.Second
	default:
		v = unsizable{}
	}

	c.Log("bad %q %v %v", key, v, ttl)

	if rapid.Bool().Draw(rt, "orset") && model[key] == nil {
		if _, err := hc.GetOrSet(ctx, key, v, ttl); err == nil {
			rt.Fatalf("GetOrSet(%q, %v, %v) accepted", key, v, ttl)
		}
	} else if err := hc.Set(ctx, key, v, ttl); err == nil {
		rt.Fatalf("Set(%q, %v, %v) accepted", key, v, ttl)
	}
}

func TestC17Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "2..6 goroutines write values of different sizes to, get-or-set, remove and clear a few shared keys of a small cache while sweeps and evictions run; once all is quiet the allocation equals the stored sizes and the capacity holds; non-trivial: >=3 goroutines", 250, func(rt *rapid.T, c *vh.Case) {
		s := drawTight(rt)
		s.evictIvl = rapid.SampledFrom([]time.Duration{0, 0, time.Millisecond}).Draw(rt, "evict2")
		s.expireIvl = rapid.SampledFrom([]time.Duration{0, time.Millisecond}).Draw(rt, "expire2")
		n := rapid.IntRange(2, 6).Draw(rt, "n")
		rep := rapid.IntRange(1, 8).Draw(rt, "rep")
		c.Log("%v n=%d rep=%d", s, n, rep)

		type step struct{ op, key, size int }

		plans := make([][]step, n)
		for i := range plans {
			m := rapid.IntRange(3, 25).Draw(rt, "m")
			for range m {
				st := step{rapid.IntRange(0, 10).Draw(rt, "op"), rapid.IntRange(0, 5).Draw(rt, "k"), rapid.IntRange(0, 30).Draw(rt, "size")}
				plans[i] = append(plans[i], st)
				c.Log("%v", st)
			}
		}

		ctx := context.Background()
		hc := s.build(ctx, rt.Fatalf)
		stopped := false

		defer func() {
			if !stopped {
				_ = hc.Stop(ctx)
			}
		}()

		var wg sync.WaitGroup

		for i := range n {
			wg.Go(func() {
				for range rep {
					for _, st := range plans[i] {
						k := fmt.Sprintf("k%d", st.key)

						switch st.op {
						case 0, 1, 2, 3:
							_ = hc.Set(ctx, k, make([]byte, st.size), 0)
						case 4:
							_ = hc.Set(ctx, k, make([]byte, st.size), time.Microsecond)
						case 5:
							_, _ = hc.GetOrSet(ctx, k, make([]byte, st.size), 0)
						case 6, 7:
							_ = hc.Remove(ctx, k, "k0", k)
						case 8:
							hc.TriggerExpiration()
							hc.TriggerEviction(ctx)
						case 9:
							hc.Get(ctx, k)
						default:
							if st.key == 0 {
								_ = hc.Clear(ctx)
							}
						}
					}
				}
			})
		}

		wg.Wait()

		// Stop waits for the running sweeps and evictions
		stopped = true

		if err := hc.Stop(ctx); err != nil {
			rt.Fatalf("Stop: %v", err)
		}

		got := sizes(rt, hc, "the race")
		if s.evictIvl == 0 && s.capacity > 0 && len(got) > s.capacity {
			rt.Fatalf("%d items stay above capacity %d", len(got), s.capacity)
		}

		c.NT(n >= 3)
	})
}

func TestC17Capacity(t *testing.T) {
	vh.Run(t, "capacity", "2..6 goroutines insert fresh keys beyond the capacity: once all returned the cache holds exactly the capacity when eviction is immediate, less at most one per concurrent writer; non-trivial: more inserted than fits", 4000, func(rt *rapid.T, c *vh.Case) {
		s := drawTight(rt)
		s.evictIvl, s.maxSize, s.expireIvl = 0, 0, 0
		n := rapid.IntRange(2, 6).Draw(rt, "n")
		m := rapid.IntRange(1, 30).Draw(rt, "m")
		c.Log("%v n=%d m=%d", s, n, m)

		ctx := context.Background()
		hc := s.build(ctx, rt.Fatalf)

		defer func() { _ = hc.Stop(ctx) }()

		var wg sync.WaitGroup

		for i := range n {
			wg.Go(func() {
				for j := range m {
					_ = hc.Set(ctx, fmt.Sprintf("%d/%d", i, j), "v", 0)
				}
			})
		}

		wg.Wait()

		got := sizes(rt, hc, "the inserts")
		want := n * m

		if s.capacity > 0 && s.capacity < want {
			want = s.capacity

			c.NT(true)
		}

		if len(got) > want || len(got) < want-n+1 {
			rt.Fatalf("%d items after %d inserts into capacity %d", len(got), n*m, s.capacity)
		}
	})
}

func TestC17ItemSize(t *testing.T) {
	vh.Run(t, "item-size", "1..8 values of every kind sized in turn with one item: each time the size is that of the present value, as a fresh item has it, whatever the item held before, and a value that cannot be sized is refused; non-trivial: a smaller value follows a bigger one", 1500, func(rt *rapid.T, c *vh.Case) {
		it := &cache.Item{Key: "k"}

		for range rapid.IntRange(1, 8).Draw(rt, "n") {
			v := drawVal(rt)

			if rapid.IntRange(0, 11).Draw(rt, "huge") == 0 {
				big := strings.Repeat("世x", rapid.SampledFrom([]int{1 << 10, 1 << 14, 1<<16 + 1, 1 << 18, 1<<18 + 1, 1 << 20}).Draw(rt, "hugeLen")/4)

				switch rapid.IntRange(0, 3).Draw(rt, "hugeKind") {
				case 0:
					v = val{big, int64(len(big))}
				case 1:
					v = val{[]byte(big), int64(len(big))}
				case 2:
					v = val{marshaled{big}, int64(len(big))}
				default:
					v = val{[]string{big, big, "x"}, -1}
				}
			}

			if rapid.IntRange(0, 9).Draw(rt, "bad") == 0 {
				it.Value = unsizable{}
				if err := it.SetSize(); err == nil {
					rt.Fatalf("a value without a size was sized: %d", it.Size)
				}
			}

			prev := it.Size
			it.Value = v.v
			c.Log("%T %d", v.v, v.size)

			if err := it.SetSize(); err != nil {
				rt.Fatalf("SetSize of %T: %v", v.v, err)
			}

			if v.size < 0 {
				var enc []byte
				if err := codec.NewEncoderBytes(&enc, &codec.CborHandle{}).Encode(v.v); err != nil {
					rt.Fatalf("HARNESS-ERROR encoding %T: %v", v.v, err)
				}

				v.size = int64(len(enc))
			}

			fresh := &cache.Item{Value: v.v}
			if err := fresh.SetSize(); err != nil {
				rt.Fatalf("SetSize of %T: %v", v.v, err)
			}

			if it.Size != fresh.Size || v.size >= 0 && it.Size != v.size || it.Size < 0 {
				rt.Fatalf("%T %v has size %d, a fresh item %d, want %d", v.v, v.v, it.Size, fresh.Size, v.size)
			}

			c.NT(it.Size < prev)
		}
	})
}
