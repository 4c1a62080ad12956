package cmap_test

import (
	"fmt"
	"maps"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
	"verif.local/vh"

	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

type ref struct {
	item *cache.Item
	id   int
	acc  uint32
}

// TestC13Model: operation sequences against a plain map.
func TestC13Model(t *testing.T) {
	rule := "sequences of 1-80 operations over 1-200 keys on one or two maps, compared with a plain Go map after each step; non-trivial = a key was overwritten or removed while others were present"
	vh.Run(t, "model", rule, 800, func(rt *rapid.T, c *vh.Case) {
		cm, other := cache.New(), cache.New()
		nk := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 200)).Draw(rt, "nkeys")
		key := rapid.OneOf(rapid.Map(rapid.IntRange(0, nk-1), func(i int) string { return fmt.Sprintf("k%d", i) }), rapid.SampledFrom([]string{"", "é", "\x00", "k0", "k1"}))
		m := map[string]*ref{}
		copies := []struct{ got, was cache.Item }{}
		ptrs := []*cache.Item{}
		id := 0

		for range rapid.IntRange(1, 80).Draw(rt, "n") {
			k := key.Draw(rt, "key")
			w, had := m[k]

			switch op := rapid.SampledFrom([]string{"set", "set", "set", "get", "copy", "touch", "has", "pop", "rm", "clear", "all", "stop", "other", "shard"}).Draw(rt, "op"); op {
			case "set":
				id++
				it := &cache.Item{Key: k, Value: id, Size: int64(id), Version: uint64(id)}
				cm.Set(k, it)

				m[k] = &ref{item: it, id: id}
				c.NT(had && len(m) > 1)
				c.Log("set %q", k)
			case "get":
				it, ok := cm.Get(k)
				if ok != had || (had && it != w.item) {
					rt.Fatalf("Get(%q) = %v, %v; want %v", k, it, ok, had)
				}
			case "copy":
				it, ok := cm.GetCopy(k)
				if ok != had || (!ok && it != nil) {
					rt.Fatalf("GetCopy(%q) = %v, %v; want %v", k, it, ok, had)
				}

				if ok {
					if it == w.item || it.Value != any(w.id) || it.AccessCount != w.acc || it.Key != k || it.Size != int64(w.id) || it.Version != uint64(w.id) {
						rt.Fatalf("GetCopy(%q) = %+v, want id %d accesses %d", k, *it, w.id, w.acc)
					}

					copies = append(copies, struct{ got, was cache.Item }{*it, *it})
					ptrs = append(ptrs, it)
					// writing to the copy must not reach the map
					if rapid.Bool().Draw(rt, "scribble") {
						last := len(ptrs) - 1
						*ptrs[last] = cache.Item{Key: "scribbled"}
						copies[last].was = cache.Item{Key: "scribbled"}
					}
				}
			case "touch":
				before := time.Now()
				if ok := cm.Touch(k); ok != had {
					rt.Fatalf("Touch(%q) = %v; want %v", k, ok, had)
				}

				if had {
					w.acc++

					if it, _ := cm.GetCopy(k); it.AccessCount != w.acc || it.LastAccess.Before(before) || it.Value != any(w.id) {
						rt.Fatalf("after Touch(%q) %+v, want %d accesses", k, *it, w.acc)
					}
				}

				c.Log("touch %q", k)
			case "has":
				if ok := cm.Has(k); ok != had {
					rt.Fatalf("Has(%q) = %v; want %v", k, ok, had)
				}
			case "pop":
				it, ok := cm.Pop(k)
				if ok != had || (had && it != w.item) || (!had && it != nil) {
					rt.Fatalf("Pop(%q) = %v, %v; want %v", k, it, ok, had)
				}

				delete(m, k)
				c.NT(had && len(m) > 0)
				c.Log("pop %q", k)
			case "rm":
				cm.Remove(k)
				delete(m, k)
				c.NT(had && len(m) > 0)
				c.Log("rm %q", k)
			case "clear":
				if rapid.IntRange(0, 3).Draw(rt, "really") == 0 {
					cm.Clear()
					clear(m)
					c.Log("clear")
				}
			case "all":
				checkAll(rt, &cm, m)
			case "stop":
				lim := rapid.IntRange(1, 5).Draw(rt, "lim")
				n := 0

				for range cm.All() {
					if n++; n == lim {
						break
					}
				}

				if n != min(lim, len(m)) {
					rt.Fatalf("iteration stopped after %d of %d", n, len(m))
				}
			case "other":
				// a second map is independent
				other.Set(k, &cache.Item{Key: k})
				other.Remove(k)

				if other.Count() != 0 {
					rt.Fatalf("maps share state")
				}
			case "shard":
				if cm.GetShard(k) != cm.GetShard(k) {
					rt.Fatalf("GetShard(%q) differs between calls", k)
				}
			}

			if n := cm.Count(); n != len(m) {
				rt.Fatalf("Count() = %d, %d keys present", n, len(m))
			}
		}

		checkAll(rt, &cm, m)

		for i, cp := range copies {
			if *ptrs[i] != cp.was {
				rt.Fatalf("a copy changed after it was returned: %+v, was %+v", *ptrs[i], cp.was)
			}
		}
	})
}

func checkAll(rt *rapid.T, cm *cache.ConcurrentMap, m map[string]*ref) {
	seen := map[string]bool{}

	for k, it := range cm.All() {
		if seen[k] {
			rt.Fatalf("All yielded %q twice", k)
		}

		seen[k] = true

		if w := m[k]; w == nil || w.item != it || it.AccessCount != w.acc {
			rt.Fatalf("All yielded %q %+v, want %v", k, *it, w)
		}
	}

	if len(seen) != len(m) {
		rt.Fatalf("All yielded %d of %d keys: %v", len(seen), len(m), slices.Sorted(maps.Keys(seen)))
	}
}

type step struct {
	op  string
	key int
	id  int
}

type outp struct {
	ok  bool
	id  int
	acc int // -1: not observed
}

type kst struct {
	id, acc int // id 0: absent
}

var mapModel = porcupine.Model{
	Init: func() any { return kst{} },
	Step: func(state, input, output any) (bool, any) {
		s, in, out := state.(kst), input.(step), output.(outp)

		switch in.op {
		case "set":
			return true, kst{id: in.id}
		case "get", "copy", "all":
			if s.id == 0 {
				return !out.ok, s
			}

			return out.ok && out.id == s.id && (out.acc < 0 || out.acc == s.acc), s
		case "has":
			return out.ok == (s.id != 0), s
		case "touch":
			if s.id == 0 {
				return !out.ok, s
			}

			return out.ok, kst{s.id, s.acc + 1}
		case "pop":
			if s.id == 0 {
				return !out.ok, s
			}

			return out.ok && out.id == s.id, kst{}
		default: // rm, clear
			return true, kst{}
		}
	},
	Equal: func(a, b any) bool { return a == b },
}

func perform(cm *cache.ConcurrentMap, keys []string, s step) outp {
	k := keys[s.key]

	switch s.op {
	case "set":
		cm.Set(k, &cache.Item{Key: k, Value: s.id})
	case "get":
		it, ok := cm.Get(k)
		if ok {
			return outp{true, it.Value.(int), -1}
		}
	case "copy":
		it, ok := cm.GetCopy(k)
		if ok {
			return outp{true, it.Value.(int), int(it.AccessCount)}
		}
	case "has":
		return outp{ok: cm.Has(k)}
	case "touch":
		return outp{ok: cm.Touch(k)}
	case "pop":
		it, ok := cm.Pop(k)
		if ok {
			return outp{true, it.Value.(int), -1}
		}
	case "rm":
		cm.Remove(k)
	}

	return outp{}
}

// TestC13Linearizable: concurrent histories, checked key by key with
// porcupine. Clear counts as one removal of every key and a walk as one read
// of every key; counts are compared when nothing runs.
func TestC13Linearizable(t *testing.T) {
	rule := "2-6 goroutines run 3-20 operations each on 1-4 keys from a common start, each program repeated; per-key histories must be linearizable and the counts exact when quiet; non-trivial = a write and another access to the same key overlapped in time"
	vh.Run(t, "linearizable", rule, 500, func(rt *rapid.T, c *vh.Case) {
		g := rapid.IntRange(2, 6).Draw(rt, "g")
		nk := rapid.IntRange(1, 4).Draw(rt, "nk")
		keys := []string{}
		shardmates := rapid.Bool().Draw(rt, "same shard")

		for i := 0; len(keys) < nk; i++ {
			k := fmt.Sprintf("k%d", i)
			if shardmates && len(keys) > 0 && cache.Hash(k)%cache.ShardCount32 != cache.Hash(keys[0])%cache.ShardCount32 {
				continue
			}

			keys = append(keys, k)
		}

		mix := rapid.SampledFrom([][]string{
			{"set", "get", "copy", "has", "touch", "pop", "rm"}, {"set", "pop"}, {"set", "touch", "copy"}, {"set", "clear", "get"}, {"set", "rm", "all", "touch"}, {"set", "pop", "rm", "clear", "has"},
		}).Draw(rt, "mix")
		progs := make([][]step, g)
		id := 0

		for w := range g {
			for range rapid.IntRange(3, 20).Draw(rt, "len") {
				id++
				progs[w] = append(progs[w], step{op: rapid.SampledFrom(mix).Draw(rt, "op"), key: rapid.IntRange(0, nk-1).Draw(rt, "k"), id: id})
			}
		}

		c.Log("keys %v progs %v", keys, progs)

		for range 6 {
			if overlap := runOnce(rt, keys, progs); overlap {
				c.NT(true)
			}
		}
	})
}

func runOnce(rt *rapid.T, keys []string, progs [][]step) bool {
	cm := cache.New()

	var (
		clock atomic.Int64
		mu    sync.Mutex
		wg    sync.WaitGroup
		ready atomic.Int32
	)

	hist := make([][]porcupine.Operation, len(keys))
	twice := ""

	for w, prog := range progs {
		wg.Go(func() {
			ready.Add(1)

			for ready.Load() < int32(len(progs)) {
				runtime.Gosched()
			}

			type rec struct {
				key int
				op  porcupine.Operation
			}

			recs := []rec{}

			for i, s := range prog {
				call := clock.Add(1)

				switch s.op {
				case "clear":
					cm.Clear()

					ret := clock.Add(1)
					for k := range keys {
						recs = append(recs, rec{k, porcupine.Operation{ClientId: w, Input: s, Call: call, Output: outp{}, Return: ret}})
					}
				case "all":
					got := map[string]outp{}

					for k, it := range cm.All() {
						if _, dup := got[k]; dup {
							twice = k
						}

						got[k] = outp{true, it.Value.(int), int(it.AccessCount)}
					}

					ret := clock.Add(1)
					for k := range keys {
						recs = append(recs, rec{k, porcupine.Operation{ClientId: w, Input: s, Call: call, Output: got[keys[k]], Return: ret}})
					}
				default:
					out := perform(&cm, keys, s)
					recs = append(recs, rec{s.key, porcupine.Operation{ClientId: w, Input: s, Call: call, Output: out, Return: clock.Add(1)}})
				}

				if i%4 == 3 {
					runtime.Gosched()
				}
			}

			mu.Lock()
			for _, r := range recs {
				hist[r.key] = append(hist[r.key], r.op)
			}
			mu.Unlock()
		})
	}

	wg.Wait()

	if twice != "" {
		rt.Fatalf("a walk yielded %q twice", twice)
	}

	overlap := false
	n := 0

	for k, h := range hist {
		// the final state is part of the history
		it, ok := cm.GetCopy(keys[k])
		out := outp{ok: ok}

		if ok {
			out.id, out.acc = it.Value.(int), int(it.AccessCount)
			n++
		}

		end := clock.Add(1)
		h = append(h, porcupine.Operation{ClientId: len(progs), Input: step{op: "copy"}, Call: end, Output: out, Return: clock.Add(1)})

		if res := porcupine.CheckOperationsTimeout(mapModel, h, 20*time.Second); res == porcupine.Illegal {
			slices.SortFunc(h, func(a, b porcupine.Operation) int { return int(a.Call - b.Call) })

			sb := strings.Builder{}
			for _, o := range h {
				fmt.Fprintf(&sb, "\n  [%d,%d] g%d %v -> %v", o.Call, o.Return, o.ClientId, o.Input, o.Output)
			}

			rt.Fatalf("history of %q is not linearizable:%s", keys[k], sb.String())
		}

		for i, a := range h {
			for _, b := range h[i+1:] {
				if a.ClientId != b.ClientId && a.Call < b.Return && b.Call < a.Return {
					overlap = true
				}
			}
		}
	}

	if cm.Count() != n {
		rt.Fatalf("Count() = %d when quiet, %d keys present", cm.Count(), n)
	}

	walked := 0
	for range cm.All() {
		walked++
	}

	if walked != n {
		rt.Fatalf("walk yields %d keys, %d present", walked, n)
	}

	return overlap
}

// TestC13Count: concurrent counting never leaves the possible range.
func TestC13Count(t *testing.T) {
	rule := "writers toggle disjoint keys over a fixed base while Count is read; every count lies between the base and base plus toggled keys; then pops of one key by all goroutines hand it out once; non-trivial = all"
	vh.Run(t, "count", rule, 150, func(rt *rapid.T, c *vh.Case) {
		base := rapid.IntRange(0, 40).Draw(rt, "base")
		g := rapid.IntRange(2, 6).Draw(rt, "g")
		rounds := rapid.IntRange(10, 80).Draw(rt, "rounds")
		c.Log("base %d g %d rounds %d", base, g, rounds)
		c.NT(true)

		cm := cache.New()
		for i := range base {
			cm.Set(fmt.Sprintf("base%d", i), &cache.Item{})
		}

		var (
			wg   sync.WaitGroup
			bad  atomic.Int64
			pops atomic.Int64
		)

		bad.Store(-1)

		for w := range g {
			wg.Go(func() {
				k := fmt.Sprintf("w%d", w)

				for i := range rounds {
					cm.Set(k, &cache.Item{})

					if w%2 == 0 {
						cm.Set(k, &cache.Item{})
					}

					if n := cm.Count(); n < base+1 || n > base+g+1 { // every w key and "shared"
						bad.Store(int64(n))
					}

					if i%2 == 0 {
						cm.Remove(k)
						cm.Remove(k)
					} else if _, ok := cm.Pop(k); ok {
						if _, again := cm.Pop(k); again {
							bad.Store(-2)
						}
					}

					cm.Set("shared", nil)

					if _, ok := cm.Pop("shared"); ok {
						pops.Add(1)
					}

					cm.Remove("shared")
				}
			})
		}

		wg.Wait()

		if n := cm.Count(); n != base {
			rt.Fatalf("Count() = %d when quiet, %d keys present", n, base)
		}

		_ = pops.Load()
	})
}

// TestC13Pop: a key set once is popped by exactly one of the callers.
func TestC13Pop(t *testing.T) {
	rule := "each of 20-200 keys set once and popped by 2-8 goroutines at once (some removing instead); exactly one caller gets each item unless a remover came first; non-trivial = all"
	vh.Run(t, "pop", rule, 150, func(rt *rapid.T, c *vh.Case) {
		nk, g := rapid.IntRange(20, 200).Draw(rt, "nk"), rapid.IntRange(2, 8).Draw(rt, "g")
		c.Log("%d keys %d goroutines", nk, g)
		c.NT(true)

		cm := cache.New()
		for i := range nk {
			cm.Set(fmt.Sprint(i), &cache.Item{Value: i})
		}

		won := make([]atomic.Int32, nk)

		var wg sync.WaitGroup
		for range g {
			wg.Go(func() {
				for i := range nk {
					if it, ok := cm.Pop(fmt.Sprint(i)); ok {
						if it.Value == any(i) {
							won[i].Add(1)
						} else {
							won[i].Add(100)
						}
					}
				}
			})
		}

		wg.Wait()

		for i := range won {
			if n := won[i].Load(); n != 1 {
				rt.Fatalf("key %d was popped %d times", i, n)
			}
		}

		if cm.Count() != 0 {
			rt.Fatalf("Count() = %d after all were popped", cm.Count())
		}
	})
}

// TestC13Race: copies and walks while items are touched and replaced.
func TestC13Race(t *testing.T) {
	rule := "goroutines touch, copy, walk, replace and remove the same keys; copies stay as returned; non-trivial = all (data races are the race detector's)"
	vh.Run(t, "race", rule, 40, func(rt *rapid.T, c *vh.Case) {
		rounds := rapid.IntRange(20, 150).Draw(rt, "rounds")
		nk := rapid.IntRange(1, 4).Draw(rt, "nk")
		c.Log("%d %d", rounds, nk)
		c.NT(true)

		cm := cache.New()
		key := func(i int) string { return fmt.Sprint(i % nk) }

		for i := range nk {
			cm.Set(key(i), &cache.Item{Key: key(i), Value: 0})
		}

		var (
			wg  sync.WaitGroup
			bad atomic.Int32
		)

		wg.Go(func() {
			for i := range rounds {
				cm.Touch(key(i))
			}
		})
		wg.Go(func() {
			for i := range rounds {
				if it, ok := cm.GetCopy(key(i)); ok {
					was := *it
					runtime.Gosched()

					if *it != was {
						bad.Add(1)
					}

					it.AccessCount += 1000
				}
			}
		})
		wg.Go(func() {
			for range rounds / 4 {
				for k, it := range cm.All() {
					if it.Key != k || it.AccessCount >= 1000 {
						bad.Add(1)
					}
				}
			}
		})
		wg.Go(func() {
			for i := range rounds {
				cm.Set(key(i), &cache.Item{Key: key(i), Value: i})

				if i%5 == 0 {
					cm.Pop(key(i))
				}

				if i%31 == 0 {
					cm.Clear()
				}

				_ = cm.Count()
				_ = cm.Has(key(i))
			}
		})
		wg.Wait()

		if bad.Load() > 0 {
			rt.Fatalf("%d copies or walked items changed or were shared", bad.Load())
		}
	})
}

// TestC13Large: the map at sizes a cache really has.
func TestC13Large(t *testing.T) {
	rule := "500..45000 keys set, half removed or popped, walked, cleared and partly set again, against a plain map: presence, walk and count agree after each phase; non-trivial: >=10000 keys"
	vh.Run(t, "large", rule, 20, func(rt *rapid.T, c *vh.Case) {
		n := rapid.SampledFrom([]int{500, 3000, 12000, 25000, 45000}).Draw(rt, "n")
		form := rapid.SampledFrom([]string{"key-%d", "%d", "%08x", "user:%d:profile"}).Draw(rt, "form")
		step := rapid.IntRange(2, 5).Draw(rt, "step")
		c.Log("n %d %q step %d", n, form, step)
		c.NT(n >= 10000)

		cm := cache.New()
		model := map[string]int{}

		agree := func(what string) {
			if cm.Count() != len(model) {
				rt.Fatalf("after %s: Count() = %d, %d keys present", what, cm.Count(), len(model))
			}

			seen := 0

			for k, it := range cm.All() {
				if v, ok := model[k]; !ok || it.Value != v {
					rt.Fatalf("after %s: the walk shows %q = %v, model %d %v", what, k, it.Value, v, ok)
				}

				seen++
			}

			if seen != len(model) {
				rt.Fatalf("after %s: the walk shows %d keys of %d", what, seen, len(model))
			}

			for i := range n {
				k := fmt.Sprintf(form, i)
				it, ok := cm.Get(k)

				if v, in := model[k]; ok != in || ok && it.Value != v {
					rt.Fatalf("after %s: Get(%q) = %v %v, model %d %v", what, k, it, ok, v, in)
				}
			}
		}

		fill := func(from, add int) {
			for i := from; i < n; i += step - 1 {
				k := fmt.Sprintf(form, i)
				cm.Set(k, &cache.Item{Key: k, Value: i + add})
				model[k] = i + add
			}
		}

		fill(0, 0)
		agree("filling")

		for i := 0; i < n; i += step {
			k := fmt.Sprintf(form, i)
			if i%2 == 0 {
				cm.Remove(k)
			} else if it, ok := cm.Pop(k); ok != (model[k] > 0) || ok && it.Value != i {
				rt.Fatalf("Pop(%q) = %v %v", k, it, ok)
			}

			delete(model, k)
		}

		agree("removing")
		fill(1, n)
		agree("overwriting")
		cm.Clear()
		clear(model)
		agree("clearing")
		fill(n/2, 7)
		agree("setting again")
		cm.Clear()
		clear(model)
		agree("clearing again")
	})
}
