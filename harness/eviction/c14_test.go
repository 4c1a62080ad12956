package eviction_test

import (
	"fmt"
	"maps"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
	"verif.local/vh"

	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/pkg/eviction"
)

// policy is one eviction policy under test; part says how keys are
// partitioned (one partition unless sharded) and cap the capacity of one.
type policy struct {
	name string
	make func() (eviction.IAlgorithm, error)
	part func(key string) int
	n    int
	cap  int
}

var names = []string{"lru", "lfu", "clock", "cawolfu", "arc"}

func construct(name string, capacity int) (eviction.IAlgorithm, error) {
	if name == "arc" {
		reg := eviction.NewEmptyAlgorithmRegistry()
		reg.Register("arc", func(c int) (eviction.IAlgorithm, error) { return eviction.NewARCAlgorithm(c) })

		return reg.NewAlgorithm("arc", capacity)
	}

	return eviction.NewEvictionAlgorithm(name, capacity)
}

func genPolicy(rt *rapid.T, from []string) policy {
	name := rapid.SampledFrom(from).Draw(rt, "policy")
	capacity := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(1, 8), rapid.IntRange(0, 20)).Draw(rt, "capacity")

	if name != "arc" && rapid.IntRange(0, 3).Draw(rt, "sharded") == 0 {
		shards := rapid.SampledFrom([]int{1, 2, 4, 32}).Draw(rt, "shards")
		per := (capacity + shards - 1) / shards

		return policy{
			name: name + "/sharded" + strconv.Itoa(shards) + "/" + strconv.Itoa(capacity), n: shards, cap: per,
			make: func() (eviction.IAlgorithm, error) { return eviction.NewSharded(name, capacity, shards) },
			part: func(k string) int { return int(cache.Hash(k) & uint32(shards-1)) },
		}
	}

	return policy{
		name: name + "/" + strconv.Itoa(capacity), n: 1, cap: capacity,
		make: func() (eviction.IAlgorithm, error) { return construct(name, capacity) },
		part: func(string) int { return 0 },
	}
}

type op struct {
	kind string // set get del evict
	key  string
	val  int
}

func genOps(rt *rapid.T, p policy, maxOps int) []op {
	nkeys := rapid.IntRange(1, 2+2*p.cap*p.n).Draw(rt, "nkeys")
	if nkeys > 24 {
		nkeys = 24
	}

	keys := []string{}
	for i := range nkeys {
		keys = append(keys, fmt.Sprintf("k%d", i))
	}

	// the cache rejects empty keys; ARC uses "" for "none"
	if !strings.HasPrefix(p.name, "arc") && rapid.IntRange(0, 5).Draw(rt, "emptykey") == 0 {
		keys = append(keys, "")
	}

	kinds := rapid.SampledFrom([][]string{
		{"set", "get", "del", "evict"}, {"set", "set", "set", "get", "get"}, {"set", "set", "get", "evict"}, {"set", "get", "get", "del"}, {"set", "evict"},
	}).Draw(rt, "mix")

	n := rapid.IntRange(1, maxOps).Draw(rt, "n")
	ops := make([]op, 0, n)

	for i := range n {
		o := op{kind: rapid.SampledFrom(kinds).Draw(rt, "op"), val: i}
		if o.kind != "evict" {
			o.key = rapid.SampledFrom(keys).Draw(rt, "key")
		}

		ops = append(ops, o)

		if o.kind == "get" && rapid.IntRange(0, 5).Draw(rt, "burst") == 0 {
			for range rapid.IntRange(1, 6).Draw(rt, "burstlen") {
				ops = append(ops, o)
			}
		}
	}

	return ops
}

func (o op) apply(a eviction.IAlgorithm) (any, bool) {
	switch o.kind {
	case "set":
		a.Set(o.key, o.val)
	case "get":
		return a.Get(o.key)
	case "del":
		a.Delete(o.key)
	case "evict":
		return a.Evict()
	}

	return nil, false
}

// tracked replays ops on a fresh instance and drains it.
func tracked(rt *rapid.T, p policy, ops []op) []string {
	a, err := p.make()
	if err != nil {
		rt.Fatalf("%s: %v", p.name, err)
	}

	for _, o := range ops {
		o.apply(a)
	}

	out := []string{}

	for {
		k, ok := a.Evict()
		if !ok {
			if k != "" {
				rt.Fatalf("%s: Evict = %q, false", p.name, k)
			}

			break
		}

		if slices.Contains(out, k) {
			rt.Fatalf("%s: draining after %v returned %q twice", p.name, ops, k)
		}

		if _, still := a.Get(k); still {
			rt.Fatalf("%s: evicted %q is still found", p.name, k)
		}

		out = append(out, k)
		if len(out) > 10000 {
			rt.Fatalf("%s: draining does not end", p.name)
		}
	}

	return out
}

func TestC14Sets(t *testing.T) {
	rule := "histories of 1-40 Set/Get/Delete/Evict operations over every policy (and its sharded form, and ARC) at capacities 0-20; after each operation the tracked set is read by replaying the history on a fresh instance and draining it; non-trivial = some Set displaced a key or an Evict followed a Delete"
	vh.Run(t, "tracked set", rule, 1200, func(rt *rapid.T, c *vh.Case) {
		p := genPolicy(rt, names)
		ops := genOps(rt, p, 30)
		c.Log("%s", p.name)

		a, err := p.make()
		if err != nil {
			rt.Fatalf("%s: %v", p.name, err)
		}

		set := map[string]int{} // tracked key -> latest value
		deleted, displaced := false, false

		for i, o := range ops {
			c.Log("%s %s", o.kind, o.key)

			got, ok := o.apply(a)
			want := maps.Clone(set)
			part := 0

			for k := range set {
				if p.part(k) == p.part(o.key) {
					part++
				}
			}

			_, had := set[o.key]
			lose := 0

			switch o.kind {
			case "get":
				if ok != had || (had && got != any(set[o.key])) {
					rt.Fatalf("%s: step %d Get(%q) = %v, %v; tracked %v", p.name, i, o.key, got, ok, set)
				}
			case "del":
				deleted = deleted || had
				delete(want, o.key)
			case "evict":
				k, _ := got.(string)
				if _, present := set[k]; ok != (len(set) > 0) || (ok && !present) {
					rt.Fatalf("%s: step %d Evict() = %q, %v; tracked %v", p.name, i, k, ok, set)
				}

				if ok {
					delete(want, k)
				}

				if deleted {
					c.NT(true)
				}
			case "set":
				if p.cap == 0 {
					break
				}

				want[o.key] = o.val

				if !had && part == p.cap {
					lose = 1
					displaced = true
				}
			}

			now := tracked(rt, p, ops[:i+1])
			sort.Strings(now)

			missing := []string{}

			for k := range want {
				if _, ok := slices.BinarySearch(now, k); !ok {
					missing = append(missing, k)
				}
			}

			for _, k := range now {
				if _, ok := want[k]; !ok {
					rt.Fatalf("%s: after step %d (%s %q) %q is tracked, expected %v", p.name, i, o.kind, o.key, k, want)
				}
			}

			if len(missing) != lose {
				rt.Fatalf("%s: after step %d (%s %q) tracked %q, before %v; %d keys may go, gone %q", p.name, i, o.kind, o.key, now, set, lose, missing)
			}

			for _, k := range missing {
				if k == o.key || p.part(k) != p.part(o.key) {
					rt.Fatalf("%s: step %d Set(%q) displaced %q", p.name, i, o.key, k)
				}

				delete(want, k)
			}

			if len(now) > p.cap*p.n {
				rt.Fatalf("%s: %d keys tracked", p.name, len(now))
			}

			set = want
		}

		// the driven instance agrees: every key, latest value
		for _, k := range slices.Sorted(maps.Keys(set)) {
			if v, ok := a.Get(k); !ok || v != any(set[k]) {
				rt.Fatalf("%s: Get(%q) = %v, %v at the end, want %d", p.name, k, v, ok, set[k])
			}
		}

		c.NT(displaced)
		c.LabelIf(displaced, "displaced")
		c.Label(p.name[:3])
	})
}

// TestC14Long: long histories without replays; the instance's own answers
// must stay consistent with some tracked set.
func TestC14Long(t *testing.T) {
	rule := "histories of 200-2000 operations on one instance; at most capacity keys are found at checkpoints by a drain, evicted and deleted keys are gone; non-trivial = more distinct keys than capacity"
	vh.Run(t, "long", rule, 200, func(rt *rapid.T, c *vh.Case) {
		p := genPolicy(rt, names)
		seed := rapid.Uint64().Draw(rt, "seed")
		n := rapid.IntRange(200, 2000).Draw(rt, "n")
		nkeys := rapid.IntRange(1, 40).Draw(rt, "nkeys")
		w := [4]int{rapid.IntRange(1, 6).Draw(rt, "w0"), rapid.IntRange(0, 6).Draw(rt, "w1"), rapid.IntRange(0, 3).Draw(rt, "w2"), rapid.IntRange(0, 3).Draw(rt, "w3")}
		c.Log("%s seed %d n %d keys %d weights %v", p.name, seed, n, nkeys, w)
		c.NT(nkeys > p.cap*p.n && p.cap > 0)

		a, err := p.make()
		if err != nil {
			rt.Fatalf("%v", err)
		}

		next := func(m int) int {
			seed = seed*6364136223846793005 + 1442695040888963407

			return int((seed >> 33) % uint64(m))
		}

		latest := map[string]int{}
		gone := map[string]bool{} // certainly not tracked

		for i := range n {
			k := fmt.Sprintf("k%d", next(nkeys))

			switch r := next(w[0] + w[1] + w[2] + w[3]); {
			case r < w[0]:
				a.Set(k, i)

				latest[k] = i
				delete(gone, k)

				if v, ok := a.Get(k); p.cap > 0 && (!ok || v != any(i)) {
					rt.Fatalf("%s: step %d just set %q, Get = %v, %v", p.name, i, k, v, ok)
				}
			case r < w[0]+w[1]:
				v, ok := a.Get(k)
				if ok && (gone[k] || v != any(latest[k])) {
					rt.Fatalf("%s: step %d Get(%q) = %v, latest %d gone %v", p.name, i, k, v, latest[k], gone[k])
				}
			case r < w[0]+w[1]+w[2]:
				a.Delete(k)

				gone[k] = true

				if _, ok := a.Get(k); ok {
					rt.Fatalf("%s: step %d deleted %q is found", p.name, i, k)
				}
			default:
				ek, ok := a.Evict()
				if _, known := latest[ek]; ok && (!known || gone[ek]) {
					rt.Fatalf("%s: step %d evicted %q which is not tracked", p.name, i, ek)
				}

				if ok {
					gone[ek] = true

					if _, still := a.Get(ek); still {
						rt.Fatalf("%s: step %d evicted %q is found", p.name, i, ek)
					}
				}
			}
		}

		// Get and drain must agree on what is tracked
		found := map[string]bool{}

		for k := range latest {
			if _, ok := a.Get(k); ok {
				found[k] = true
			}
		}

		if len(found) > p.cap*p.n {
			rt.Fatalf("%s: %d keys found", p.name, len(found))
		}

		for k, ok := a.Evict(); ok; k, ok = a.Evict() {
			if !found[k] {
				rt.Fatalf("%s: drained %q which was not found (or twice)", p.name, k)
			}

			delete(found, k)
		}

		if len(found) > 0 {
			rt.Fatalf("%s: %v found but never evicted", p.name, found)
		}
	})
}

// TestC14Concurrent: goroutines on one instance; keys are conserved.
func TestC14Concurrent(t *testing.T) {
	rule := "2-5 goroutines set disjoint fresh keys, read, delete and evict on one instance; every key ends exactly once as deleted, evicted or tracked when capacity suffices, and never above capacity otherwise; non-trivial = all"
	vh.Run(t, "concurrent", rule, 120, func(rt *rapid.T, c *vh.Case) {
		name := rapid.SampledFrom(names).Draw(rt, "policy")
		g := rapid.IntRange(2, 5).Draw(rt, "g")
		per := rapid.IntRange(10, 60).Draw(rt, "per")
		roomy := rapid.Bool().Draw(rt, "roomy")
		sharded := rapid.Bool().Draw(rt, "sharded") && name != "arc"
		capacity := g * per

		if !roomy {
			capacity = rapid.IntRange(1, 10).Draw(rt, "cap")
		}

		c.Log("%s g%d per%d cap%d sharded=%v", name, g, per, capacity, sharded)
		c.NT(true)

		a, err := construct(name, capacity)
		bound := capacity

		if sharded {
			total := capacity
			if roomy {
				total = capacity * 4 // room in every shard whatever the hash does
			}

			a, err = eviction.NewSharded(name, total, 4)
			bound = (total + 3) / 4 * 4
		}

		if err != nil {
			rt.Fatalf("%v", err)
		}

		var mu sync.Mutex

		evicted := map[string]int{}
		fail := ""

		vh.Within(rt, 0+30e9, "concurrent use of "+name, func() {
			var wg sync.WaitGroup
			for w := range g {
				wg.Go(func() {
					mine := []string{}

					for i := range per {
						k := fmt.Sprintf("g%d-%d", w, i)
						a.Set(k, k)

						mine = append(mine, k)

						if v, ok := a.Get(mine[i/2]); ok && v != any(mine[i/2]) {
							mu.Lock()
							fail = fmt.Sprintf("Get(%q) = %v", mine[i/2], v)
							mu.Unlock()
						}

						if i%3 == 0 {
							if e, ok := a.Evict(); ok {
								mu.Lock()
								evicted[e]++
								mu.Unlock()
							}
						}
					}
				})
			}

			wg.Wait()
		})

		if fail != "" {
			rt.Fatalf("%s: %s", name, fail)
		}

		n := 0
		for k, ok := a.Evict(); ok; k, ok = a.Evict() {
			evicted[k]++
			n++
		}

		if n > bound {
			rt.Fatalf("%s: %d keys tracked at capacity %d", name, n, bound)
		}

		for k, m := range evicted {
			if m > 1 {
				rt.Fatalf("%s: %q evicted %d times though set once", name, k, m)
			}
		}

		if roomy && len(evicted) != g*per {
			rt.Fatalf("%s: %d of %d keys came out", name, len(evicted), g*per)
		}
	})
}

func TestC14Registry(t *testing.T) {
	rule := "registry lookups with known, unknown, empty and re-registered names and any capacity, sharded construction with any shard count; non-trivial = a rejected construction"
	vh.Run(t, "registry", rule, 300, func(rt *rapid.T, c *vh.Case) {
		name := rapid.SampledFrom([]string{"lru", "lfu", "clock", "cawolfu", "arc", "LRU", "", "x"}).Draw(rt, "name")
		capacity := rapid.IntRange(-3, 50).Draw(rt, "cap")
		c.Log("%s %d", name, capacity)

		ok := slices.Contains([]string{"lru", "lfu", "clock", "cawolfu"}, name) && capacity >= 0
		c.NT(!ok)

		a, err := eviction.NewEvictionAlgorithm(name, capacity)
		if (err == nil) != ok || (ok && a == nil) {
			rt.Fatalf("NewEvictionAlgorithm(%q, %d) = %v, %v", name, capacity, a, err)
		}

		if _, err := eviction.NewEmptyAlgorithmRegistry().NewAlgorithm(name, capacity); err == nil {
			rt.Fatalf("an empty registry made %q", name)
		}

		shards := rapid.IntRange(-2, 70).Draw(rt, "shards")
		okS := ok && shards > 0 && shards&(shards-1) == 0

		s, err := eviction.NewSharded(name, capacity, shards)
		if (err == nil) != okS {
			rt.Fatalf("NewSharded(%q, %d, %d) = %v, %v", name, capacity, shards, s, err)
		}
	})
}
