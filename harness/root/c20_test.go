package root_test

import (
	"cmp"
	"context"
	"fmt"
	"reflect"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

type lister interface {
	List(ctx context.Context, filters ...backend.IFilter) ([]*cache.Item, error)
}

var orders = map[string]func(a, b *cache.Item) int{
	"Key":         func(a, b *cache.Item) int { return strings.Compare(a.Key, b.Key) },
	"Size":        func(a, b *cache.Item) int { return cmp.Compare(a.Size, b.Size) },
	"LastAccess":  func(a, b *cache.Item) int { return a.LastAccess.Compare(b.LastAccess) },
	"AccessCount": func(a, b *cache.Item) int { return cmp.Compare(a.AccessCount, b.AccessCount) },
	"Expiration":  func(a, b *cache.Item) int { return cmp.Compare(a.Expiration, b.Expiration) },
}

type pred struct {
	name string
	fn   func(it *cache.Item) bool
}

func drawPred(rt *rapid.T) pred {
	n := rapid.IntRange(0, 12).Draw(rt, "n")

	switch rapid.IntRange(0, 7).Draw(rt, "pred") {
	case 0:
		return pred{fmt.Sprint("size>", n), func(it *cache.Item) bool { return it.Size > int64(n) }}
	case 1:
		return pred{fmt.Sprint("count>=", n%4), func(it *cache.Item) bool { return it.AccessCount >= uint32(n%4) }}
	case 2:
		return pred{"ttl", func(it *cache.Item) bool { return it.Expiration > 0 }}
	case 3:
		return pred{fmt.Sprint("key%", n%3), func(it *cache.Item) bool { return len(it.Key)%3 == n%3 }}
	case 4:
		return pred{"string", func(it *cache.Item) bool { _, ok := it.Value.(string); return ok }}
	case 5:
		return pred{"all", func(*cache.Item) bool { return true }}
	case 6:
		return pred{"none", func(*cache.Item) bool { return false }}
	default:
		return pred{fmt.Sprint("key<", n), func(it *cache.Item) bool { return it.Key < fmt.Sprintf("k%02d", n) }}
	}
}

// judge draws filters, lists with them and compares with the reference
// computed from the unfiltered content; it reports whether an order of at
// least three items with distinct ranks was checked.
func judge(rt *rapid.T, c *vh.Case, l lister, want []*cache.Item) bool {
	ctx := context.Background()

	var (
		filters []backend.IFilter
		names   []string
		preds   []pred
		by      string
		desc    bool
	)

	addPreds := func(label string) {
		for range rapid.IntRange(0, 2).Draw(rt, label) {
			p := drawPred(rt)
			preds = append(preds, p)
			names = append(names, p.name)
			filters = append(filters, backend.WithFilterFunc(p.fn))
		}
	}

	addPreds("before")

	if rapid.IntRange(0, 5).Draw(rt, "sort") > 0 {
		fields := []string{"Key", "Size", "LastAccess", "AccessCount", "Expiration", "bogus", "key", ""}
		by = rapid.SampledFrom(fields).Draw(rt, "by")
		names = append(names, fmt.Sprintf("by %q", by))
		filters = append(filters, backend.WithSortBy(by))

		if orders[by] == nil {
			addPreds("after")

			if got, err := l.List(ctx, filters...); err == nil {
				rt.Fatalf("List(%q) accepted an unknown sort field: %v", names, got)
			}

			return false
		}

		addPreds("between")

		if o := rapid.SampledFrom([]string{"", "asc", "desc"}).Draw(rt, "order"); o != "" {
			desc = o == "desc"
			names = append(names, o)
			filters = append(filters, backend.WithSortOrderAsc(!desc))
		}
	}

	addPreds("after")
	c.Log("list %q", names)

	got, err := l.List(ctx, filters...)
	if err != nil {
		rt.Fatalf("List(%q): %v", names, err)
	}

	left := map[string]*cache.Item{}

	for _, it := range want {
		keep := true
		for _, p := range preds {
			keep = keep && p.fn(it)
		}

		if keep {
			left[it.Key] = it
		}
	}

	n := len(left)
	ranks := map[string]bool{}

	for i, it := range got {
		w := left[it.Key]
		if w == nil {
			rt.Fatalf("List(%q) returned %q, which does not match, is not stored or was returned before", names, it.Key)
		}

		delete(left, it.Key)

		if !reflect.DeepEqual(*it, *w) {
			rt.Fatalf("List(%q): %q is %+v, stored %+v", names, it.Key, *it, *w)
		}

		if by == "" {
			continue
		}

		ranks[fmt.Sprint(reflect.ValueOf(it).Elem().FieldByName(by))] = true

		if i > 0 {
			if o := orders[by](got[i-1], it); o > 0 && !desc || o < 0 && desc {
				rt.Fatalf("List(%q): %+v before %+v", names, *got[i-1], *it)
			}
		}
	}

	if len(left) > 0 {
		rt.Fatalf("List(%q) returned %d of %d items, missing %v", names, len(got), n, left)
	}

	// what is returned belongs to the caller
	for _, it := range got {
		it.Key, it.AccessCount, it.Size, it.Expiration, it.Value = "spoiled", 999, -1, 1, nil
	}

	return len(ranks) >= 3
}

func content(rt *rapid.T, l lister) []*cache.Item {
	items, err := l.List(context.Background())
	if err != nil {
		rt.Fatalf("List: %v", err)
	}

	slices.SortFunc(items, orders["Key"])

	return items
}

func sameContent(rt *rapid.T, was, is []*cache.Item, what string) {
	if len(was) != len(is) {
		rt.Fatalf("%s: %d items, then %d", what, len(was), len(is))
	}

	for i := range was {
		if !reflect.DeepEqual(*was[i], *is[i]) {
			rt.Fatalf("%s: %+v became %+v", what, *was[i], *is[i])
		}
	}
}

func TestC20Model(t *testing.T) {
	vh.Run(t, "model", "caches of 0..60 items with varied sizes, times to live, access counts and access times are listed with random combinations of 0..6 filter functions, a sort field and a direction; the result is compared with the reference filtering of the content known from the operations; the content must be untouched by listing and by changes to the result; unknown fields must be rejected; non-trivial: >=2 listings ordered >=3 distinct ranks", 6000, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			s := drawRoomy(rt)
			s.capacity, s.expireIvl, s.maxSize = 0, 0, 0

			ctx := context.Background()
			hc := s.build(ctx, rt.Fatalf)

			defer func() { _ = hc.Stop(ctx) }()

			n := rapid.IntRange(0, 60).Draw(rt, "n")
			c.Log("%v n=%d", s, n)

			model := map[string]*cache.Item{}

			for range n {
				k := fmt.Sprintf("k%02d%s", rapid.IntRange(0, 70).Draw(rt, "k"), rapid.SampledFrom([]string{"", "x", "é"}).Draw(rt, "suffix"))
				if rapid.IntRange(0, 5).Draw(rt, "long") == 0 { // long keys that differ only at their end
					k = "k-" + strings.Repeat("long", 20) + k
				}

				var v any = rapid.StringN(1, 14, -1).Draw(rt, "v")
				size := int64(len(v.(string)))

				if rapid.IntRange(0, 3).Draw(rt, "bytes") == 0 {
					v = []byte(v.(string))
				}

				if rapid.IntRange(0, 5).Draw(rt, "huge") == 0 {
					size = rapid.OneOf(rapid.Int64Range(0, 1<<50), rapid.SampledFrom([]int64{1 << 31, 1<<31 - 1, 1 << 32, 1<<32 + 3, 1 << 15, 255, 256})).Draw(rt, "size")
					v = sized{int(size)}
				}

				ttl := rapid.SampledFrom([]time.Duration{0, 0, time.Hour, 2 * time.Hour, 72 * time.Hour}).Draw(rt, "ttl")

				if err := hc.Set(ctx, k, v, ttl); err != nil {
					rt.Fatalf("Set: %v", err)
				}

				model[k] = &cache.Item{Key: k, Value: v, Size: size, Expiration: ttl, LastAccess: time.Now()}

				if rapid.Bool().Draw(rt, "tick") {
					time.Sleep(time.Duration(rapid.IntRange(1, 1000).Draw(rt, "us")) * time.Microsecond)
				}
			}

			keys := slices.Sorted(func(yield func(string) bool) {
				for k := range model {
					if !yield(k) {
						return
					}
				}
			})

			if len(keys) > 0 {
				for range rapid.IntRange(0, 30).Draw(rt, "gets") {
					k := rapid.SampledFrom(keys).Draw(rt, "k")

					for range rapid.SampledFrom([]int{1, 1, 1, 1, 1, 130, 260}).Draw(rt, "times") {
						if _, ok := hc.Get(ctx, k); !ok {
							rt.Fatalf("Get(%q) missed", k)
						}

						model[k].AccessCount++
					}

					model[k].LastAccess = time.Now()

					if rapid.Bool().Draw(rt, "tick") {
						time.Sleep(time.Microsecond)
					}
				}

				for range rapid.IntRange(0, 3).Draw(rt, "removes") {
					k := rapid.SampledFrom(keys).Draw(rt, "k")
					_ = hc.Remove(ctx, k)

					delete(model, k)
				}
			}

			was := content(rt, hc)
			if len(was) != len(model) {
				rt.Fatalf("%d items listed, %d stored", len(was), len(model))
			}

			for _, it := range was {
				if m := model[it.Key]; m == nil || !reflect.DeepEqual(*m, *it) {
					rt.Fatalf("listed %+v, stored %+v", *it, m)
				}
			}

			ordered := 0

			for range rapid.IntRange(1, 6).Draw(rt, "lists") {
				time.Sleep(time.Millisecond)

				if judge(rt, c, hc, was) {
					ordered++
				}

				sameContent(rt, was, content(rt, hc), "listing changed the cache")
			}

			c.NT(ordered >= 2)
		})
	})
}

func TestC20Dist(t *testing.T) {
	vh.Run(t, "dist", "the same reference listing on a single distributed node; non-trivial: >=1 listing ordered >=3 distinct ranks", 1500, func(rt *rapid.T, c *vh.Case) {
		ctx := context.Background()

		b, err := backend.NewDistMemory(ctx)
		if err != nil {
			rt.Fatalf("NewDistMemory: %v", err)
		}

		dm := b.(*backend.DistMemory)

		defer func() { _ = dm.Stop(ctx) }()

		n := rapid.IntRange(0, 30).Draw(rt, "n")
		if rapid.IntRange(0, 29).Draw(rt, "many") == 0 {
			n = rapid.SampledFrom([]int{200, 700}).Draw(rt, "nMany")
		}

		model := map[string]string{}

		for range n {
			k := fmt.Sprintf(rapid.SampledFrom([]string{"k%02d", "k%d", "K%02d", "k%02d.a", "é%d", "a/%d"}).Draw(rt, "fam"), rapid.IntRange(0, 40+n).Draw(rt, "k"))
			v := rapid.StringN(1, 9, -1).Draw(rt, "v")
			// differences of every magnitude, next to each other or far apart
			base := time.Duration(rapid.IntRange(0, 3).Draw(rt, "ttl")) * time.Hour
			if base > 0 {
				base += time.Duration(rapid.SampledFrom([]int64{0, 1, 2, 999, 1e6, 5e8, 1e9, 1e15, 1<<62 - 1<<50}).Draw(rt, "fine"))
			}

			it := &cache.Item{
				Key: k, Value: v, Size: int64(len(v)), Expiration: base, LastAccess: time.Now(),
				AccessCount: rapid.OneOf(rapid.Uint32Range(0, 5), rapid.SampledFrom([]uint32{254, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1}), rapid.Uint32()).Draw(rt, "ac"),
			}

			if rapid.IntRange(0, 3).Draw(rt, "farSize") == 0 {
				it.Size = rapid.SampledFrom([]int64{0, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<53 + 1, 1 << 53, 1<<63 - 1}).Draw(rt, "size")
			}

			if rapid.IntRange(0, 1).Draw(rt, "access") == 0 {
				it.LastAccess = it.LastAccess.Add(-time.Duration(rapid.SampledFrom([]int64{1, 2, 500, 1000, 1e5, 1e6 + 1, 1e9, 2e9 + 1}).Draw(rt, "ago")))
			}

			if err := dm.Set(ctx, it); err != nil {
				rt.Fatalf("Set: %v", err)
			}

			model[k] = v
		}

		was := content(rt, dm)
		if len(was) != len(model) {
			rt.Fatalf("%d items listed, %d stored", len(was), len(model))
		}

		for _, it := range was {
			if it.Value != model[it.Key] {
				rt.Fatalf("listed %+v, stored %q", *it, model[it.Key])
			}
		}

		ordered := 0

		for range rapid.IntRange(1, 4).Draw(rt, "lists") {
			if judge(rt, c, dm, was) {
				ordered++
			}

			sameContent(rt, was, content(rt, dm), "listing changed the store")
		}

		c.NT(ordered > 0)
	})
}

func TestC20Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "listings with a random direction run while 1..3 goroutines add and remove other keys; every listing holds each stable key exactly once, no key twice, nothing never written, in order; non-trivial: >=20 stable keys", 600, func(rt *rapid.T, c *vh.Case) {
		s := drawRoomy(rt)
		s.capacity, s.evictIvl, s.expireIvl = 0, 0, 0
		n := rapid.IntRange(1, 3).Draw(rt, "n")
		stable := rapid.IntRange(0, 80).Draw(rt, "stable")
		desc := rapid.Bool().Draw(rt, "desc")
		c.Log("%v n=%d stable=%d desc=%v", s, n, stable, desc)

		ctx := context.Background()
		hc := s.build(ctx, rt.Fatalf)

		defer func() { _ = hc.Stop(ctx) }()

		for i := range stable {
			_ = hc.Set(ctx, fmt.Sprintf("s%03d", i), i, 0)
		}

		var wg sync.WaitGroup

		done := make(chan struct{})

		for g := range n {
			wg.Go(func() {
				for i := 0; ; i++ {
					select {
					case <-done:
						return
					default:
					}

					k := fmt.Sprintf("t%d-%02d", g, i%40)
					if i%3 == 2 {
						_ = hc.Remove(ctx, k)
					} else {
						_ = hc.Set(ctx, k, i, 0)
					}
				}
			})
		}

		fail := ""

		for range 15 {
			got, err := hc.List(ctx, backend.WithFilterFunc(func(it *cache.Item) bool { return it.Key[0] == 's' || it.Key[0] == 't' }), backend.WithSortBy("Key"), backend.WithSortOrderAsc(!desc))
			if err != nil {
				fail = err.Error()

				break
			}

			seen := 0

			for i, it := range got {
				if it.Key[0] == 's' {
					seen++
				}

				if i > 0 && (got[i-1].Key == it.Key || (got[i-1].Key > it.Key) != desc) {
					fail = fmt.Sprintf("%q before %q", got[i-1].Key, it.Key)
				}
			}

			if seen != stable || len(got) > stable+n*40 {
				fail = fmt.Sprintf("%d of %d stable keys listed, %d in all", seen, stable, len(got))
			}
		}

		close(done)
		wg.Wait()

		if fail != "" {
			rt.Fatalf("%s", fail)
		}

		c.NT(stable >= 20)
	})
}
