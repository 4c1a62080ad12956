package redis_test

import (
	"bytes"
	"context"
	"encoding/gob"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	goredis "github.com/redis/go-redis/v9"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/libs/serializer"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/pkg/backend/redis"
	"github.com/hyp3rd/hypercache/pkg/backend/rediscluster"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

// quiet drops the client library's log.
type quiet struct{}

func (quiet) Printf(context.Context, string, ...any) {}

func init() { goredis.SetLogger(quiet{}) }

// store is what the two Redis backends have in common.
type store interface {
	Get(ctx context.Context, key string) (*cache.Item, bool)
	Set(ctx context.Context, item *cache.Item) error
	Remove(ctx context.Context, keys ...string) error
	List(ctx context.Context, filters ...backend.IFilter) ([]*cache.Item, error)
	Clear(ctx context.Context) error
	Count(ctx context.Context) int
	Capacity() int
	SetCapacity(n int)
}

// gobSerializer is a user's own serializer: unlike JSON it keeps every type.
type gobSerializer struct{}

func (gobSerializer) Marshal(v any) ([]byte, error) {
	var b bytes.Buffer

	err := gob.NewEncoder(&b).Encode(v)

	return b.Bytes(), err
}

func (gobSerializer) Unmarshal(data []byte, v any) error {
	return gob.NewDecoder(bytes.NewReader(data)).Decode(v)
}

// rig is a server and a backend on it.
type rig struct {
	f       *fake
	b       store
	index   string // name of the set of keys
	gob     bool
	closers []func()
}

func (r *rig) close() {
	for _, c := range r.closers {
		c()
	}

	r.f.close()
}

func newRig(rt *rapid.T, c *vh.Case, retries int) *rig {
	clustered := rapid.Bool().Draw(rt, "clustered")
	n := 1

	if clustered {
		n = rapid.IntRange(1, 4).Draw(rt, "nodes")
	}

	r := &rig{f: newFake(n, clustered, nil), index: constants.RedisBackend}
	r.f.tips = rapid.Bool().Draw(rt, "redis7")
	ser := rapid.SampledFrom([]string{"", "default", "gob"}).Draw(rt, "serializer")
	named := rapid.SampledFrom([]string{"", "", "hypercache", "my keys", "{a}set"}).Draw(rt, "keysSet")
	capacity := rapid.IntRange(0, 5).Draw(rt, "capacity")
	r.gob = ser == "gob"

	if named != "" {
		r.index = named
	}

	var s serializer.ISerializer

	switch ser {
	case "default":
		s, _ = serializer.New("default")
	case "gob":
		s = gobSerializer{}
	}

	c.Log("%d nodes clustered=%v redis7=%v serializer=%q keysSet=%q retries=%d", n, clustered, r.f.tips, ser, named, retries)
	c.LabelIf(clustered, "cluster")
	c.LabelIf(!clustered, "single")
	c.LabelIf(r.gob, "own-serializer")

	var err error

	if clustered {
		st, e := rediscluster.New(rediscluster.WithAddrs(r.f.addrs()...), rediscluster.WithMinIdleConns(0), rediscluster.WithPoolSize(2),
			rediscluster.WithMaxRetries(retries),
			func(o *goredis.ClusterOptions) {
				o.MinRetryBackoff, o.MaxRetryBackoff = time.Millisecond, 2*time.Millisecond
			})
		if e != nil {
			rt.Fatalf("rediscluster.New: %v", e)
		}

		r.closers = append(r.closers, func() { _ = st.Client.Close() })

		o := []backend.Option[backend.RedisCluster]{backend.WithRedisClusterClient(st.Client), backend.WithCapacity[backend.RedisCluster](capacity)}
		if named != "" {
			o = append(o, backend.WithClusterKeysSetName(named))
		}

		if s != nil {
			o = append(o, backend.WithClusterSerializer(s))
		}

		var b backend.IBackend[backend.RedisCluster]

		b, err = backend.NewRedisCluster(o...)
		r.b = b
	} else {
		st, e := redis.New(redis.WithAddr(r.f.addrs()[0]), redis.WithMinIdleConns(0), redis.WithPoolSize(2), redis.WithMaxRetries(retries),
			func(o *goredis.Options) { o.MinRetryBackoff, o.MaxRetryBackoff = time.Millisecond, 2*time.Millisecond })
		if e != nil {
			rt.Fatalf("redis.New: %v", e)
		}

		r.closers = append(r.closers, func() { _ = st.Client.Close() })

		o := []backend.Option[backend.Redis]{backend.WithRedisClient(st.Client), backend.WithCapacity[backend.Redis](capacity)}
		if named != "" {
			o = append(o, backend.WithKeysSetName(named))
		}

		if s != nil {
			o = append(o, backend.WithSerializer(s))
		}

		var b backend.IBackend[backend.Redis]

		b, err = backend.NewRedis(o...)
		r.b = b
	}

	if err != nil {
		r.close()
		rt.Fatalf("new backend: %v", err)
	}

	if r.b.Capacity() != capacity {
		rt.Fatalf("capacity %d after constructing with %d", r.b.Capacity(), capacity)
	}

	return r
}

var keyPool = []string{"a", "b", "c", "{t}1", "{t}2", "key with spaces", "kлюч-ключ", "bin\x00\xff\r\n", "redis2", "k:7", "*", "data"}

func (r *rig) drawKey(rt *rapid.T, label string) string {
	return rapid.OneOf(rapid.SampledFrom(keyPool), rapid.SampledFrom(keyPool), rapid.Just(r.index), rapid.StringN(1, 12, -1)).
		Filter(func(s string) bool { return strings.TrimSpace(s) != "" }).Draw(rt, label)
}

func (r *rig) drawValue(rt *rapid.T) any {
	g := []*rapid.Generator[any]{
		rapid.StringN(0, 20, -1).AsAny(),
		rapid.Bool().AsAny(),
		rapid.SampledFrom([]any{1.5, float64(1 << 52), -0.25, "<&>\u2028", "null", "{}", ""}),
	}

	if r.gob {
		g = append(g, rapid.Int().AsAny(), rapid.Uint64().AsAny(), rapid.SliceOfN(rapid.Byte(), 1, 20).AsAny(),
			rapid.Just[any](string([]byte{0xff, 0, 0xc3})))
	} else {
		g = append(g, rapid.SampledFrom([]any{
			map[string]any{"a": []any{1.0, "x", nil, true}, "": map[string]any{}},
			[]any{}, []any{nil, "z"},
		}))
	}

	return rapid.OneOf(g...).Draw(rt, "value")
}

func drawTTL(rt *rapid.T) time.Duration {
	return rapid.OneOf(
		rapid.SampledFrom([]time.Duration{0, 0, 0, time.Millisecond, 500 * time.Microsecond, time.Nanosecond, time.Second, 1500 * time.Millisecond,
			999 * time.Millisecond, 2*time.Second + time.Nanosecond, 2999999 * time.Microsecond, time.Minute, time.Hour, 1 << 62}),
		rapid.Custom(func(rt *rapid.T) time.Duration {
			return time.Duration(rapid.Int64Range(1, int64(10*time.Second)).Draw(rt, "ns"))
		}),
	).Draw(rt, "ttl")
}

// same compares what was stored with what came back.
func same(a, b *cache.Item) string {
	switch {
	case b == nil:
		return "no item"
	case a.Key != b.Key:
		return fmt.Sprintf("key %q is %q", a.Key, b.Key)
	case !reflect.DeepEqual(a.Value, b.Value):
		return fmt.Sprintf("value %#v is %#v", a.Value, b.Value)
	case a.Size != b.Size || a.Expiration != b.Expiration || a.AccessCount != b.AccessCount || a.Version != b.Version || a.Origin != b.Origin:
		return fmt.Sprintf("%+v is %+v", a, b)
	case !a.LastAccess.Equal(b.LastAccess) || !a.LastUpdated.Equal(b.LastUpdated):
		return fmt.Sprintf("times %v %v are %v %v", a.LastAccess, a.LastUpdated, b.LastAccess, b.LastUpdated)
	}

	return ""
}

func (r *rig) drawItem(rt *rapid.T, key string) *cache.Item {
	it := &cache.Item{
		Key: key, Value: r.drawValue(rt), Expiration: drawTTL(rt),
		Size: int64(rapid.IntRange(0, 1000).Draw(rt, "size")), AccessCount: uint32(rapid.IntRange(0, 9).Draw(rt, "acc")),
		LastAccess: time.Unix(rapid.Int64Range(0, 1<<31).Draw(rt, "la"), 123456789).UTC(),
	}
	if rapid.Bool().Draw(rt, "versioned") {
		it.Version, it.Origin, it.LastUpdated = uint64(rapid.IntRange(1, 9).Draw(rt, "v")), "n1", it.LastAccess.Add(time.Nanosecond)
	}

	if rapid.IntRange(0, 5).Draw(rt, "far") == 0 {
		it.Size = rapid.SampledFrom([]int64{1 << 20, 1<<31 + 1, 1<<53 + 1, 1<<63 - 1}).Draw(rt, "farSize")
		it.AccessCount = rapid.SampledFrom([]uint32{255, 256, 65536, 1 << 31, 1<<32 - 1}).Draw(rt, "farAcc")
		it.Version = rapid.SampledFrom([]uint64{1 << 32, 1<<53 + 1, 1<<64 - 1}).Draw(rt, "farVersion")
	}

	return it
}

// want is the model: an item and when it expires.
type want struct {
	it *cache.Item
	at time.Duration // not readable from here on, 0 for never
	// until is the time up to which it has to be readable: Redis keeps
	// time-to-lives in milliseconds, and none below one.
	until time.Duration
}

func (w want) state(now time.Duration) (must, may bool) {
	return w.at == 0 || now < w.until, w.at == 0 || now < w.at
}

func expiry(now, ttl time.Duration) (until, at time.Duration) {
	if ttl <= 0 {
		return 0, 0
	}

	if ttl > 1<<60 {
		ttl = 1 << 60
	}

	return now + ttl, now + ttl + time.Millisecond
}

func TestC35Model(t *testing.T) {
	vh.Run(t, "model", "at least one overwrite or removal, and one item set again or expired", 1000, func(rt *rapid.T, c *vh.Case) {
		r := newRig(rt, c, 0)
		defer r.close()

		model := map[string]want{}
		now := time.Duration(0)
		overwrites, expired := 0, 0
		ends := []time.Duration{} // of all items ever stored

		// Keys that are or were in use come up more often.
		used := []string{}
		drawKey := func(rt *rapid.T) string {
			if len(used) > 0 && rapid.IntRange(0, 2).Draw(rt, "known") > 0 {
				return rapid.SampledFrom(used).Draw(rt, "used")
			}

			k := r.drawKey(rt, "key")
			if len(used) < 6 {
				used = append(used, k)
			}

			return k
		}
		live := func() (must, may []string) {
			for k, w := range model {
				a, b := w.state(now)
				if a {
					must = append(must, k)
				}

				if b {
					may = append(may, k)
				} else {
					delete(model, k)

					expired++
				}
			}

			sort.Strings(must)
			sort.Strings(may)

			return must, may
		}
		get := func(k string) {
			it, ok := r.b.Get(bg, k)
			w, had := model[k]
			must, may := w.state(now)

			switch {
			case had && must && !ok:
				rt.Fatalf("%q is not found (%v)\n%s", k, w.it, c.Desc())
			case ok && (!had || !may):
				rt.Fatalf("%q is found after it was removed or expired: %+v\n%s", k, it, c.Desc())
			case ok:
				if d := same(w.it, it); d != "" {
					rt.Fatalf("get %q: %s\n%s", k, d, c.Desc())
				}
				// What a reader does to its copy is its own business.
				it.Value, it.Key = "scribble", "scribble"
			case it != nil:
				rt.Fatalf("get %q returned an item and not found", k)
			}
		}

		rt.Repeat(map[string]func(*rapid.T){
			"set": func(rt *rapid.T) {
				k := drawKey(rt)
				it := r.drawItem(rt, k)
				before := *it
				err := r.b.Set(bg, it)
				c.Log("set %q %#v ttl=%v -> %v", k, it.Value, it.Expiration, err)

				if d := same(&before, it); d != "" {
					rt.Fatalf("Set changed the item: %s", d)
				}

				if k == r.index {
					// The cache's own index lives under this name: the key cannot be
					// stored, and has to be refused without harm.
					if err == nil {
						rt.Fatalf("an item was accepted under the name of the cache's index %q\n%s", k, c.Desc())
					}

					c.Label("index-name")

					return
				}

				if err != nil {
					rt.Fatalf("set %q: %v\n%s", k, err, c.Desc())
				}

				if _, ok := model[k]; ok {
					overwrites++
				}

				w := want{it: &before}
				w.until, w.at = expiry(now, it.Expiration)
				model[k] = w

				if w.at > 0 {
					ends = append(ends, w.until-1, w.at)
				}

				get(k)
			},
			"bad-set": func(rt *rapid.T) {
				k := r.drawKey(rt, "key")
				it := r.drawItem(rt, k)

				var sent error

				switch rapid.IntRange(0, 3).Draw(rt, "bad") {
				case 0:
					it.Key, sent = rapid.SampledFrom([]string{"", " ", "\t\n"}).Draw(rt, "blank"), sentinel.ErrInvalidKey
				case 1:
					it.Value, sent = nil, sentinel.ErrNilValue
				case 2:
					it.Expiration, sent = -time.Second, sentinel.ErrInvalidExpiration
				default:
					it.Value = make(chan int) // no serializer takes this
				}

				err := r.b.Set(bg, it)
				c.Log("bad set %q -> %v", k, err)

				if err == nil {
					rt.Fatalf("invalid item %+v accepted\n%s", it, c.Desc())
				}

				_ = sent
			},
			"get": func(rt *rapid.T) { get(drawKey(rt)) },
			"remove": func(rt *rapid.T) {
				n := rapid.IntRange(0, 4).Draw(rt, "n")
				ks := make([]string, 0, n)

				for range n {
					ks = append(ks, drawKey(rt))
				}

				err := r.b.Remove(bg, ks...)
				c.Log("remove %q -> %v", ks, err)

				if err != nil {
					rt.Fatalf("remove %q: %v\n%s", ks, err, c.Desc())
				}

				for _, k := range ks {
					if _, ok := model[k]; ok {
						overwrites++
					}

					delete(model, k)
				}

				// Nothing of a removed key stays behind.
				for _, left := range r.f.members(r.index) {
					if slices.Contains(ks, left) {
						rt.Fatalf("%q is still in the index after its removal\n%s", left, c.Desc())
					}
				}
			},
			"clear": func(rt *rapid.T) {
				if rapid.IntRange(0, 2).Draw(rt, "really") > 0 {
					return
				}

				err := r.b.Clear(bg)
				c.Log("clear -> %v", err)

				if err != nil {
					rt.Fatalf("clear: %v\n%s", err, c.Desc())
				}

				model = map[string]want{}
			},
			"advance": func(rt *rapid.T) {
				d := rapid.OneOf(rapid.Custom(drawTTL), rapid.SampledFrom([]time.Duration{time.Second, 100 * time.Millisecond})).
					Filter(func(d time.Duration) bool { return d < 2*time.Hour }).Draw(rt, "by")
				// Now and then land right before or after an expiry, also that of
				// an item replaced since.
				ends = slices.DeleteFunc(ends, func(at time.Duration) bool { return at < now || at-now > 2*time.Hour })
				if len(ends) > 0 && rapid.IntRange(0, 2).Draw(rt, "aim") > 0 {
					d = rapid.SampledFrom(ends).Draw(rt, "edge") - now
				}

				if d < 0 {
					d = 0
				}

				now += d
				r.f.advance(d)
				c.Log("advance %v to %v", d, now)
			},
			"list": func(rt *rapid.T) {
				must, may := live()
				mode := rapid.SampledFrom([]string{"all", "sorted", "desc", "filtered", "bad+filter"}).Draw(rt, "filters")

				var fs []backend.IFilter

				switch mode {
				case "sorted":
					fs = append(fs, backend.WithSortBy(constants.SortByKey.String()))
				case "desc":
					fs = append(fs, backend.WithSortBy(constants.SortByKey.String()), backend.WithSortOrderAsc(false))
				case "filtered":
					fs = append(fs, backend.WithFilterFunc(func(it *cache.Item) bool { return it.Key > "b" }))
				case "bad+filter":
					fs = append(fs, backend.WithSortBy("nonsense"), backend.WithFilterFunc(func(*cache.Item) bool { return true }))
				}

				items, err := r.b.List(bg, fs...)
				c.Log("list %s -> %d %v", mode, len(items), err)

				if mode == "bad+filter" {
					if err == nil {
						rt.Fatalf("an invalid sort field went unreported\n%s", c.Desc())
					}

					return
				}

				if err != nil {
					rt.Fatalf("list: %v\n%s", err, c.Desc())
				}

				got := map[string]bool{}

				var order []string

				for _, it := range items {
					w, ok := model[it.Key]
					if !ok || got[it.Key] {
						rt.Fatalf("listed %q, which is not stored or was listed before\n%s", it.Key, c.Desc())
					}

					if d := same(w.it, it); d != "" {
						rt.Fatalf("list: %s\n%s", d, c.Desc())
					}

					got[it.Key] = true

					order = append(order, it.Key)
				}

				if mode == "sorted" && !slices.IsSorted(order) {
					rt.Fatalf("listed out of order: %q", order)
				}

				if mode == "desc" {
					slices.Reverse(order)

					if !slices.IsSorted(order) {
						rt.Fatalf("listed out of descending order: %q", order)
					}
				}

				for _, k := range must {
					if !got[k] && (mode != "filtered" || k > "b") {
						rt.Fatalf("%q is not listed (got %q)\n%s", k, order, c.Desc())
					}
				}

				for k := range got {
					if !slices.Contains(may, k) || (mode == "filtered" && k <= "b") {
						rt.Fatalf("%q should not be listed\n%s", k, c.Desc())
					}
				}
			},
			"capacity": func(rt *rapid.T) {
				n, old := rapid.IntRange(-2, 9).Draw(rt, "n"), r.b.Capacity()
				r.b.SetCapacity(n)

				if n < 0 {
					n = old
				}

				if r.b.Capacity() != n {
					rt.Fatalf("capacity %d, want %d", r.b.Capacity(), n)
				}
			},
			"": func(rt *rapid.T) {
				must, may := live()
				if n := r.b.Count(bg); n < len(must) || n > len(may) {
					rt.Fatalf("count %d with the items %q\n%s", n, may, c.Desc())
				}
			},
		})

		for k := range model {
			get(k)
		}

		c.LabelIf(expired > 0, "expired")
		c.NT(overwrites > 0 && (expired > 0 || overwrites > 1))
	})
}

// Faults: an operation that failed says so, and leaves each key as it was or
// as the operation would have made it; one that succeeded took effect.
func TestC35Faults(t *testing.T) {
	vh.Run(t, "faults", "a fault hit and an operation failed or was retried", 200, func(rt *rapid.T, c *vh.Case) {
		r := newRig(rt, c, rapid.SampledFrom([]int{-1, -1, 1, 3}).Draw(rt, "retries"))
		defer r.close()

		// possible holds the states a key may be in: nil for absent.
		possible := map[string][]*cache.Item{}
		state := func(k string) []*cache.Item {
			if p, ok := possible[k]; ok {
				return p
			}

			return []*cache.Item{nil}
		}
		key := func(rt *rapid.T) string { return rapid.SampledFrom(keyPool[:6]).Draw(rt, "key") }
		// unsure holds the keys whose last write or removal failed: it may have been
		// half done, leaving data that is not reachable but takes space until the
		// key is written or removed again.
		unsure := map[string]bool{}
		check := func() {
			r.f.setFault(nil)

			found, hidden := 0, 0

			for _, k := range keyPool[:6] {
				it, ok := r.b.Get(bg, k)
				hit := false

				for _, p := range state(k) {
					if (p == nil && !ok) || (p != nil && ok && same(p, it) == "") {
						hit = true
					}
				}

				if !hit {
					rt.Fatalf("%q reads as %+v (found %v), which is none of the %d states it can be in\n%s", k, it, ok, len(state(k)), c.Desc())
				}

				if ok {
					found++
					possible[k] = []*cache.Item{it}
				} else {
					possible[k] = []*cache.Item{nil}

					if unsure[k] {
						hidden++
					}
				}
			}

			items, err := r.b.List(bg)
			if err != nil {
				rt.Fatalf("list after the faults: %v\n%s", err, c.Desc())
			}

			if len(items) != found {
				rt.Fatalf("%d items listed, %d found one by one\n%s", len(items), found, c.Desc())
			}

			if n := r.b.Count(bg); n < found || n > found+hidden {
				rt.Fatalf("count is %d with %d items\n%s", n, found, c.Desc())
			}
		}

		hits, failed := 0, 0

		rt.Repeat(map[string]func(*rapid.T){
			"op": func(rt *rapid.T) {
				kind := rapid.SampledFrom([]fate{fine, errBefore, errBefore, dropBefore, dropAfter}).Draw(rt, "fate")
				nth, span := rapid.IntRange(0, 7).Draw(rt, "nth"), rapid.SampledFrom([]int{1, 1, 2, 100}).Draw(rt, "span")
				i, hit := 0, 0

				r.f.commands()
				r.f.setFault(func(string) fate {
					i++
					if i > nth && i <= nth+span {
						hit++

						return kind
					}

					return fine
				})

				op := rapid.SampledFrom([]string{"set", "set", "set", "remove", "get", "list", "clear", "count"}).Draw(rt, "op")

				var err error

				switch op {
				case "set":
					it := r.drawItem(rt, key(rt))
					it.Expiration = 0
					cp := *it
					err = r.b.Set(bg, it)
					unsure[it.Key] = err != nil

					if err == nil {
						possible[it.Key] = []*cache.Item{&cp}
					} else {
						possible[it.Key] = append(slices.Clone(state(it.Key)), &cp)
					}
				case "remove":
					ks := rapid.SliceOfN(rapid.Custom(key), 1, 3).Draw(rt, "keys")
					err = r.b.Remove(bg, ks...)

					for _, k := range ks {
						unsure[k] = err != nil

						if err == nil {
							possible[k] = []*cache.Item{nil}
						} else {
							possible[k] = append(slices.Clone(state(k)), nil)
						}
					}
				case "clear":
					err = r.b.Clear(bg)

					for _, k := range keyPool[:6] {
						unsure[k] = err != nil

						if err == nil {
							possible[k] = []*cache.Item{nil}
						} else {
							possible[k] = append(slices.Clone(state(k)), nil)
						}
					}
				case "get":
					k := key(rt)
					if it, ok := r.b.Get(bg, k); ok {
						fits := false
						for _, p := range state(k) {
							fits = fits || (p != nil && same(p, it) == "")
						}

						if !fits {
							rt.Fatalf("get %q under fault: %+v\n%s", k, it, c.Desc())
						}
					}
				case "list":
					var items []*cache.Item

					items, err = r.b.List(bg)
					if err == nil {
						for _, k := range keyPool[:6] {
							st := state(k)
							there := slices.ContainsFunc(items, func(it *cache.Item) bool { return it.Key == k })

							if len(st) == 1 && (st[0] != nil) != there {
								rt.Fatalf("list succeeded under fault with %q listed=%v\n%s", k, there, c.Desc())
							}
						}
					}
				case "count":
					r.b.Count(bg)
				}

				c.Log("%s with fate %d at %d+%d (hit %d) %v -> %v", op, kind, nth, span, hit, r.f.commands(), err)

				// Nothing is retried with retries off, so a write whose commands were
				// refused failed.
				if hit > 0 && kind != fine {
					hits++
				}

				if err != nil {
					failed++

					if hit == 0 || kind == fine {
						rt.Fatalf("%s failed without a fault: %v\n%s", op, err, c.Desc())
					}
				}

				check()
			},
		})

		c.NT(hits > 0)
		c.LabelIf(failed > 0, "failed")
	})
}

// The whole cache on Redis: capacity, size and expiry as for any backend.
func TestC35Cache(t *testing.T) {
	vh.Run(t, "cache", "the capacity was reached or an item removed", 120, func(rt *rapid.T, c *vh.Case) {
		capacity := rapid.IntRange(1, 6).Draw(rt, "capacity")
		f := newFake(1, false, nil)

		defer f.close()

		st, err := redis.New(redis.WithAddr(f.addrs()[0]), redis.WithMinIdleConns(0))
		if err != nil {
			rt.Fatalf("redis.New: %v", err)
		}

		defer st.Client.Close()

		cfg := &hypercache.Config[backend.Redis]{
			BackendType:  constants.RedisBackend,
			RedisOptions: []backend.Option[backend.Redis]{backend.WithRedisClient(st.Client), backend.WithCapacity[backend.Redis](capacity)},
			HyperCacheOptions: []hypercache.Option[backend.Redis]{
				hypercache.WithEvictionInterval[backend.Redis](0),
				hypercache.WithExpirationInterval[backend.Redis](time.Hour),
				hypercache.WithEvictionAlgorithm[backend.Redis](rapid.SampledFrom([]string{"lru", "lfu", "clock", "cawolfu"}).Draw(rt, "algorithm")),
			},
		}

		hc, err := hypercache.New(bg, hypercache.GetDefaultManager(), cfg)
		if err != nil {
			rt.Fatalf("New: %v", err)
		}

		defer hc.Stop(bg)

		model := map[string]string{}
		full, removed := false, false

		rt.Repeat(map[string]func(*rapid.T){
			"set": func(rt *rapid.T) {
				k, v := rapid.SampledFrom(keyPool).Draw(rt, "key"), rapid.StringN(0, 9, -1).Draw(rt, "value")
				ttl := rapid.SampledFrom([]time.Duration{0, time.Hour}).Draw(rt, "ttl")

				err := hc.Set(bg, k, v, ttl)
				c.Log("set %q %q -> %v", k, v, err)

				if err != nil {
					rt.Fatalf("set: %v\n%s", err, c.Desc())
				}

				_, had := model[k]
				model[k] = v

				if got, ok := hc.Get(bg, k); ok && got != v {
					rt.Fatalf("get %q after set: %v %v\n%s", k, got, ok, c.Desc())
				}

				gone := 0

				for o := range model {
					if _, ok := hc.Get(bg, o); !ok {
						gone++

						delete(model, o)
					}
				}

				if n := hc.Count(bg); n > capacity || n != len(model) {
					rt.Fatalf("%d items in a cache of %d, %d readable\n%s", n, capacity, len(model), c.Desc())
				}

				if gone > 0 {
					full = true

					if had || len(model)+gone <= capacity {
						rt.Fatalf("%d items evicted with %d stored and a capacity of %d\n%s", gone, len(model), capacity, c.Desc())
					}
				}
			},
			"remove": func(rt *rapid.T) {
				k := rapid.SampledFrom(keyPool).Draw(rt, "key")
				if err := hc.Remove(bg, k); err != nil {
					rt.Fatalf("remove: %v\n%s", err, c.Desc())
				}

				c.Log("remove %q", k)

				_, had := model[k]
				removed = removed || had
				delete(model, k)
			},
			"": func(rt *rapid.T) {
				for _, k := range keyPool {
					got, ok := hc.Get(bg, k)
					if v, had := model[k]; ok != had || (ok && got != v) {
						rt.Fatalf("%q reads %v %v, want %q %v\n%s", k, got, ok, v, had, c.Desc())
					}
				}

				if n := hc.Count(bg); n != len(model) {
					rt.Fatalf("count %d, want %d\n%s", n, len(model), c.Desc())
				}
			},
		})

		c.NT(full || removed)
	})
}

// Concurrent use: every reader sees some writer's whole item, and the capacity
// can be changed and read meanwhile.
func TestC35Race(t *testing.T) {
	vh.Run(t, "concurrent", "two writers of one key", 30, func(rt *rapid.T, c *vh.Case) {
		r := newRig(rt, c, 0)
		defer r.close()

		keys := []string{"a", "{t}1", "zz"}
		writers := rapid.IntRange(2, 4).Draw(rt, "writers")
		n := rapid.IntRange(3, 12).Draw(rt, "n")

		var (
			wg  sync.WaitGroup
			mu  sync.Mutex
			bad string
		)

		fail := func(format string, args ...any) {
			mu.Lock()
			defer mu.Unlock()

			bad = fmt.Sprintf(format, args...)
		}

		for w := range writers {
			wg.Go(func() {
				for i := range n {
					k := keys[i%len(keys)]
					v := fmt.Sprintf("%d-%d", w, i)

					if err := r.b.Set(bg, &cache.Item{Key: k, Value: v, Origin: v, Size: int64(len(v))}); err != nil {
						fail("set: %v", err)
					}

					if it, ok := r.b.Get(bg, k); !ok || it.Key != k || it.Value != it.Origin {
						fail("get %q: %+v %v", k, it, ok)
					}

					if _, err := r.b.List(bg); err != nil {
						fail("list: %v", err)
					}

					r.b.SetCapacity(i)
					_ = r.b.Capacity()
				}
			})
		}

		wg.Wait()

		if bad != "" {
			rt.Fatalf("%s\n%s", bad, c.Desc())
		}

		if got := r.b.Count(bg); got != len(keys) {
			rt.Fatalf("count %d, want %d\n%s", got, len(keys), c.Desc())
		}

		c.NT(true)
	})
}

// TestC35Many: hundreds of items, and single calls over all of them.
func TestC35Many(t *testing.T) {
	vh.Run(t, "many", "80-900 items, all listed, most removed in one call, the rest cleared", 12, func(rt *rapid.T, c *vh.Case) {
		r := newRig(rt, c, 0)
		defer r.close()

		n := rapid.SampledFrom([]int{80, 101, 130, 300, 513, 900}).Draw(rt, "n")
		form := rapid.SampledFrom([]string{"key-%d", "%d", "{tag}%d", "u:%d:x"}).Draw(rt, "form")
		c.Log("%d keys %s", n, form)
		c.NT(true)

		model := map[string]*cache.Item{}
		keys := []string{}

		for i := range n {
			it := r.drawItem(rt, fmt.Sprintf(form, i))
			it.Expiration = 0

			if i%97 == 5 { // and a fat one here and there
				it.Value = strings.Repeat("fat ", rapid.SampledFrom([]int{300, 20000, 300000}).Draw(rt, "fat"))
			}

			if err := r.b.Set(bg, it); err != nil {
				rt.Fatalf("set: %v", err)
			}

			keys = append(keys, it.Key)
			model[it.Key] = it
		}

		agree := func(what string) {
			if got := r.b.Count(bg); got != len(model) {
				rt.Fatalf("after %s: count %d, %d stored\n%s", what, got, len(model), c.Desc())
			}

			items, err := r.b.List(bg)
			if err != nil || len(items) != len(model) {
				rt.Fatalf("after %s: %d items listed (%v), %d stored\n%s", what, len(items), err, len(model), c.Desc())
			}

			seen := map[string]bool{}

			for _, it := range items {
				if w := model[it.Key]; w == nil || seen[it.Key] {
					rt.Fatalf("after %s: %q listed, absent or twice\n%s", what, it.Key, c.Desc())
				} else if d := same(w, it); d != "" {
					rt.Fatalf("after %s: listed %q: %s\n%s", what, it.Key, d, c.Desc())
				}

				seen[it.Key] = true
			}

			for _, k := range keys {
				if it, ok := r.b.Get(bg, k); ok != (model[k] != nil) || ok && same(model[k], it) != "" {
					rt.Fatalf("after %s: get %q is %v %v\n%s", what, k, it, ok, c.Desc())
				}
			}
		}

		agree("filling")

		gone := rapid.Permutation(keys).Draw(rt, "gone")[:rapid.SampledFrom([]int{n / 2, n - 5, n - 1}).Draw(rt, "nGone")]
		if err := r.b.Remove(bg, gone...); err != nil {
			rt.Fatalf("remove of %d keys: %v\n%s", len(gone), err, c.Desc())
		}

		for _, k := range gone {
			delete(model, k)
		}

		agree("removing many")

		if err := r.b.Clear(bg); err != nil {
			rt.Fatalf("clear: %v\n%s", err, c.Desc())
		}

		clear(model)
		agree("clear")
	})
}
