package root_test

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

type (
	named  string
	count  int
	nested struct {
		M map[string][]int
		P *point
		A any
	}
	talker      interface{ Talk() string }
	parrot      struct{ N int }
	crow        struct{ S string }
	pair[A any] struct {
		L, R A
	}
)

func (p parrot) Talk() string { return fmt.Sprint("p", p.N) }
func (c *crow) Talk() string  { return c.S }

// view is one typed view with its type parameter erased.
type view interface {
	name() string
	typ() reflect.Type
	gen(rt *rapid.T) any
	set(k string, v any, ttl time.Duration) error
	get(k string) (any, bool)
	getTyped(k string) (any, error)
	info(k string) (*cache.Item, any, bool)
	getOrSet(k string, v any, ttl time.Duration) (any, error)
	multi(keys []string) (map[string]any, map[string]error)
	remove(keys ...string) error
	clear() error
	zero(v any) bool
}

type viewOf[V any] struct {
	t *hypercache.Typed[mem, V]
	g func(rt *rapid.T) V
}

func (w viewOf[V]) typ() reflect.Type   { return reflect.TypeFor[V]() }
func (w viewOf[V]) name() string        { return w.typ().String() }
func (w viewOf[V]) gen(rt *rapid.T) any { return w.g(rt) }

func to[V any](v any) V {
	out, _ := v.(V) // a nil interface stays nil

	return out
}

func (w viewOf[V]) set(k string, v any, ttl time.Duration) error {
	return w.t.Set(context.Background(), k, to[V](v), ttl)
}

func (w viewOf[V]) get(k string) (any, bool) { return w.t.Get(context.Background(), k) }

func (w viewOf[V]) getTyped(k string) (any, error) { return w.t.GetTyped(context.Background(), k) }

func (w viewOf[V]) info(k string) (*cache.Item, any, bool) {
	return w.t.GetWithInfo(context.Background(), k)
}

func (w viewOf[V]) getOrSet(k string, v any, ttl time.Duration) (any, error) {
	return w.t.GetOrSet(context.Background(), k, to[V](v), ttl)
}

func (w viewOf[V]) multi(keys []string) (map[string]any, map[string]error) {
	hits, errs := w.t.GetMultiple(context.Background(), keys...)
	out := make(map[string]any, len(hits))

	for k, v := range hits {
		out[k] = v
	}

	return out, errs
}

func (w viewOf[V]) remove(keys ...string) error { return w.t.Remove(context.Background(), keys...) }
func (w viewOf[V]) clear() error                { return w.t.Clear(context.Background()) }

func (w viewOf[V]) zero(v any) bool {
	var z V

	return reflect.DeepEqual(v, any(z))
}

func mk[V any](hc *hypercache.HyperCache[mem], g func(rt *rapid.T) V) view {
	return viewOf[V]{hypercache.NewTyped[mem, V](hc), g}
}

func draw[V any](g *rapid.Generator[V]) func(rt *rapid.T) V {
	return func(rt *rapid.T) V { return g.Draw(rt, "v") }
}

func views(hc *hypercache.HyperCache[mem]) []view {
	small := rapid.IntRange(-2, 2)
	pt := func(rt *rapid.T) point { return point{small.Draw(rt, "x"), small.Draw(rt, "y")} }

	return []view{
		mk(hc, draw(rapid.StringN(0, 4, -1))),
		mk(hc, func(rt *rapid.T) named { return named(rapid.StringN(0, 4, -1).Draw(rt, "v")) }),
		mk(hc, draw(rapid.SliceOfN(rapid.Byte(), 0, 4))),
		mk(hc, draw(small)),
		mk(hc, func(rt *rapid.T) count { return count(small.Draw(rt, "v")) }),
		mk(hc, draw(rapid.Int64())),
		mk(hc, draw(rapid.Uint8())),
		mk(hc, draw(rapid.Float64())),
		mk(hc, draw(rapid.Bool())),
		mk(hc, pt),
		mk(hc, func(rt *rapid.T) *point {
			if rapid.IntRange(0, 3).Draw(rt, "nil") == 0 {
				return nil // a typed nil is a value like any other
			}

			p := pt(rt)

			return &p
		}),
		mk(hc, func(rt *rapid.T) nested {
			p := pt(rt)

			return nested{map[string][]int{"a": {p.X}}, &p, p}
		}),
		mk(hc, draw(rapid.MapOfN(rapid.StringN(0, 2, -1), small, 0, 3))),
		mk(hc, draw(rapid.SliceOfN(small, 0, 3))),
		mk(hc, func(rt *rapid.T) [2]int { p := pt(rt); return [2]int{p.X, p.Y} }),
		mk(hc, func(*rapid.T) struct{} { return struct{}{} }),
		mk(hc, func(rt *rapid.T) pair[int] { p := pt(rt); return pair[int]{p.X, p.Y} }),
		mk(hc, func(rt *rapid.T) pair[any] { p := pt(rt); return pair[any]{p.X, p} }),
		mk(hc, func(rt *rapid.T) time.Time { return time.Unix(int64(small.Draw(rt, "v")), 0).UTC() }),
		mk(hc, func(rt *rapid.T) time.Duration { return time.Duration(small.Draw(rt, "v")) }),
		mk(hc, func(rt *rapid.T) talker {
			switch rapid.IntRange(0, 3).Draw(rt, "talker") {
			case 0:
				return nil // a nil interface is no value
			case 1:
				return parrot{small.Draw(rt, "v")}
			default:
				return &crow{rapid.StringN(0, 2, -1).Draw(rt, "v")}
			}
		}),
		mk(hc, func(rt *rapid.T) error { return errors.New(rapid.StringN(0, 2, -1).Draw(rt, "v")) }),
		mk(hc, func(rt *rapid.T) parrot { return parrot{small.Draw(rt, "v")} }),
		mk(hc, func(rt *rapid.T) *crow { return &crow{rapid.StringN(0, 2, -1).Draw(rt, "v")} }),
		mk(hc, func(rt *rapid.T) any {
			return rapid.SampledFrom([]any{nil, "s", 1, point{1, 2}, parrot{3}, false}).Draw(rt, "v")
		}),
	}
}

// fits is the type rule: the exact type, or an implementation of an interface.
func fits(v any, want reflect.Type) bool {
	have := reflect.TypeOf(v)
	if want.Kind() == reflect.Interface {
		return have.Implements(want)
	}

	return have == want
}

func TestC19Model(t *testing.T) {
	vh.Run(t, "model", "histories over 6 keys of one cache shared by an untyped caller and typed views of 25 value types (basic, named, struct, pointer, typed nil, slice, map, array, generic, interface types); every typed read, write, get-or-set and multi-read is compared with a map of stored values and the type rule decided by reflection; time passes virtually over the entries' times to live; non-trivial: a typed hit, a mismatch and an expiry or removal", 8000, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			s := drawRoomy(rt)
			c.Log("%v", s)

			ctx := context.Background()
			hc := s.build(ctx, rt.Fatalf)

			defer func() { _ = hc.Stop(ctx) }()

			all := views(hc)
			few := rapid.SliceOfNDistinct(rapid.IntRange(0, len(all)-1), 1, 5, rapid.ID[int]).Draw(rt, "views")
			keys := []string{"a", "b", "c", "d", "", "f g"}
			model := map[string]*timed{}

			var hit, mismatch, gone bool

			live := func(k string) *timed {
				e := model[k]
				if e == nil {
					return nil
				}

				if e.expired(time.Now()) {
					gone = true

					return nil
				}

				return e
			}

			steps := rapid.IntRange(2, 30).Draw(rt, "steps")
			for range steps {
				w := all[few[rapid.IntRange(0, len(few)-1).Draw(rt, "view")]]
				k := rapid.SampledFrom(keys).Draw(rt, "key")
				op := rapid.SampledFrom([]string{"set", "set", "set", "get", "typed", "info", "orset", "multi", "remove", "untyped", "untyped-set", "clear", "sleep"}).Draw(rt, "op")
				e := live(k)
				wantErr := error(nil)

				switch {
				case e == nil:
					wantErr = sentinel.ErrKeyNotFound
				case !fits(e.v, w.typ()):
					wantErr = sentinel.ErrTypeMismatch
				}

				touch := func(want error) {
					if e != nil {
						e.last = time.Now()
					}

					hit = hit || want == nil
					mismatch = mismatch || errors.Is(want, sentinel.ErrTypeMismatch)
				}

				switch op {
				case "set", "untyped-set":
					v := w.gen(rt)
					ttl := rapid.SampledFrom([]time.Duration{0, 0, time.Millisecond, time.Second, -1}).Draw(rt, "ttl")
					c.Log("%s[%s] %q %#v %v", op, w.name(), k, v, ttl)

					var err error
					if op == "set" {
						err = w.set(k, v, ttl)
					} else {
						err = hc.Set(ctx, k, v, ttl)
					}

					if bad := v == nil || ttl < 0 || k == ""; bad != (err != nil) {
						rt.Fatalf("%s[%s](%q, %#v, %v): %v", op, w.name(), k, v, ttl, err)
					}

					if err == nil {
						model[k] = &timed{v, ttl, time.Now(), 0}
					}
				case "get":
					c.Log("get[%s] %q", w.name(), k)

					got, ok := w.get(k)
					touch(wantErr)

					if ok != (wantErr == nil) || ok && !reflect.DeepEqual(got, e.v) || !ok && !w.zero(got) {
						rt.Fatalf("Get[%s](%q) = %#v, %v; stored %+v", w.name(), k, got, ok, e)
					}
				case "typed":
					c.Log("typed[%s] %q", w.name(), k)

					got, err := w.getTyped(k)
					touch(wantErr)

					if !errors.Is(err, wantErr) || (err == nil) != (wantErr == nil) || err == nil && !reflect.DeepEqual(got, e.v) || err != nil && !w.zero(got) {
						rt.Fatalf("GetTyped[%s](%q) = %#v, %v; stored %+v", w.name(), k, got, err, e)
					}
				case "info":
					c.Log("info[%s] %q", w.name(), k)

					it, got, ok := w.info(k)
					touch(wantErr)

					if ok != (wantErr == nil) || ok && (!reflect.DeepEqual(got, e.v) || !reflect.DeepEqual(it.Value, e.v) || it.Key != k || it.Expiration != e.ttl) ||
						!ok && (it != nil || !w.zero(got)) {
						rt.Fatalf("GetWithInfo[%s](%q) = %+v, %#v, %v; stored %+v", w.name(), k, it, got, ok, e)
					}

					if ok { // the untyped view agrees on the metadata
						u, uok := hc.GetWithInfo(ctx, k)
						if !uok || u.Expiration != it.Expiration || u.Size != it.Size || u.AccessCount != it.AccessCount+1 || u.Key != it.Key {
							rt.Fatalf("typed metadata %+v, untyped %+v", it, u)
						}
					}
				case "orset":
					v := w.gen(rt)
					ttl := rapid.SampledFrom([]time.Duration{0, time.Millisecond}).Draw(rt, "ttl")
					stale := model[k] != nil && e == nil
					c.Log("orset[%s] %q %#v %v", w.name(), k, v, ttl)

					got, err := w.getOrSet(k, v, ttl)

					switch {
					case e != nil && wantErr == nil:
						touch(nil)

						if err != nil || !reflect.DeepEqual(got, e.v) {
							rt.Fatalf("GetOrSet[%s](%q) = %#v, %v; stored %+v", w.name(), k, got, err, e)
						}
					case e != nil:
						touch(wantErr)

						if !errors.Is(err, wantErr) || !w.zero(got) {
							rt.Fatalf("GetOrSet[%s](%q) = %#v, %v over a value of type %T", w.name(), k, got, err, e.v)
						}
					case stale && errors.Is(err, sentinel.ErrKeyExpired) && w.zero(got):
					default:
						if bad := v == nil || k == ""; bad != (err != nil) || !bad && !reflect.DeepEqual(got, v) || bad && !w.zero(got) {
							rt.Fatalf("GetOrSet[%s](%q, %#v) = %#v, %v of an absent key", w.name(), k, v, got, err)
						}

						if err == nil {
							model[k] = &timed{v, ttl, time.Now(), 0}
						}
					}
				case "multi":
					ks := rapid.SliceOfNDistinct(rapid.SampledFrom(keys), 0, 6, rapid.ID[string]).Draw(rt, "keys")
					c.Log("multi[%s] %q", w.name(), ks)

					hits, errs := w.multi(ks)

					if len(hits)+len(errs) != len(ks) {
						rt.Fatalf("GetMultiple[%s](%q): %d hits, %d errors", w.name(), ks, len(hits), len(errs))
					}

					for _, k := range ks {
						e := live(k)
						got, ok := hits[k]

						switch {
						case e == nil:
							if ok || !errors.Is(errs[k], sentinel.ErrKeyNotFound) {
								rt.Fatalf("GetMultiple[%s]: absent %q gives %#v, %v", w.name(), k, got, errs[k])
							}
						case !fits(e.v, w.typ()):
							mismatch = true
							e.last = time.Now()

							if ok || !errors.Is(errs[k], sentinel.ErrTypeMismatch) {
								rt.Fatalf("GetMultiple[%s]: %q of type %T gives %#v, %v", w.name(), k, e.v, got, errs[k])
							}
						default:
							hit = true
							e.last = time.Now()

							if !ok || errs[k] != nil || !reflect.DeepEqual(got, e.v) {
								rt.Fatalf("GetMultiple[%s]: %q = %#v, %v; stored %+v", w.name(), k, got, errs[k], e)
							}
						}
					}
				case "remove":
					c.Log("remove[%s] %q", w.name(), k)

					if err := w.remove(k); err != nil {
						rt.Fatalf("Remove: %v", err)
					}

					gone = gone || e != nil

					delete(model, k)
				case "clear":
					if rapid.IntRange(0, 3).Draw(rt, "really") == 0 {
						c.Log("clear[%s]", w.name())

						if err := w.clear(); err != nil {
							rt.Fatalf("Clear: %v", err)
						}

						clear(model)
					}
				case "untyped":
					got, ok := hc.Get(ctx, k)
					if ok != (e != nil) || ok && !reflect.DeepEqual(got, e.v) {
						rt.Fatalf("untyped Get(%q) = %#v, %v; stored %+v", k, got, ok, e)
					}

					touch(sentinel.ErrKeyNotFound)
				case "sleep":
					time.Sleep(rapid.SampledFrom([]time.Duration{100 * time.Microsecond, 2 * time.Millisecond, 2 * time.Second}).Draw(rt, "d"))
				}

				// nothing but the named key changed, whatever the view
				got := listing(rt, hc)
				for k, e := range model {
					if it := got[k]; !e.expired(time.Now()) && (it == nil || !reflect.DeepEqual(it.Value, e.v) || it.Expiration != e.ttl) {
						rt.Fatalf("after %s[%s]: %q is %+v, stored %+v", op, w.name(), k, it, e)
					}
				}

				for k := range got {
					if model[k] == nil {
						rt.Fatalf("after %s[%s]: unexpected key %q", op, w.name(), k)
					}
				}
			}

			c.NT(hit && mismatch && gone)
		})
	})
}

func TestC19Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "2..5 goroutines, each with a view of its own type, write their own keys and fight over a shared one; own keys must read back exactly, the shared key must give one of the values written through a view of that type or a mismatch; non-trivial: >=3 goroutines", 800, func(rt *rapid.T, c *vh.Case) {
		s := drawRoomy(rt)
		s.expireIvl, s.evictIvl = 0, 0
		n := rapid.IntRange(2, 5).Draw(rt, "n")
		rounds := rapid.IntRange(1, 60).Draw(rt, "rounds")
		c.Log("%v n=%d rounds=%d", s, n, rounds)

		ctx := context.Background()
		hc := s.build(ctx, rt.Fatalf)

		defer func() { _ = hc.Stop(ctx) }()

		var (
			wg   sync.WaitGroup
			mu   sync.Mutex
			fail string
		)

		note := func(f string, a ...any) {
			mu.Lock()
			defer mu.Unlock()

			fail = fmt.Sprintf(f, a...)
		}

		for g := range n {
			wg.Go(func() {
				switch g {
				case 0:
					fight(hc, g, rounds, func(i int) string { return fmt.Sprint("s", i) }, func(v string) bool { return v[0] == 's' }, note)
				case 1:
					fight(hc, g, rounds, func(i int) int { return -i - 1 }, func(v int) bool { return v < 0 }, note)
				case 2:
					fight(hc, g, rounds, func(i int) point { return point{i, i + 1} }, func(v point) bool { return v.Y == v.X+1 }, note)
				case 3:
					fight(hc, g, rounds, func(i int) *crow { return &crow{fmt.Sprint("c", i)} }, func(v *crow) bool { return v.S[0] == 'c' }, note)
				default:
					fight(hc, g, rounds, func(i int) named { return named(fmt.Sprint("n", i)) }, func(v named) bool { return v[0] == 'n' }, note)
				}
			})
		}

		wg.Wait()

		if fail != "" {
			rt.Fatalf("%s", fail)
		}

		c.NT(n >= 3)
	})
}

func fight[V any](hc *hypercache.HyperCache[mem], g, rounds int, mkv func(int) V, ok func(V) bool, note func(string, ...any)) {
	ctx := context.Background()
	w := hypercache.NewTyped[mem, V](hc)
	own := fmt.Sprint("own", g)

	for i := range rounds {
		v := mkv(i)

		if err := w.Set(ctx, own, v, 0); err != nil {
			note("Set: %v", err)
		}

		if got, err := w.GetTyped(ctx, own); err != nil || !reflect.DeepEqual(got, v) {
			note("own key %s reads %#v, %v instead of %#v", own, got, err, v)
		}

		if i%3 == 0 {
			_ = w.Set(ctx, "shared", v, 0)
		}

		if got, err := w.GetTyped(ctx, "shared"); err == nil && !ok(got) || err != nil && !errors.Is(err, sentinel.ErrTypeMismatch) && !errors.Is(err, sentinel.ErrKeyNotFound) {
			note("shared key reads %#v, %v through a view of %T", got, err, v)
		}

		hits, errs := w.GetMultiple(ctx, own, "shared")
		if !reflect.DeepEqual(hits[own], v) || errs[own] != nil {
			note("GetMultiple: own key %#v, %v", hits[own], errs[own])
		}

		if i%7 == 0 {
			_ = w.Remove(ctx, own)

			if got, err := w.GetOrSet(ctx, own, v, 0); err != nil || !reflect.DeepEqual(got, v) {
				note("GetOrSet: %#v, %v", got, err)
			}
		}
	}
}
