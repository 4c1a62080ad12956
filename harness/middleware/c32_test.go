package middleware_test

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	mnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/trace"
	tnoop "go.opentelemetry.io/otel/trace/noop"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/pkg/middleware"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

type ctxKey struct{}

// event is anything that happened during one call, in order.
type event struct {
	who  string // "svc", "log0", "stats1", ...
	what string
	args []any
}

type recorder struct {
	mu     sync.Mutex
	events []event
}

func (r *recorder) add(who, what string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()

	r.events = append(r.events, event{who, what, args})
}

// svc is the wrapped service: it records its calls, takes a given time and
// returns what it is told to.
type svc struct {
	r     *recorder
	d     time.Duration
	ret   []any
	ctxOK func(ctx context.Context) string
}

func (s *svc) call(ctx context.Context, method string, args ...any) []any {
	s.r.add("svc", method, args...)

	if ctx != nil {
		if msg := s.ctxOK(ctx); msg != "" {
			s.r.add("svc", "ctx", msg)
		}
	}

	time.Sleep(s.d)
	s.r.add("svc", "return")

	return s.ret
}

func as[T any](v any) T {
	out, _ := v.(T)

	return out
}

func (s *svc) Get(ctx context.Context, key string) (any, bool) {
	r := s.call(ctx, "Get", key)

	return r[0], as[bool](r[1])
}

func (s *svc) Set(ctx context.Context, key string, value any, ttl time.Duration) error {
	return as[error](s.call(ctx, "Set", key, value, ttl)[0])
}

func (s *svc) GetOrSet(ctx context.Context, key string, value any, ttl time.Duration) (any, error) {
	r := s.call(ctx, "GetOrSet", key, value, ttl)

	return r[0], as[error](r[1])
}

func (s *svc) GetWithInfo(ctx context.Context, key string) (*cache.Item, bool) {
	r := s.call(ctx, "GetWithInfo", key)

	return as[*cache.Item](r[0]), as[bool](r[1])
}

func (s *svc) GetMultiple(ctx context.Context, keys ...string) (map[string]any, map[string]error) {
	r := s.call(ctx, "GetMultiple", keys)

	return as[map[string]any](r[0]), as[map[string]error](r[1])
}

func (s *svc) List(ctx context.Context, filters ...backend.IFilter) ([]*cache.Item, error) {
	r := s.call(ctx, "List", filters)

	return as[[]*cache.Item](r[0]), as[error](r[1])
}

func (s *svc) Remove(ctx context.Context, keys ...string) error {
	return as[error](s.call(ctx, "Remove", keys)[0])
}

func (s *svc) Clear(ctx context.Context) error { return as[error](s.call(ctx, "Clear")[0]) }
func (s *svc) Capacity() int                   { return as[int](s.call(nil, "Capacity")[0]) }
func (s *svc) Allocation() int64               { return as[int64](s.call(nil, "Allocation")[0]) }

func (s *svc) Count(ctx context.Context) int       { return as[int](s.call(ctx, "Count")[0]) }
func (s *svc) TriggerEviction(ctx context.Context) { s.call(ctx, "TriggerEviction") }
func (s *svc) Stop(ctx context.Context) error      { return as[error](s.call(ctx, "Stop")[0]) }
func (s *svc) GetStats() stats.Stats               { return as[stats.Stats](s.call(nil, "GetStats")[0]) }

// recording sinks

type logger struct {
	r    *recorder
	name string
}

func (l logger) Printf(f string, a ...any) { l.r.add(l.name, "log", fmt.Sprintf(f, a...)) }

type collector struct {
	r    *recorder
	name string
}

func (c collector) Incr(s constants.Stat, v int64)      { c.r.add(c.name, "incr", string(s), v) }
func (c collector) Decr(s constants.Stat, v int64)      { c.r.add(c.name, "decr", string(s), v) }
func (c collector) Timing(s constants.Stat, v int64)    { c.r.add(c.name, "timing", string(s), v) }
func (c collector) Gauge(s constants.Stat, v int64)     { c.r.add(c.name, "gauge", string(s), v) }
func (c collector) Histogram(s constants.Stat, v int64) { c.r.add(c.name, "histogram", string(s), v) }
func (c collector) GetStats() stats.Stats               { c.r.add(c.name, "getstats"); return nil }

type meter struct {
	mnoop.Meter
	r    *recorder
	name string
}

type counter struct {
	mnoop.Int64Counter
	m    meter
	name string
}

type histogram struct {
	mnoop.Float64Histogram
	m    meter
	name string
}

func (m meter) Int64Counter(name string, _ ...metric.Int64CounterOption) (metric.Int64Counter, error) {
	return counter{m: m, name: name}, nil
}

func (m meter) Float64Histogram(name string, _ ...metric.Float64HistogramOption) (metric.Float64Histogram, error) {
	return histogram{m: m, name: name}, nil
}

func attrMap(set attribute.Set) map[string]any {
	out := map[string]any{}
	for _, kv := range set.ToSlice() {
		out[string(kv.Key)] = kv.Value.AsInterface()
	}

	return out
}

func (c counter) Add(_ context.Context, n int64, opts ...metric.AddOption) {
	c.m.r.add(c.m.name, "add", c.name, n, attrMap(metric.NewAddConfig(opts).Attributes()))
}

func (h histogram) Record(_ context.Context, v float64, opts ...metric.RecordOption) {
	h.m.r.add(h.m.name, "record", h.name, v, attrMap(metric.NewRecordConfig(opts).Attributes()))
}

type tracer struct {
	tnoop.Tracer
	r    *recorder
	name string
}

type span struct {
	tnoop.Span
	mu    *sync.Mutex
	t     tracer
	name  string
	attrs map[string]any
	errs  *[]error
}

type spanKey struct{ name string }

func (t tracer) Start(ctx context.Context, name string, opts ...trace.SpanStartOption) (context.Context, trace.Span) {
	cfg := trace.NewSpanStartConfig(opts...)
	s := span{mu: &sync.Mutex{}, t: t, name: name, attrs: map[string]any{}, errs: &[]error{}}
	s.SetAttributes(cfg.Attributes()...)
	t.r.add(t.name, "start", name)

	return trace.ContextWithSpan(context.WithValue(ctx, spanKey{t.name}, s), s), s
}

func (s span) SetAttributes(kv ...attribute.KeyValue) {
	s.mu.Lock()
	defer s.mu.Unlock()

	for _, a := range kv {
		s.attrs[string(a.Key)] = a.Value.AsInterface()
	}
}

func (s span) RecordError(err error, _ ...trace.EventOption) {
	s.mu.Lock()
	defer s.mu.Unlock()

	*s.errs = append(*s.errs, err)
}

func (s span) End(...trace.SpanEndOption) {
	s.mu.Lock()
	defer s.mu.Unlock()

	s.t.r.add(s.t.name, "end", s.name, s.attrs, *s.errs)
}

// call is one generated service call.
type call struct {
	method  string
	key     string
	keys    []string
	value   any
	ttl     time.Duration
	filters []backend.IFilter
	ret     []any
	d       time.Duration
}

var methods = []string{"Get", "Set", "GetOrSet", "GetWithInfo", "GetMultiple", "List", "Remove", "Clear", "Capacity", "Allocation", "Count", "TriggerEviction", "Stop", "GetStats"}

type fail struct{ s string }

func (f *fail) Error() string { return f.s }

func drawErr(rt *rapid.T) any {
	switch rapid.IntRange(0, 3).Draw(rt, "err") {
	case 0:
		return &fail{"boom %s %d"}
	case 1:
		return fmt.Errorf("wrapped: %w", context.Canceled)
	default:
		return nil
	}
}

func drawAny(rt *rapid.T) any {
	return rapid.SampledFrom([]any{nil, "v %d %s%%", 17, []byte{0, 255}, map[string]int{"a": 1}, &fail{"x"}, struct{}{}, true}).Draw(rt, "value")
}

func drawCall(rt *rapid.T) call {
	c := call{
		method: rapid.SampledFrom(methods).Draw(rt, "method"),
		key:    rapid.OneOf(rapid.SampledFrom([]string{"", "k", "a%d b", "ключ", "%!s"}), rapid.String()).Draw(rt, "key"),
		value:  drawAny(rt),
		ttl:    rapid.SampledFrom([]time.Duration{0, -1, time.Millisecond, 1500 * time.Microsecond, 90 * time.Minute}).Draw(rt, "ttl"),
		d:      rapid.SampledFrom([]time.Duration{0, time.Nanosecond, 2 * time.Millisecond, 3700 * time.Millisecond}).Draw(rt, "d"),
	}

	ok := rapid.Bool().Draw(rt, "ok")

	switch c.method {
	case "Get":
		c.ret = []any{drawAny(rt), ok}
	case "Set", "Clear", "Stop":
		c.ret = []any{drawErr(rt)}
	case "Remove":
		c.keys = rapid.SliceOfN(rapid.SampledFrom([]string{"a", "", "b%s", "b%s"}), 0, 4).Draw(rt, "keys")
		c.ret = []any{drawErr(rt)}
	case "GetOrSet":
		c.ret = []any{drawAny(rt), drawErr(rt)}
	case "GetWithInfo":
		var it *cache.Item
		if ok || rapid.Bool().Draw(rt, "item") {
			it = &cache.Item{Key: c.key, Value: c.value, AccessCount: 3}
		}

		c.ret = []any{it, ok}
	case "GetMultiple":
		c.keys = rapid.SliceOfN(rapid.SampledFrom([]string{"a", "", "b%s", "c"}), 0, 5).Draw(rt, "keys")

		var (
			res  map[string]any
			errs map[string]error
		)

		if ok {
			res, errs = map[string]any{"a": c.value}, map[string]error{"c": &fail{"x"}, "d": context.Canceled}
		}

		c.ret = []any{res, errs}
	case "List":
		for range rapid.IntRange(0, 2).Draw(rt, "filters") {
			c.filters = append(c.filters, backend.WithSortBy(rapid.SampledFrom([]string{"Key", "x%d"}).Draw(rt, "by")))
		}

		var items []*cache.Item
		for range rapid.IntRange(0, 3).Draw(rt, "items") {
			items = append(items, &cache.Item{Key: c.key})
		}

		c.ret = []any{items, drawErr(rt)}
	case "Capacity", "Count":
		c.ret = []any{rapid.Int().Draw(rt, "n")}
	case "Allocation":
		c.ret = []any{rapid.Int64().Draw(rt, "n")}
	case "GetStats":
		var st stats.Stats
		if ok {
			st = stats.Stats{"x": &stats.Stat{Sum: 3}}
		}

		c.ret = []any{st}
	default:
		c.ret = []any{}
	}

	return c
}

// do performs the call; nil errors become nil interfaces in the result.
func (c call) do(ctx context.Context, s hypercache.Service) []any {
	switch c.method {
	case "Get":
		v, ok := s.Get(ctx, c.key)

		return []any{v, ok}
	case "Set":
		return []any{s.Set(ctx, c.key, c.value, c.ttl)}
	case "GetOrSet":
		v, err := s.GetOrSet(ctx, c.key, c.value, c.ttl)

		return []any{v, err}
	case "GetWithInfo":
		it, ok := s.GetWithInfo(ctx, c.key)

		return []any{it, ok}
	case "GetMultiple":
		a, b := s.GetMultiple(ctx, c.keys...)

		return []any{a, b}
	case "List":
		a, err := s.List(ctx, c.filters...)

		return []any{a, err}
	case "Remove":
		return []any{s.Remove(ctx, c.keys...)}
	case "Clear":
		return []any{s.Clear(ctx)}
	case "Capacity":
		return []any{s.Capacity()}
	case "Allocation":
		return []any{s.Allocation()}
	case "Count":
		return []any{s.Count(ctx)}
	case "TriggerEviction":
		s.TriggerEviction(ctx)

		return []any{}
	case "Stop":
		return []any{s.Stop(ctx)}
	default:
		return []any{s.GetStats()}
	}
}

func (c call) args() []any {
	switch c.method {
	case "Get", "GetWithInfo":
		return []any{c.key}
	case "Set", "GetOrSet":
		return []any{c.key, c.value, c.ttl}
	case "GetMultiple", "Remove":
		return []any{c.keys}
	case "List":
		return []any{c.filters}
	default:
		return nil
	}
}

func (c call) err() error {
	if n := len(c.ret); n > 0 {
		return as[error](c.ret[n-1])
	}

	return nil
}

// identical compares results: same dynamic value, pointers and maps by identity.
func identical(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}

	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}

	switch va.Kind() {
	case reflect.Map, reflect.Pointer:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Len() == vb.Len() && va.IsNil() == vb.IsNil() && va.Pointer() == vb.Pointer()
	default:
		return a == b
	}
}

var statName = map[string]string{
	"Get": "get", "Set": "set", "GetOrSet": "get_or_set", "GetWithInfo": "get_with_info", "GetMultiple": "get_multiple", "List": "list",
	"Remove": "remove", "Clear": "clear", "TriggerEviction": "trigger_eviction", "Stop": "stop",
}

func isCRUD(m string) bool {
	_, ok := statName[m]

	return ok && m != "TriggerEviction" && m != "Stop"
}

// attrsOf is what telemetry must say about the call (subset).
func attrsOf(c call, hist bool) map[string]any {
	out := map[string]any{}

	switch c.method {
	case "Get", "GetWithInfo":
		out["key.len"], out["hit"] = int64(len(c.key)), c.ret[1]
	case "Set", "GetOrSet":
		out["key.len"] = int64(len(c.key))
		if !hist {
			out["expiration.ms"] = c.ttl.Milliseconds()
		}
	case "GetMultiple":
		out["keys.count"] = int64(len(c.keys))
		out["result.count"] = int64(len(as[map[string]any](c.ret[0])))
		out["failed.count"] = int64(len(as[map[string]error](c.ret[1])))
	case "Remove":
		out["keys.count"] = int64(len(c.keys))
	case "List":
		if items := as[[]*cache.Item](c.ret[0]); items != nil {
			out["items.count"] = int64(len(items))
		}
	}

	return out
}

func missing(want, got map[string]any) string {
	for k, v := range want {
		if got[k] != v {
			return fmt.Sprintf("%s=%v, want %v", k, got[k], v)
		}
	}

	return ""
}

// verify checks what one middleware recorded during one call.
func verify(rt *rapid.T, c call, layer string, evs []event, common map[string]any) {
	var mine []event

	after := map[int]bool{} // whether the event came after the service returned
	returned := false

	for _, e := range evs {
		if e.who == "svc" && e.what == "return" {
			returned = true
		}

		if e.who == layer {
			after[len(mine)] = returned
			mine = append(mine, e)
		}
	}

	kind := strings.TrimRight(layer, "0123456789")
	_, counted := statName[c.method]

	switch kind {
	case "log":
		named, took := false, false

		for i, e := range mine {
			line := e.args[0].(string)
			has := strings.Contains(line, c.method)
			named = named || has && !after[i] && (c.key == "" || len(c.args()) == 0 || len(c.keys) > 0 || c.method == "GetMultiple" || c.method == "Remove" || c.method == "List" || strings.Contains(line, c.key))
			took = took || has && after[i] && strings.Contains(line, c.d.String())
		}

		if (counted || c.method == "GetStats") && (!named || !took) {
			rt.Fatalf("%s logged %v for %s(%q) taking %v", layer, mine, c.method, c.key, c.d)
		}
	case "stats":
		incr, timing := 0, 0

		for _, e := range mine {
			switch {
			case e.what == "incr" && e.args[0] == "hypercache_"+statName[c.method]+"_count" && e.args[1] == int64(1):
				incr++
			case e.what == "timing" && e.args[0] == "hypercache_"+statName[c.method]+"_duration" && e.args[1] == c.d.Nanoseconds():
				timing++
			default:
				rt.Fatalf("%s recorded %v for %s", layer, e, c.method)
			}
		}

		if want := map[bool]int{true: 1}[counted]; incr != want || timing != want {
			rt.Fatalf("%s recorded %v for %s", layer, mine, c.method)
		}
	case "metrics":
		calls, durs := 0, 0
		want := attrsOf(c, true)
		want["method"] = c.method

		for _, e := range mine {
			got := e.args[2].(map[string]any)

			if msg := missing(want, got); msg != "" {
				rt.Fatalf("%s %s for %s: %s", layer, e.what, c.method, msg)
			}

			switch {
			case e.what == "add" && e.args[0] == "hypercache.calls" && e.args[1] == int64(1):
				calls++
			case e.what == "record" && e.args[0] == "hypercache.duration.ms" && e.args[1].(float64) >= float64(c.d.Milliseconds()) && e.args[1].(float64) <= float64(c.d)/1e6+1e-9:
				durs++
			default:
				rt.Fatalf("%s recorded %v for %s of %v", layer, e, c.method, c.d)
			}
		}

		if w := map[bool]int{true: 1}[isCRUD(c.method)]; calls != w || durs != w {
			rt.Fatalf("%s recorded %v for %s", layer, mine, c.method)
		}
	case "trace":
		if !counted {
			if len(mine) > 0 {
				rt.Fatalf("%s recorded %v for %s", layer, mine, c.method)
			}

			return
		}

		if len(mine) != 2 || mine[0].what != "start" || after[0] || mine[1].what != "end" || !after[1] ||
			mine[0].args[0] != "hypercache."+c.method || mine[1].args[0] != "hypercache."+c.method {
			rt.Fatalf("%s recorded %v for %s", layer, mine, c.method)
		}

		want := attrsOf(c, false)
		for k, v := range common {
			want[k] = v
		}

		if msg := missing(want, mine[1].args[1].(map[string]any)); msg != "" {
			rt.Fatalf("%s span of %s: %s", layer, c.method, msg)
		}

		errs := mine[1].args[2].([]error)
		if err := c.err(); isCRUD(c.method) && c.method != "GetMultiple" {
			if err != nil && (len(errs) != 1 || !identical(errs[0], err)) || err == nil && len(errs) > 0 {
				rt.Fatalf("%s span of %s recorded %v, the call returned %v", layer, c.method, errs, err)
			}
		}
	}
}

// stack wraps s in the named layers, innermost first.
func stack(s hypercache.Service, r *recorder, layers []string, common map[string]any) (hypercache.Service, error) {
	var (
		mws []hypercache.Middleware
		bad error
	)

	for _, l := range layers {
		switch strings.TrimRight(l, "0123456789") {
		case "log":
			mws = append(mws, func(n hypercache.Service) hypercache.Service { return middleware.NewLoggingMiddleware(n, logger{r, l}) })
		case "stats":
			mws = append(mws, func(n hypercache.Service) hypercache.Service {
				return middleware.NewStatsCollectorMiddleware(n, collector{r, l})
			})
		case "metrics":
			mws = append(mws, func(n hypercache.Service) hypercache.Service {
				w, err := middleware.NewOTelMetricsMiddleware(n, meter{r: r, name: l})
				bad = errors.Join(bad, err)

				return w
			})
		case "trace":
			mws = append(mws, func(n hypercache.Service) hypercache.Service {
				var opts []middleware.OTelTracingOption
				for k, v := range common {
					opts = append(opts, middleware.WithCommonAttributes(attribute.String(k, v.(string))))
				}

				return middleware.NewOTelTracingMiddleware(n, tracer{r: r, name: l}, opts...)
			})
		}
	}

	return hypercache.ApplyMiddleware(s, mws...), bad
}

func drawLayers(rt *rapid.T) []string {
	kinds := rapid.SliceOfN(rapid.SampledFrom([]string{"log", "stats", "metrics", "trace"}), 0, 5).Draw(rt, "layers")
	out := make([]string, len(kinds))

	for i, k := range kinds {
		out[i] = fmt.Sprint(k, i)
	}

	return out
}

func TestC32Transparent(t *testing.T) {
	vh.Run(t, "transparent", "random stacks of 0..5 middlewares over a service that records its calls and returns generated results, errors, nils and durations (virtual time); per call: one call below with identical arguments and a context derived from the caller's, identical results back, and from every layer its log lines, counter, exact duration, attributes, span and error; non-trivial: >=2 layers and >=3 calls, one failing", 15000, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			layers := drawLayers(rt)
			common := map[string]any{}

			if rapid.Bool().Draw(rt, "common") {
				common["env"], common["zone"] = "test", "z"
			}

			c.Log("layers %v common %v", layers, common)

			r := &recorder{}
			s := &svc{r: r}

			top, err := stack(s, r, layers, common)
			if err != nil {
				rt.Fatalf("building %v: %v", layers, err)
			}

			failing := false
			n := rapid.IntRange(1, 8).Draw(rt, "calls")

			for range n {
				cl := drawCall(rt)
				c.Log("%s %q %v -> %v", cl.method, cl.key, cl.keys, cl.ret)
				failing = failing || cl.err() != nil

				ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), ctxKey{}, "mark"), time.Hour)
				deadline, _ := ctx.Deadline()
				s.ret, s.d, r.events = cl.ret, cl.d, nil
				s.ctxOK = func(got context.Context) string {
					if d, ok := got.Deadline(); !ok || !d.Equal(deadline) || got.Value(ctxKey{}) != "mark" || got.Err() != nil {
						return "the context is not the caller's"
					}

					if cl.method == "Count" || cl.method == "Stop" || cl.method == "TriggerEviction" {
						return ""
					}

					for _, l := range layers { // spans nest
						if sp, ok := got.Value(spanKey{l}).(span); strings.HasPrefix(l, "trace") && (!ok || sp.name != "hypercache."+cl.method) {
							return "the span of " + l + " is not in the context"
						}
					}

					return ""
				}

				got := cl.do(ctx, top)

				cancel()

				if len(got) != len(cl.ret) {
					rt.Fatalf("%s returned %v, the cache %v", cl.method, got, cl.ret)
				}

				for i := range got {
					if !identical(got[i], cl.ret[i]) {
						rt.Fatalf("%s returned %v, the cache %v", cl.method, got, cl.ret)
					}
				}

				below := 0

				for _, e := range r.events {
					if e.who != "svc" || e.what == "return" {
						continue
					}

					if below++; e.what != cl.method || len(e.args) != len(cl.args()) {
						rt.Fatalf("%s reached the cache as %s%v", cl.method, e.what, e.args)
					}

					for i, a := range cl.args() {
						if !identical(e.args[i], a) && !(reflect.ValueOf(a).Kind() == reflect.Slice && reflect.DeepEqual(e.args[i], a)) {
							rt.Fatalf("%s%v reached the cache with %v", cl.method, cl.args(), e.args)
						}
					}
				}

				if below != 1 {
					rt.Fatalf("%s reached the cache %d times: %v", cl.method, below, r.events)
				}

				for _, l := range layers {
					verify(rt, cl, l, r.events, common)
				}
			}

			c.NT(len(layers) >= 2 && n >= 3 && failing)
		})
	})
}

func TestC32Differential(t *testing.T) {
	vh.Run(t, "differential", "the same random histories on a bare in-memory cache and on one under a random stack sharing its stats collector; every result must agree, and the shared collector must hold one count per call next to the cache's own statistics; non-trivial: >=2 layers and >=10 operations", 2500, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			ctx := context.Background()
			layers := append(drawLayers(rt), "")
			layers = layers[:len(layers)-1]
			c.Log("layers %v", layers)

			mk := func() *hypercache.HyperCache[backend.InMemory] {
				hc, err := hypercache.NewInMemoryWithDefaults(ctx, 5)
				if err != nil {
					rt.Fatalf("new cache: %v", err)
				}

				return hc
			}

			bare, under := mk(), mk()
			top, err := stack(under, &recorder{}, layers, nil)

			if err != nil {
				rt.Fatalf("stack: %v", err)
			}

			top = middleware.NewStatsCollectorMiddleware(top, under.StatsCollector)

			defer func() { _ = bare.Stop(ctx) }()
			defer func() { _ = top.Stop(ctx) }()

			counts := map[string]int{}
			n := rapid.IntRange(1, 25).Draw(rt, "ops")

			for range n {
				cl := drawCall(rt)
				cl.key = rapid.SampledFrom([]string{"a", "b", "c", "", "d", "e", "f"}).Draw(rt, "k")

				if cl.method == "Stop" || cl.method == "GetStats" {
					continue
				}

				if cl.value != nil && reflect.TypeOf(cl.value).Kind() == reflect.Map {
					cl.value = "m"
				}

				c.Log("%s %q %v", cl.method, cl.key, cl.value)

				counts[cl.method]++

				a, b := cl.do(ctx, bare), cl.do(ctx, top)

				for i := range a {
					if items, ok := a[i].([]*cache.Item); ok {
						if other := b[i].([]*cache.Item); len(items) != len(other) {
							rt.Fatalf("%s: %d and %d items", cl.method, len(items), len(other))
						}

						continue
					}

					if it, ok := a[i].(*cache.Item); ok && it != nil {
						x, y := *it, *b[i].(*cache.Item)
						if !reflect.DeepEqual(x, y) {
							rt.Fatalf("%s: %+v and %+v", cl.method, x, y)
						}

						continue
					}

					if ea, ok := a[i].(error); ok {
						if eb, ok := b[i].(error); !ok || ea.Error() != eb.Error() {
							rt.Fatalf("%s: %v and %v", cl.method, a, b)
						}

						continue
					}

					if !reflect.DeepEqual(a[i], b[i]) {
						rt.Fatalf("%s: %v and %v", cl.method, a, b)
					}
				}

				synctest.Wait() // expiry triggered by the call runs in the background
				time.Sleep(cl.d)
				synctest.Wait()
			}

			st := top.GetStats()

			for m, name := range statName {
				got := 0
				if s := st["hypercache_"+name+"_count"]; s != nil {
					got = int(s.Sum)
				}

				if got != counts[m] {
					rt.Fatalf("%s was called %d times, counted %d", m, counts[m], got)
				}
			}

			c.NT(len(layers) >= 2 && n >= 10)
		})
	})
}

func TestC32Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "2..6 goroutines call through one stack of a real stats collector and the other middlewares; nothing is lost in the counts and each caller gets its own results; non-trivial: >=3 goroutines", 500, func(rt *rapid.T, c *vh.Case) {
		layers := drawLayers(rt)
		n := rapid.IntRange(2, 6).Draw(rt, "n")
		per := rapid.IntRange(1, 40).Draw(rt, "per")
		c.Log("%v n=%d per=%d", layers, n, per)

		ctx := context.Background()

		hc, err := hypercache.NewInMemoryWithDefaults(ctx, 0)
		if err != nil {
			rt.Fatalf("new cache: %v", err)
		}

		col := stats.NewHistogramStatsCollector()

		top, err := stack(hc, &recorder{}, layers, map[string]any{"a": "b"})
		if err != nil {
			rt.Fatalf("stack: %v", err)
		}

		top = middleware.NewStatsCollectorMiddleware(top, col)

		defer func() { _ = top.Stop(ctx) }()

		var (
			wg   sync.WaitGroup
			mu   sync.Mutex
			fail string
		)

		for g := range n {
			wg.Go(func() {
				for i := range per {
					k := fmt.Sprint(g, "-", i)

					err := top.Set(ctx, k, k, 0)
					v, ok := top.Get(ctx, k)
					hits, errs := top.GetMultiple(ctx, k, "none")

					if err != nil || !ok || v != k || hits[k] != k || len(hits) != 1 || len(errs) != 1 {
						mu.Lock()

						fail = fmt.Sprintf("%s: %v, %v, %v, %v, %v", k, err, v, ok, hits, errs)

						mu.Unlock()
					}
				}
			})
		}

		wg.Wait()

		if fail != "" {
			rt.Fatalf("%s", fail)
		}

		for _, m := range []string{"set", "get", "get_multiple"} {
			s := col.GetStats()["hypercache_"+m+"_count"]
			if s == nil || s.Sum != int64(n*per) {
				rt.Fatalf("%d %s calls counted as %+v", n*per, m, s)
			}
		}

		c.NT(n >= 3)
	})
}
