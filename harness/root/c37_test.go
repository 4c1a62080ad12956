package root_test

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

// ---- C37: lifecycle ----

// stoppable is what a lifecycle test uses of a cache of any backend.
type stoppable interface {
	Set(ctx context.Context, key string, value any, expiration time.Duration) error
	Get(ctx context.Context, key string) (any, bool)
	GetOrSet(ctx context.Context, key string, value any, expiration time.Duration) (any, error)
	GetMultiple(ctx context.Context, keys ...string) (map[string]any, map[string]error)
	Remove(ctx context.Context, keys ...string) error
	Clear(ctx context.Context) error
	SetCapacity(ctx context.Context, capacity int)
	Count(ctx context.Context) int
	TriggerEviction(ctx context.Context)
	TriggerExpiration()
	Stop(ctx context.Context) error
	ManagementHTTPAddress() string
	DistMetrics() any
	ClusterOwners(key string) []string
}

type life struct {
	dist, taken    bool
	alg, stats     string
	capacity       int
	shards         int
	maxEvict       uint
	evict, expire  time.Duration
	debounce       time.Duration
	buf            int
	maxSize        int64
	mgmt           string // "", free, taken, bad
	node           string // dist: "", free, taken
	loops          int    // bit set of background loops of the node
	loop           time.Duration
	badAuth        bool
	cancelBefore   bool
	mgmtGate, slow bool
}

func drawLife(rt *rapid.T) life {
	ivl := []time.Duration{0, 0, time.Millisecond, 200 * time.Microsecond, time.Hour, -time.Second}

	return life{
		dist:     rapid.Bool().Draw(rt, "dist"),
		alg:      rapid.SampledFrom([]string{"lru", "lfu", "clock", "cawolfu", "arc", "", "nope"}).Draw(rt, "alg"),
		stats:    rapid.SampledFrom([]string{"", "default", "default", "nope"}).Draw(rt, "stats"),
		capacity: rapid.SampledFrom([]int{0, 1, 10, 10, 1000, -1}).Draw(rt, "capacity"),
		shards:   rapid.SampledFrom([]int{-1, 0, 1, 4, 32, 32}).Draw(rt, "shards"),
		maxEvict: rapid.SampledFrom([]uint{0, 1, 5}).Draw(rt, "maxEvict"),
		evict:    rapid.SampledFrom(ivl).Draw(rt, "evict"),
		expire:   rapid.SampledFrom(ivl).Draw(rt, "expire"),
		debounce: rapid.SampledFrom([]time.Duration{0, time.Millisecond}).Draw(rt, "debounce"),
		buf:      rapid.SampledFrom([]int{0, 1, 8}).Draw(rt, "buf"),
		maxSize:  rapid.SampledFrom([]int64{0, 0, 50}).Draw(rt, "maxSize"),
		mgmt:     rapid.SampledFrom([]string{"", "free", "free", "taken", "bad"}).Draw(rt, "mgmt"),
		node:     rapid.SampledFrom([]string{"", "free", "free", "taken"}).Draw(rt, "node"),
		loops:    rapid.IntRange(0, 255).Draw(rt, "loops"),
		loop:     rapid.SampledFrom([]time.Duration{time.Millisecond, 5 * time.Millisecond, time.Hour}).Draw(rt, "loop"),
		badAuth:  rapid.IntRange(0, 9).Draw(rt, "badAuth") == 0,
		mgmtGate: rapid.Bool().Draw(rt, "gate"),
		// the caller's context may already be over
		cancelBefore: rapid.IntRange(0, 7).Draw(rt, "cancelBefore") == 0,
	}
}

func hcOptions[T backend.IBackendConstrain](l life, mgmt string) []hypercache.Option[T] {
	o := []hypercache.Option[T]{
		hypercache.WithEvictionAlgorithm[T](l.alg),
		hypercache.WithEvictionShardCount[T](l.shards),
		hypercache.WithEvictionInterval[T](l.evict),
		hypercache.WithExpirationInterval[T](l.expire),
		hypercache.WithMaxCacheSize[T](l.maxSize),
		hypercache.WithExpirationTriggerBuffer[T](l.buf),
		hypercache.WithExpirationTriggerDebounce[T](l.debounce),
		hypercache.WithMaxEvictionCount[T](l.maxEvict),
	}

	if l.stats != "" {
		o = append(o, hypercache.WithStatsCollector[T](l.stats))
	}

	if mgmt != "" {
		o = append(o, hypercache.WithManagementHTTP[T](mgmt))
	}

	return o
}

// build constructs the cache; what it listens on is in the returned addresses.
func (l life) build(ctx context.Context, rt *rapid.T, taken string) (hc stoppable, addrs []string, err error) {
	mgmt := ""

	switch l.mgmt {
	case "free":
		mgmt = freeAddr()
		addrs = append(addrs, mgmt)
	case "taken":
		mgmt = taken
	case "bad":
		mgmt = "127.0.0.1:notaport"
	}

	if !l.dist {
		cfg, cerr := hypercache.NewConfig[mem](constants.InMemoryBackend)
		if cerr != nil {
			rt.Fatalf("config: %v", cerr)
		}

		cfg.InMemoryOptions = []backend.Option[mem]{backend.WithCapacity[mem](l.capacity)}
		cfg.HyperCacheOptions = hcOptions[mem](l, mgmt)

		c, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
		if err != nil {
			return nil, addrs, err
		}

		return c, addrs, nil
	}

	cfg, cerr := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
	if cerr != nil {
		rt.Fatalf("config: %v", cerr)
	}

	addr := ""

	switch l.node {
	case "free":
		addr = freeAddr()
		addrs = append(addrs, addr)
	case "taken":
		addr = taken
	}

	o := []backend.DistMemoryOption{
		backend.WithDistNode("self", addr), backend.WithDistCapacity(l.capacity),
		backend.WithDistSeeds([]string{"peer@" + taken}), // accepts connections and never answers
		backend.WithDistReplication(2),
		backend.WithDistHTTPLimits(backend.DistHTTPLimits{ClientTimeout: 30 * time.Millisecond}),
	}

	for i, opt := range []backend.DistMemoryOption{
		backend.WithDistGossipInterval(l.loop),
		backend.WithDistHeartbeat(l.loop, 50*l.loop, 100*l.loop),
		backend.WithDistMerkleAutoSync(l.loop),
		backend.WithDistHintReplayInterval(l.loop),
		backend.WithDistTombstoneSweep(l.loop),
		backend.WithDistRebalanceInterval(l.loop),
		backend.WithDistReadRepairBatch(l.loop, 2),
		backend.WithDistParallelReads(true),
	} {
		if l.loops&(1<<i) != 0 {
			o = append(o, opt)
		}
	}

	o = append(o, backend.WithDistHintTTL(time.Minute), backend.WithDistTombstoneTTL(time.Minute))

	if l.badAuth {
		o = append(o, backend.WithDistHTTPAuth(backend.DistHTTPAuth{ClientSign: func(*http.Request) error { return nil }}))
	}

	cfg.DistMemoryOptions = o
	cfg.HyperCacheOptions = hcOptions[backend.DistMemory](l, mgmt)

	c, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
	if err != nil {
		return nil, addrs, err
	}

	return c, addrs, nil
}

func freeAddr() string { return vh.FreeAddr() }

// use performs one operation of any kind.
func use(hc stoppable, op, k int) {
	key := fmt.Sprintf("k%d", k)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)

	defer cancel()

	switch op {
	case 0, 1, 2:
		_ = hc.Set(ctx, key, "v", 0)
	case 3:
		_ = hc.Set(ctx, key, "v", time.Microsecond)
	case 4, 5:
		hc.Get(ctx, key)
	case 6:
		_, _ = hc.GetOrSet(ctx, key, "w", time.Microsecond)
	case 7:
		_, _ = hc.GetMultiple(ctx, key, "k1", "k2")
	case 8:
		_ = hc.Remove(ctx, key)
	case 9:
		hc.TriggerEviction(ctx)
		hc.TriggerExpiration()
	case 10:
		hc.SetCapacity(ctx, k)
	case 11:
		_ = hc.Clear(ctx)
	case 12:
		hc.Count(ctx)
		hc.DistMetrics()
		hc.ClusterOwners(key)
	case 13:
		if a := hc.ManagementHTTPAddress(); a != "" {
			if resp, err := mgmtClient.Get("http://" + a + "/cluster/members"); err == nil {
				_, _ = io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}
		}
	}
}

// blackhole accepts connections and never answers.
func blackhole() (net.Listener, func()) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}

	var (
		mu    sync.Mutex
		conns []net.Conn
	)

	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}

			mu.Lock()
			conns = append(conns, c)
			mu.Unlock()
		}
	}()

	return ln, func() {
		ln.Close()
		mu.Lock()
		defer mu.Unlock()

		for _, c := range conns {
			c.Close()
		}
	}
}

func TestC37_Lifecycle(t *testing.T) {
	vh.Run(t, "lifecycle", "a cache was built, used and stopped, or its construction failed after its backend was built", 250, func(rt *rapid.T, c *vh.Case) {
		l := drawLife(rt)
		c.Log("%+v", l)

		base := vh.Running() // left by a failed case

		ln, closeHole := blackhole()
		defer closeHole()

		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()

		if l.cancelBefore {
			cancel()
		}

		hc, addrs, err := l.build(ctx, rt, ln.Addr().String())
		if err != nil {
			c.Label("construction failed")
			c.NT(!l.badAuth)
			settled(rt, c, base, addrs, "the failed construction")

			return
		}

		c.NT(true)
		c.LabelIf(l.dist, "dist")

		var stream *http.Response

		if a := hc.ManagementHTTPAddress(); a != "" && l.dist && rapid.Bool().Draw(rt, "stream") {
			stream, _ = mgmtClient.Get("http://" + a + "/cluster/events")
		}

		step := func(n int) (ops [][2]int) {
			for range n {
				ops = append(ops, [2]int{rapid.IntRange(0, 13).Draw(rt, "op"), rapid.IntRange(0, 20).Draw(rt, "k")})
			}

			return ops
		}

		run := func(ops [][2]int) {
			for _, o := range ops {
				use(hc, o[0], o[1])
			}
		}

		before := step(rapid.IntRange(0, 12).Draw(rt, "before"))
		racers := make([][][2]int, rapid.IntRange(0, 3).Draw(rt, "racers"))

		for i := range racers {
			racers[i] = step(rapid.IntRange(1, 10).Draw(rt, "racing"))
		}

		after := step(rapid.IntRange(0, 6).Draw(rt, "after"))
		stops := rapid.IntRange(1, 3).Draw(rt, "stops")
		together := rapid.Bool().Draw(rt, "together")
		delay := time.Duration(rapid.IntRange(0, 2000).Draw(rt, "delay")) * time.Microsecond
		cancelWhen := rapid.SampledFrom([]string{"never", "never", "before", "race", "after"}).Draw(rt, "cancel")
		c.Log("before %v racers %v stops %d together %v after %v delay %v cancel %s", before, racers, stops, together, after, delay, cancelWhen)

		vh.Within(rt, 60*time.Second, "operations", func() { run(before) })
		c.LabelIf(len(racers) > 0, "racing")

		if cancelWhen == "before" {
			cancel()
		}

		// other operations and stops race with this one
		var wg sync.WaitGroup

		errs := make([]error, stops)

		for i := range racers {
			wg.Go(func() { run(racers[i]) })
		}

		stop := func(i int) {
			sctx, done := context.WithTimeout(context.Background(), 10*time.Second)
			defer done()

			errs[i] = hc.Stop(sctx)
		}

		wg.Go(func() {
			time.Sleep(delay)

			if cancelWhen == "race" {
				cancel()
			}

			for i := range stops {
				if together {
					wg.Go(func() { stop(i) })
				} else {
					stop(i)
				}
			}
		})

		vh.Within(rt, 60*time.Second, "Stop and the operations racing with it", wg.Wait)

		for i, err := range errs {
			if err != nil {
				rt.Fatalf("stop %d: %v\n%s", i, err, c.Desc())
			}
		}

		vh.Within(rt, 60*time.Second, "operations after Stop", func() { run(after) })

		if stream != nil {
			vh.Within(rt, 20*time.Second, "the event stream", func() { _, _ = io.Copy(io.Discard, stream.Body) })
			stream.Body.Close()
		}

		settled(rt, c, base, addrs, "Stop")
	})
}

// settled checks that nothing runs and nobody listens any more.
func settled(rt *rapid.T, c *vh.Case, base, addrs []string, what string) {
	if left := vh.Quiet(10*time.Second, base); len(left) > 0 {
		rt.Fatalf("still running after %s:\n%s\n%s", what, strings.Join(left, "\n\n"), c.Desc())
	}

	for _, a := range addrs {
		if conn, err := net.DialTimeout("tcp", a, time.Second); err == nil {
			conn.Close()
			rt.Fatalf("%s still accepts connections after %s\n%s", a, what, c.Desc())
		}
	}
}
