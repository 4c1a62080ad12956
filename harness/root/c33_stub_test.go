package root_test

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

// ---- C33: the management server in front of a cache that says whatever the
// case makes it say ----

type localCache struct {
	mu                      sync.Mutex
	st                      stats.Stats
	capacity                int
	allocated, maxSize      int64
	evictEvery, expireEvery time.Duration
	alg                     string
	clearErr                error

	evicted, expired, cleared int
	ctxs                      []context.Context
}

func (l *localCache) GetStats() stats.Stats             { return l.st }
func (l *localCache) Capacity() int                     { return l.capacity }
func (l *localCache) Allocation() int64                 { return l.allocated }
func (l *localCache) MaxCacheSize() int64               { return l.maxSize }
func (l *localCache) EvictionInterval() time.Duration   { return l.evictEvery }
func (l *localCache) ExpirationInterval() time.Duration { return l.expireEvery }
func (l *localCache) EvictionAlgorithm() string         { return l.alg }

func (l *localCache) saw(n *int, ctx context.Context) {
	l.mu.Lock()
	defer l.mu.Unlock()

	*n++

	if ctx != nil {
		l.ctxs = append(l.ctxs, ctx)
	}
}

func (l *localCache) TriggerEviction(ctx context.Context) { l.saw(&l.evicted, ctx) }
func (l *localCache) TriggerExpiration()                  { l.saw(&l.expired, nil) }

func (l *localCache) Clear(ctx context.Context) error {
	l.saw(&l.cleared, ctx)

	return l.clearErr
}

func (l *localCache) acted() [3]int {
	l.mu.Lock()
	defer l.mu.Unlock()

	return [3]int{l.evicted, l.expired, l.cleared}
}

// clusterCache also knows a cluster.
type clusterCache struct {
	*localCache

	metrics, heartbeat any
	owners             map[string][]string
	asked              []string
	members            []memberInfo
	replication, spots int
	bus                *eventbus.Bus
	during             func() // called while the members are read
}

type memberInfo = struct {
	ID          string
	Address     string
	State       string
	Incarnation uint64
}

func (k *clusterCache) DistMetrics() any          { return k.metrics }
func (k *clusterCache) DistHeartbeatMetrics() any { return k.heartbeat }
func (k *clusterCache) EventBus() *eventbus.Bus   { return k.bus }

func (k *clusterCache) ClusterOwners(key string) []string {
	k.mu.Lock()
	defer k.mu.Unlock()

	k.asked = append(k.asked, key)

	return k.owners[key]
}

func (k *clusterCache) DistMembershipSnapshot() (members []memberInfo, replication, vnodes int) {
	if k.during != nil {
		k.during()
	}

	return k.members, k.replication, k.spots
}

func (k *clusterCache) DistRingHashSpots() []string {
	out := make([]string, k.spots)
	for i := range out {
		out[i] = fmt.Sprintf("%08x:n%d", i*7919, i%3)
	}

	return out
}

func drawLocal(rt *rapid.T) *localCache {
	l := &localCache{
		st:          stats.Stats{},
		capacity:    rapid.IntRange(-1, 1<<40).Draw(rt, "capacity"),
		allocated:   rapid.Int64().Draw(rt, "allocation"),
		maxSize:     rapid.Int64().Draw(rt, "maxSize"),
		evictEvery:  time.Duration(rapid.Int64().Draw(rt, "evict")),
		expireEvery: time.Duration(rapid.Int64().Draw(rt, "expire")),
		alg:         rapid.SampledFrom([]string{"lru", "", "a\"b", "é"}).Draw(rt, "alg"),
	}

	for range rapid.IntRange(0, 4).Draw(rt, "stats") {
		v := rapid.SliceOfN(rapid.Int64(), 0, 4).Draw(rt, "values")
		l.st[rapid.StringN(0, 5, -1).Draw(rt, "name")] = &stats.Stat{Mean: rapid.Float64Range(-1e9, 1e9).Draw(rt, "mean"), Min: rapid.Int64().Draw(rt, "min"), Values: v, Count: len(v)}
	}

	if rapid.Bool().Draw(rt, "clearFails") {
		l.clearErr = errors.New("cannot clear")
	}

	return l
}

// exact decodes JSON without losing digits.
func exact(b []byte) any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()

	var v any
	if err := d.Decode(&v); err != nil {
		return err.Error()
	}

	return v
}

func exactForm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}

	return exact(b)
}

func TestC33_Any(t *testing.T) {
	vh.Run(t, "any cache", "a management server in front of a cache with arbitrary statistics, settings, members, owners and metrics, with or without a cluster: every answer is what the cache says to the last digit, every action reaches it once and its failure is an error, every event published from the moment a stream is asked for arrives once and in order, and a stream that was left is no longer fed; non-trivial: a cluster and a stream", 300, func(rt *rapid.T, c *vh.Case) {
		l := drawLocal(rt)
		srv := hypercache.NewManagementHTTPServer("127.0.0.1:0")
		ctx, cancel := context.WithCancel(context.Background())

		defer cancel()

		var k *clusterCache

		if rapid.IntRange(0, 3).Draw(rt, "cluster") > 0 {
			k = &clusterCache{localCache: l, owners: map[string][]string{}, replication: rapid.IntRange(0, 9).Draw(rt, "rf"), spots: rapid.IntRange(0, 40).Draw(rt, "spots"),
				heartbeat: map[string]any{"n": rapid.Uint64().Draw(rt, "beats")}}

			if rapid.IntRange(0, 3).Draw(rt, "bus") > 0 {
				k.bus = eventbus.New()
			}

			if rapid.Bool().Draw(rt, "metrics") {
				k.metrics = map[string]uint64{"a": rapid.Uint64().Draw(rt, "metric")}
			}

			for i := range rapid.IntRange(0, 8).Draw(rt, "members") {
				k.members = append(k.members, memberInfo{fmt.Sprintf("n%d", i), rapid.SampledFrom([]string{"", "h:1", "[::1]:2"}).Draw(rt, "addr"), rapid.SampledFrom([]string{"alive", "suspect", "dead"}).Draw(rt, "state"), rapid.Uint64().Draw(rt, "inc")})
			}
		}

		var err error
		if k != nil {
			err = srv.Start(ctx, k)
		} else {
			err = srv.Start(ctx, l)
		}

		if err != nil {
			rt.Fatalf("start: %v", err)
		}

		defer srv.Shutdown(context.Background())

		m := &mgmt{base: "http://" + srv.Address()}
		get := func(path string, status int, want any) {
			code, body := m.do(rt, "GET", path, nil)
			if code != status || (status == 200 && !reflect.DeepEqual(exact(body), exactForm(want))) {
				rt.Fatalf("GET %s: %d %s, want %d %v\n%s", path, code, clip33(body), status, exactForm(want), c.Desc())
			}
		}

		streamed := false

		for range rapid.IntRange(2, 10).Draw(rt, "steps") {
			step := rapid.SampledFrom([]string{"stats", "config", "metrics", "owners", "members", "ring", "heartbeat", "events", "evict", "expire", "clear"}).Draw(rt, "step")
			c.Log("%s", step)

			switch step {
			case "stats":
				get("/stats", 200, l.st)
			case "config":
				want := map[string]any{"capacity": l.capacity, "allocation": l.allocated, "maxCacheSize": l.maxSize, "evictionInterval": l.evictEvery.String(), "expirationInterval": l.expireEvery.String(), "evictionAlgorithm": l.alg}
				if k != nil {
					want["replication"], want["virtualNodesPerNode"] = k.replication, k.spots
				}

				get("/config", 200, want)
			case "metrics":
				if k != nil && k.metrics != nil {
					get("/dist/metrics", 200, k.metrics)
				} else {
					get("/dist/metrics", 404, nil)
				}
			case "owners":
				key := rapid.OneOf(rapid.StringN(1, 6, -1), rapid.SampledFrom([]string{"", "a b", "A+b", "%41", "é/?&=#"})).Filter(validUTF8).Draw(rt, "key")
				path := "/dist/owners?key=" + url.QueryEscape(key)

				switch {
				case k == nil:
					get(path, 404, nil)
				case key == "":
					get(path, 400, nil)
				default:
					k.mu.Lock()
					k.owners[key], k.asked = rapid.SliceOfN(rapid.SampledFrom([]string{"n0", "n1", "n2", "é\""}), 0, 7).Draw(rt, "owners"), nil
					k.mu.Unlock()

					get(path, 200, map[string]any{"key": key, "owners": k.owners[key]})

					if !reflect.DeepEqual(k.asked, []string{key}) {
						rt.Fatalf("asked for the owners of %q instead of %q\n%s", k.asked, key, c.Desc())
					}
				}
			case "members":
				if k == nil {
					get("/cluster/members", 404, nil)
				} else {
					get("/cluster/members", 200, map[string]any{"replication": k.replication, "virtualNodes": k.spots, "members": k.members})
				}
			case "ring":
				if k == nil {
					get("/cluster/ring", 404, nil)
				} else {
					get("/cluster/ring", 200, map[string]any{"count": k.spots, "vnodes": k.DistRingHashSpots()})
				}
			case "heartbeat":
				if k == nil {
					get("/cluster/heartbeat", 404, nil)
				} else {
					get("/cluster/heartbeat", 200, k.heartbeat)
				}
			case "events":
				if k == nil || k.bus == nil {
					get("/cluster/events", 503, nil)
				} else if !streamed {
					streamed = true

					stream33(rt, c, m.base, k)
				}
			default:
				path := map[string]string{"evict": "/evict", "expire": "/trigger-expiration", "clear": "/clear"}[step]
				status, failed := 202, step == "clear" && l.clearErr != nil

				if step == "clear" {
					status = 200
				}

				before := l.acted()
				code, body := m.do(rt, "POST", path, nil)
				before[map[string]int{"evict": 0, "expire": 1, "clear": 2}[step]]++

				if (failed && code < 500) || (!failed && code != status) || l.acted() != before {
					rt.Fatalf("POST %s: %d %s, the cache saw %v, want %v\n%s", path, code, clip33(body), l.acted(), before, c.Desc())
				}
			}
		}

		for _, x := range l.ctxs {
			if x.Err() != nil {
				rt.Fatalf("an action's context ended while the server runs\n%s", c.Desc())
			}
		}

		if err := srv.Shutdown(context.Background()); err != nil {
			rt.Fatalf("shutdown: %v", err)
		}

		for _, x := range l.ctxs {
			if x.Err() == nil {
				rt.Fatalf("an action's context outlives the server\n%s", c.Desc())
			}
		}

		c.LabelIf(streamed, "stream")
		c.NT(streamed)
	})
}

// stream33 opens a stream of events, checks what arrives, and leaves.
func stream33(rt *rapid.T, c *vh.Case, base string, k *clusterCache) {
	type event struct{ typ, data string }

	var (
		want []event
		mu   sync.Mutex
		seq  int
	)

	publish := func() {
		mu.Lock()
		defer mu.Unlock()

		seq++
		typ := []string{"members", "heartbeat", "other"}[seq%3]
		payload := map[string]any{"seq": seq, "text": "line\nbreak <&>\u2028"}
		b, _ := json.Marshal(payload)
		want = append(want, event{typ, string(b)})

		k.bus.Publish(eventbus.Event{Type: typ, Payload: payload})
	}

	// Now and then something happens while the first members are collected.
	if rapid.Bool().Draw(rt, "during") {
		k.during = publish
	}

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	req, _ := http.NewRequestWithContext(ctx, http.MethodGet, base+"/cluster/events", nil)

	resp, err := (&http.Client{Transport: &http.Transport{DisableKeepAlives: true}}).Do(req)
	if err != nil {
		rt.Fatalf("events: %v", err)
	}
	defer resp.Body.Close()

	k.during = nil

	if resp.StatusCode != 200 || !strings.HasPrefix(resp.Header.Get("Content-Type"), "text/event-stream") {
		rt.Fatalf("events: %d %v\n%s", resp.StatusCode, resp.Header, c.Desc())
	}

	got := make(chan event, 100)

	go func() {
		defer close(got)

		var e event

		for sc := bufio.NewScanner(resp.Body); sc.Scan(); {
			switch line := sc.Text(); {
			case strings.HasPrefix(line, "event: "):
				e.typ = line[7:]
			case strings.HasPrefix(line, "data: "):
				e.data = line[6:]
			case line == "" && e.typ != "":
				got <- e
				e = event{}
			}
		}
	}()

	next := func() event {
		select {
		case e, ok := <-got:
			if ok {
				return e
			}
		case <-time.After(10 * time.Second):
		}

		rt.Fatalf("the stream ends or hangs, %d events published\n%s", seq, c.Desc())

		return event{}
	}

	first := []event{next(), next()}
	snapshot := map[string]any{"replication": k.replication, "virtualNodes": k.spots, "members": k.members}

	for i, w := range []struct {
		typ string
		v   any
	}{{"members", snapshot}, {"heartbeat", k.heartbeat}} {
		if first[i].typ != w.typ || !reflect.DeepEqual(exact([]byte(first[i].data)), exactForm(w.v)) {
			rt.Fatalf("the stream starts with %v, want %s %v\n%s", first, w.typ, exactForm(w.v), c.Desc())
		}
	}

	for range rapid.IntRange(0, 4).Draw(rt, "bursts") {
		for range rapid.IntRange(1, 6).Draw(rt, "burst") {
			publish()
		}

		for ; len(want) > 0; want = want[1:] {
			if e := next(); e.typ != want[0].typ || !reflect.DeepEqual(exact([]byte(e.data)), exact([]byte(want[0].data))) {
				rt.Fatalf("received %v, published %v\n%s", e, want[0], c.Desc())
			}
		}
	}

	for ; len(want) > 0; want = want[1:] {
		if e := next(); e.typ != want[0].typ || !reflect.DeepEqual(exact([]byte(e.data)), exact([]byte(want[0].data))) {
			rt.Fatalf("received %v, published %v\n%s", e, want[0], c.Desc())
		}
	}

	select {
	case e := <-got:
		rt.Fatalf("received %v, which was not published\n%s", e, c.Desc())
	default:
	}

	// Once the receiver is gone, events find nobody after a while.
	cancel()
	resp.Body.Close()

	if !vh.Eventually(10*time.Second, func() bool {
		k.bus.Publish(eventbus.Event{Type: "late", Payload: strings.Repeat("x", 1000)})

		return k.bus.SubscriberCount() == 0
	}) {
		rt.Fatalf("a stream that was left is still subscribed\n%s", c.Desc())
	}
}

func TestC33_Limits(t *testing.T) {
	vh.Run(t, "limits", "management servers with a request limit, and short and long read, write and idle timeouts given, absent or negative: a request beyond the limit is refused without effect, one within it accepted, and stalled requests and idle connections are cut off by their own timeout only; non-trivial: all", 3, func(rt *rapid.T, c *vh.Case) {
		const short, long = 150 * time.Millisecond, 20 * time.Second

		either := rapid.SampledFrom([]time.Duration{short, long})
		limit := rapid.IntRange(600, 100000).Draw(rt, "limit")
		defaults := rapid.SampledFrom([]hypercache.ManagementHTTPOption{hypercache.WithMgmtBodyLimit(0), hypercache.WithMgmtIdleTimeout(-1), hypercache.WithMgmtConcurrency(0)}).Draw(rt, "ignored")

		opts := [][]hypercache.ManagementHTTPOption{
			{hypercache.WithMgmtBodyLimit(limit), hypercache.WithMgmtReadTimeout(short), hypercache.WithMgmtIdleTimeout(long), hypercache.WithMgmtWriteTimeout(either.Draw(rt, "write")), defaults},
			{defaults, hypercache.WithMgmtReadTimeout(long), hypercache.WithMgmtIdleTimeout(short), hypercache.WithMgmtWriteTimeout(either.Draw(rt, "write")), hypercache.WithMgmtConcurrency(100), defaults},
		}

		c.Log("limit %d", limit)
		c.NT(true)

		var (
			wg     sync.WaitGroup
			closed [2][2]bool
		)

		for n, o := range opts {
			l := &localCache{}
			srv := hypercache.NewManagementHTTPServer("127.0.0.1:0", o...)

			if err := srv.Start(context.Background(), l); err != nil {
				rt.Fatalf("start: %v", err)
			}
			defer srv.Shutdown(context.Background())

			for i, req := range []string{"GET /health HTTP/1.1\r\nHost: x\r\n", "GET /health HTTP/1.1\r\nHost: x\r\n\r\n"} {
				wg.Go(func() { closed[n][i] = cutOff33(srv.Address(), req, i == 1) })
			}

			most := limit
			if n == 1 {
				most = 4 << 20
			}

			for _, size := range []int{0, most / 2, most, most + 1, 2 * most} {
				before := l.acted()

				status := 0
				if resp, err := mgmtClient.Post("http://"+srv.Address()+"/evict", "text/plain", strings.NewReader(strings.Repeat("x", size))); err == nil {
					status = resp.StatusCode
					resp.Body.Close()
				}

				fits, did := size <= most, l.acted() != before
				if fits != (status == 202) || did != fits {
					rt.Fatalf("a request of %d bytes to a server with a limit of %d: status %d, effect %v\n%s", size, most, status, did, c.Desc())
				}
			}
		}

		wg.Wait()

		if want := [2][2]bool{{true, false}, {false, true}}; closed != want {
			rt.Fatalf("cut off after 2s (server with a short read timeout: in a request, idle; with a short idle timeout): %v, want %v\n%s", closed, want, c.Desc())
		}
	})
}

// cutOff33 makes a request and reports whether the server closes the
// connection in the 2s after it.
func cutOff33(addr, req string, complete bool) bool {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return false
	}
	defer conn.Close()

	_, _ = conn.Write([]byte(req))
	r := bufio.NewReader(conn)

	if complete {
		resp, err := http.ReadResponse(r, nil)
		if err != nil {
			return false
		}

		_, _ = io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
	}

	_ = conn.SetReadDeadline(time.Now().Add(2 * time.Second))

	for {
		if _, err = r.ReadByte(); err != nil {
			ne, isNet := err.(net.Error)

			return !isNet || !ne.Timeout()
		}
	}
}
