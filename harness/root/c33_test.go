package root_test

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	fiber "github.com/gofiber/fiber/v3"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// ---- C33: management HTTP ----

// mgmt is a cache with a management server, and what the server must report.
type mgmt struct {
	base    string
	members *cluster.Membership
	set     func(key string, v any, ttl time.Duration) error
	count   func() int
	conf    map[string]any
	stats   func() any
	hc      any
	stop    func()
	plain   *hypercache.HyperCache[mem]
	peers   int
	called  *calls
}

type calls struct {
	mu    sync.Mutex
	read  int
	admin int
}

const marker = "k-secret"

// gate admits requests that carry the header value.
func gate(name, want string, status int, n *int, c *calls) func(fiber.Ctx) error {
	return func(f fiber.Ctx) error {
		c.mu.Lock()
		*n++
		c.mu.Unlock()

		if f.Get(name) == want {
			return nil
		}

		if status == 0 {
			return errors.New("no entry")
		}

		return fiber.NewError(status, "no entry")
	}
}

type gates struct {
	read, control bool
	status        int
}

func drawGates(rt *rapid.T) gates {
	return gates{
		read:    rapid.IntRange(0, 3).Draw(rt, "readGate") > 0,
		control: rapid.Bool().Draw(rt, "controlGate"),
		status:  rapid.SampledFrom([]int{401, 403, 0}).Draw(rt, "refusal"),
	}
}

func (g gates) options(c *calls) []hypercache.ManagementHTTPOption {
	var o []hypercache.ManagementHTTPOption
	if g.read {
		o = append(o, hypercache.WithMgmtAuth(gate("X-Read", "r1", g.status, &c.read, c)))
	}

	if g.control {
		o = append(o, hypercache.WithMgmtControlAuth(gate("X-Control", "c1", g.status, &c.admin, c)))
	}

	return o
}

func newMgmt(rt *rapid.T, g gates, distributed bool) *mgmt {
	m := &mgmt{called: &calls{}}
	opts := g.options(m.called)
	capacity := rapid.IntRange(5, 50).Draw(rt, "capacity")
	maxSize := rapid.SampledFrom([]int64{0, 0, 1000, 1 << 20}).Draw(rt, "maxSize")
	evict := rapid.SampledFrom([]time.Duration{time.Hour, 90 * time.Minute, 1500 * time.Millisecond * 1000}).Draw(rt, "evict")
	expire := rapid.SampledFrom([]time.Duration{time.Hour, 7 * time.Hour}).Draw(rt, "expire")
	alg := rapid.SampledFrom(algs).Draw(rt, "alg")
	ctx := context.Background()
	m.conf = map[string]any{
		"capacity": float64(capacity), "maxCacheSize": float64(maxSize), "evictionInterval": evict.String(),
		"expirationInterval": expire.String(), "evictionAlgorithm": alg,
	}

	if distributed {
		cfg, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
		if err != nil {
			rt.Fatalf("config: %v", err)
		}

		ring := cluster.NewRing(cluster.WithReplication(rapid.IntRange(1, 6).Draw(rt, "rf")), cluster.WithVirtualNodes(rapid.IntRange(1, 8).Draw(rt, "vnodes")))
		ms := cluster.NewMembership(ring)

		m.peers = rapid.IntRange(0, 6).Draw(rt, "peers")
		cfg.DistMemoryOptions = []backend.DistMemoryOption{
			backend.WithDistMembership(ms, cluster.NewNode("self", "127.0.0.1:1")),
			backend.WithDistTransport(backend.NewInProcessTransport()),
			backend.WithDistCapacity(capacity),
		}
		cfg.HyperCacheOptions = []hypercache.Option[backend.DistMemory]{
			hypercache.WithEvictionAlgorithm[backend.DistMemory](alg),
			hypercache.WithEvictionInterval[backend.DistMemory](evict),
			hypercache.WithExpirationInterval[backend.DistMemory](expire),
			hypercache.WithMaxCacheSize[backend.DistMemory](maxSize),
			hypercache.WithManagementHTTP[backend.DistMemory]("127.0.0.1:0", opts...),
		}

		hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
		if err != nil {
			rt.Fatalf("new: %v", err)
		}

		m.members = ms
		m.set = func(k string, v any, ttl time.Duration) error { return hc.Set(ctx, k, v, ttl) }
		m.count = func() int { return hc.Count(ctx) }
		m.stats = func() any { return hc.GetStats() }
		m.base = "http://" + hc.ManagementHTTPAddress()
		m.hc = hc
		m.conf["replication"] = float64(ring.Replication())
		m.conf["virtualNodesPerNode"] = float64(ring.VirtualNodesPerNode())
		m.stop = func() { _ = hc.Stop(ctx) }

		return m
	}

	cfg, err := hypercache.NewConfig[mem](constants.InMemoryBackend)
	if err != nil {
		rt.Fatalf("config: %v", err)
	}

	cfg.InMemoryOptions = []backend.Option[mem]{backend.WithCapacity[mem](capacity)}
	cfg.HyperCacheOptions = []hypercache.Option[mem]{
		hypercache.WithEvictionAlgorithm[mem](alg),
		hypercache.WithEvictionInterval[mem](evict),
		hypercache.WithExpirationInterval[mem](expire),
		hypercache.WithMaxCacheSize[mem](maxSize),
		hypercache.WithManagementHTTP[mem]("127.0.0.1:0", opts...),
	}

	hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
	if err != nil {
		rt.Fatalf("new: %v", err)
	}

	m.set = func(k string, v any, ttl time.Duration) error { return hc.Set(ctx, k, v, ttl) }
	m.count = func() int { return hc.Count(ctx) }
	m.stats = func() any { return hc.GetStats() }
	m.base = "http://" + hc.ManagementHTTPAddress()
	m.hc = hc
	m.plain = hc
	// a backend without members
	m.conf["replication"], m.conf["virtualNodesPerNode"] = 0.0, 0.0
	m.stop = func() { _ = hc.Stop(ctx) }

	return m
}

// membership is nil for a cache that has no cluster.
func (m *mgmt) membership() *cluster.Membership { return m.members }

var mgmtClient = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 20 * time.Second,
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

func (m *mgmt) do(rt *rapid.T, method, path string, hdr map[string]string) (int, []byte) {
	req, err := http.NewRequest(method, m.base+path, bytes.NewReader(nil))
	if err != nil {
		rt.Fatalf("request %s %q: %v", method, path, err)
	}

	for k, v := range hdr {
		req.Header.Set(k, v)
	}

	resp, err := mgmtClient.Do(req)
	if err != nil {
		rt.Fatalf("%s %s: %v", method, path, err)
	}
	defer resp.Body.Close()

	b, err := io.ReadAll(resp.Body)
	if err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
		rt.Fatalf("%s %s: %v", method, path, err)
	}

	return resp.StatusCode, b
}

var (
	readRoutes    = []string{"/stats", "/config", "/dist/metrics", "/dist/owners?key=k-secret0", "/cluster/members", "/cluster/ring", "/cluster/heartbeat", "/cluster/events"}
	controlRoutes = []string{"/evict", "/trigger-expiration", "/clear"}
)

func TestC33_Gates(t *testing.T) {
	vh.Run(t, "gates", "a request without the required credential reaches a protected route", 1000, func(rt *rapid.T, c *vh.Case) {
		g := drawGates(rt)
		m := newMgmt(rt, g, rapid.Bool().Draw(rt, "dist"))

		defer m.stop()

		capacity := int(m.conf["capacity"].(float64))
		for i := range capacity + 3 {
			_ = m.set(fmt.Sprintf("%s%d", marker, i), "v", time.Minute)
		}

		before := m.count()

		for range rapid.IntRange(3, 12).Draw(rt, "requests") {
			control := rapid.Bool().Draw(rt, "control")
			route := rapid.SampledFrom(readRoutes).Draw(rt, "read")
			method := rapid.SampledFrom([]string{"GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS"}).Draw(rt, "method")

			if control {
				route = rapid.SampledFrom(controlRoutes).Draw(rt, "action")
				method = rapid.SampledFrom([]string{"POST", "POST", "POST", "GET", "HEAD", "PUT", "PATCH"}).Draw(rt, "cmethod")
			}

			path := route

			switch rapid.IntRange(0, 6).Draw(rt, "spelling") {
			case 0:
				p, q, _ := strings.Cut(route, "?")
				path = p + "/"

				if q != "" {
					path += "?" + q
				}
			case 1:
				path = strings.ToUpper(route[:3]) + route[3:]
			case 2:
				path = "/" + route
			case 3:
				path = strings.Replace(route, "s", "%73", 1)
			}

			hdr := map[string]string{}
			readCred := rapid.SampledFrom([]string{"", "r1", "r1", "r", "R1", "c1"}).Draw(rt, "rcred")
			ctlCred := rapid.SampledFrom([]string{"", "c1", "c", "C1", "r1"}).Draw(rt, "ccred")

			if readCred != "" {
				hdr["X-Read"] = readCred
			}

			if ctlCred != "" {
				hdr["X-Control"] = ctlCred
			}

			if rapid.IntRange(0, 5).Draw(rt, "override") == 0 {
				hdr["X-HTTP-Method-Override"] = "POST"
			}

			allowed := !g.read || readCred == "r1"
			if control && g.control {
				allowed = ctlCred == "c1"
			}

			if allowed { // effects are another test's business
				continue
			}

			c.NT(true)

			status, body := m.do(rt, method, path, hdr)
			c.Log("%s %s read %q control %q: %d", method, path, readCred, ctlCred, status)

			exact := path == route && (control && method == "POST" || !control && method == "GET")
			want := g.status

			if want == 0 {
				want = 500
			}

			if exact && status != want {
				rt.Fatalf("%s %s without the credential: status %d, expected the refusal %d\n%s", method, path, status, want, c.Desc())
			}

			if status >= 200 && status < 300 && method != "OPTIONS" {
				rt.Fatalf("%s %s without the credential: status %d %q\n%s", method, path, status, clip33(body), c.Desc())
			}

			for _, leak := range []string{marker, "capacity", "evictionAlgorithm", "members", "owners", "vnodes", "heartbeatSuccess"} {
				if bytes.Contains(body, []byte(leak)) {
					rt.Fatalf("%s %s without the credential reveals %q: %q\n%s", method, path, leak, clip33(body), c.Desc())
				}
			}

			if status == want && method != "HEAD" && string(body) != "no entry" {
				rt.Fatalf("%s %s refused with the body %q\n%s", method, path, clip33(body), c.Desc())
			}
		}

		// liveness is open to everybody
		if status, body := m.do(rt, "GET", "/health", nil); status != 200 || string(body) != "ok" {
			rt.Fatalf("health: %d %q", status, body)
		}

		time.Sleep(2 * time.Millisecond)

		if after := m.count(); after != before {
			rt.Fatalf("refused requests changed the number of items from %d to %d\n%s", before, after, c.Desc())
		}
	})
}

func clip33(b []byte) string {
	if len(b) > 200 {
		b = b[:200]
	}

	return string(b)
}

func jsonForm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}

	var out any

	_ = json.Unmarshal(b, &out)

	return out
}

func TestC33_Reports(t *testing.T) {
	vh.Run(t, "reports", "a request is admitted and reports on a cache with items, or acts on it", 1000, func(rt *rapid.T, c *vh.Case) {
		g := drawGates(rt)
		distributed := rapid.Bool().Draw(rt, "dist")
		m := newMgmt(rt, g, distributed)

		defer m.stop()

		rhdr, chdr := map[string]string{}, map[string]string{}
		if g.read {
			rhdr["X-Read"], chdr["X-Read"] = "r1", "r1"
		}

		if g.control {
			chdr["X-Control"] = "c1"
		}

		if g.control && rapid.Bool().Draw(rt, "controlOnly") {
			delete(chdr, "X-Read") // the control gate stands alone
		}

		get := func(path string) any {
			status, body := m.do(rt, "GET", path, rhdr)
			if status != 200 {
				rt.Fatalf("GET %s: %d %q\n%s", path, status, clip33(body), c.Desc())
			}

			var v any
			if err := json.Unmarshal(body, &v); err != nil {
				rt.Fatalf("GET %s: %v in %q", path, err, clip33(body))
			}

			return v
		}
		post := func(path string, want int) {
			if status, body := m.do(rt, "POST", path, chdr); status != want {
				rt.Fatalf("POST %s: %d %q\n%s", path, status, clip33(body), c.Desc())
			}
		}

		capacity := int(m.conf["capacity"].(float64))
		keys := []string{}

		for i := range rapid.IntRange(0, capacity+4).Draw(rt, "items") {
			k := fmt.Sprintf("k%d", i)
			if err := m.set(k, "0123456789", time.Hour); err == nil {
				keys = append(keys, k)
			}
		}

		c.Log("dist %v capacity %d items %d", distributed, capacity, len(keys))

		nodes := []string{"self"}

		if ms := m.membership(); ms != nil {
			for i := range m.peers {
				n := cluster.NewNode(fmt.Sprintf("p%d", i), fmt.Sprintf("10.0.0.%d:7946", i))
				n.State = rapid.SampledFrom([]cluster.NodeState{cluster.NodeAlive, cluster.NodeAlive, cluster.NodeSuspect, cluster.NodeDead}).Draw(rt, "state")
				n.Incarnation = rapid.SampledFrom([]uint64{1, 7, 1 << 53}).Draw(rt, "inc")
				ms.Upsert(n)
				nodes = append(nodes, string(n.ID))
			}
		}

		for range rapid.IntRange(2, 8).Draw(rt, "steps") {
			switch step := rapid.IntRange(0, 6).Draw(rt, "step"); step {
			case 0:
				var got, want any
				if !vh.Eventually(10*time.Second, func() bool { // a run in the background may still count
					got, want = get("/stats"), jsonForm(m.stats())

					return reflect.DeepEqual(got, want)
				}) {
					rt.Fatalf("stats report\n%v\nthe cache says\n%v\n%s", got, want, c.Desc())
				}
			case 1:
				got, _ := get("/config").(map[string]any)
				for k, v := range m.conf {
					if got[k] != v {
						rt.Fatalf("config reports %s=%v, configured %v\n%s", k, got[k], v, c.Desc())
					}
				}

				type allocated interface{ Allocation() int64 }

				var a int64
				if !vh.Eventually(10*time.Second, func() bool {
					a = m.hc.(allocated).Allocation()

					return got["allocation"] == float64(a) || func() bool { got, _ = get("/config").(map[string]any); return false }()
				}) {
					rt.Fatalf("config reports an allocation of %v, it is %d\n%s", got["allocation"], a, c.Desc())
				}
			case 2: // owners of any key
				key := rapid.OneOf(rapid.SampledFrom([]string{"a b", "x+y", "50%", "a&b=c", "é", "/", "?", "k1", strings.Repeat("k", 300)}), rapid.StringN(1, 10, -1)).Draw(rt, "key")
				if !validUTF8(key) {
					continue
				}

				status, body := m.do(rt, "GET", "/dist/owners?key="+url.QueryEscape(key), rhdr)
				if !distributed {
					// no cluster, no owners
					var v map[string]any
					_ = json.Unmarshal(body, &v)

					if o, ok := v["owners"].([]any); status == 200 && ok && len(o) > 0 {
						rt.Fatalf("a local cache reports owners: %q", clip33(body))
					}

					continue
				}

				var v struct {
					Key    string   `json:"key"`
					Owners []string `json:"owners"`
				}

				if err := json.Unmarshal(body, &v); status != 200 || err != nil {
					rt.Fatalf("owners of %q: %d %q", key, status, clip33(body))
				}

				type owning interface{ ClusterOwners(string) []string }

				var want []string
				for _, id := range m.members.Ring().Lookup(key) {
					want = append(want, string(id))
				}

				if got := m.hc.(owning).ClusterOwners(key); !slices.Equal(got, want) {
					rt.Fatalf("ClusterOwners(%q) = %v, the ring says %v\n%s", key, got, want, c.Desc())
				}

				if v.Key != key || !slices.Equal(v.Owners, want) {
					rt.Fatalf("owners of %q: %q, expected %v\n%s", key, clip33(body), want, c.Desc())
				}
			case 3:
				if !distributed {
					continue
				}

				var got struct {
					Replication, VirtualNodes int
					Members                   []struct {
						ID, Address, State string
						Incarnation        uint64
					}
				}

				_, body := m.do(rt, "GET", "/cluster/members", rhdr)
				if err := json.Unmarshal(body, &got); err != nil {
					rt.Fatalf("members: %v %q", err, clip33(body))
				}

				var have, want []string
				for _, x := range got.Members {
					have = append(have, fmt.Sprintf("%s %s %s %d", x.ID, x.Address, x.State, x.Incarnation))
				}

				for _, x := range m.membership().List() {
					want = append(want, fmt.Sprintf("%s %s %s %d", x.ID, x.Address, x.State, x.Incarnation))
				}

				sort.Strings(have)
				sort.Strings(want)

				if !slices.Equal(have, want) || float64(got.Replication) != m.conf["replication"] || float64(got.VirtualNodes) != m.conf["virtualNodesPerNode"] {
					rt.Fatalf("members report %q, expected %v\n%s", clip33(body), want, c.Desc())
				}

				ring, _ := get("/cluster/ring").(map[string]any)
				alive := 0

				for _, x := range m.membership().List() {
					if x.State != cluster.NodeDead {
						alive++
					}
				}

				spots, _ := ring["vnodes"].([]any)
				if n := float64(alive) * m.conf["virtualNodesPerNode"].(float64); ring["count"] != n || float64(len(spots)) != n {
					rt.Fatalf("the ring reports %v spots (%d listed), expected %v\n%s", ring["count"], len(spots), n, c.Desc())
				}
			case 4:
				post("/clear", 200)
				c.Log("clear")

				if n := m.count(); n != 0 {
					rt.Fatalf("%d items after clear\n%s", n, c.Desc())
				}

				c.NT(len(keys) > 0)

				keys = nil
			case 5:
				post("/evict", 202)

				if m.plain != nil { // the backend that lets the cache exceed its capacity
					over := len(keys) > capacity
					c.NT(over)

					if !vh.Eventually(10*time.Second, func() bool { return m.count() <= capacity }) {
						rt.Fatalf("%d items remain of a capacity of %d after evict\n%s", m.count(), capacity, c.Desc())
					}

					if !over && m.count() != len(keys) {
						rt.Fatalf("evict took items within the capacity: %d of %d\n%s", m.count(), len(keys), c.Desc())
					}

					keys = keys[:m.count()]
				}
			case 6:
				if m.plain == nil || m.count() >= capacity { // a pending eviction would take another
					continue
				}

				if err := m.set("short", "x", time.Millisecond); err != nil {
					continue
				}

				time.Sleep(3 * time.Millisecond)
				post("/trigger-expiration", 202)

				if !vh.Eventually(10*time.Second, func() bool { return !held33(m.plain, "short") }) {
					rt.Fatalf("an expired item is held after trigger-expiration\n%s", c.Desc())
				}

				c.NT(true)
			}
		}
	})
}

func validUTF8(s string) bool { return strings.ToValidUTF8(s, "") == s && !strings.ContainsRune(s, 0) }

func held33(hc *hypercache.HyperCache[mem], key string) bool {
	items, err := hc.List(context.Background(), backend.WithFilterFunc(func(it *cache.Item) bool { return it.Key == key }))

	return err != nil || len(items) > 0
}

// The stream of membership events.
func TestC33_Events(t *testing.T) {
	vh.Run(t, "events", "the membership changes while a stream is open", 100, func(rt *rapid.T, c *vh.Case) {
		g := drawGates(rt)
		m := newMgmt(rt, g, true)
		stopped := false

		defer func() {
			if !stopped {
				m.stop()
			}
		}()

		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()

		req, _ := http.NewRequestWithContext(ctx, http.MethodGet, m.base+"/cluster/events", nil)
		if g.read {
			req.Header.Set("X-Read", "r1")
		}

		client := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}

		resp, err := client.Do(req)
		if err != nil || resp.StatusCode != 200 || !strings.HasPrefix(resp.Header.Get("Content-Type"), "text/event-stream") {
			rt.Fatalf("events: %v %v", resp, err)
		}
		defer resp.Body.Close()

		type frame struct{ typ, data string }

		frames := make(chan frame, 1000)

		go func() {
			defer close(frames)

			sc := bufio.NewScanner(resp.Body)
			sc.Buffer(nil, 1<<20)

			var f frame

			for sc.Scan() {
				l := sc.Text()

				switch {
				case strings.HasPrefix(l, "event: "):
					f.typ = l[7:]
				case strings.HasPrefix(l, "data: "):
					f.data = l[6:]
				case l == "" && f.typ != "":
					frames <- f
					f = frame{}
				}
			}
		}()

		// the latest members frame agrees with the membership in the end
		latest := map[string]string{}
		seen := 0
		read := func(f frame) {
			seen++

			if f.typ != "members" {
				return
			}

			var v struct {
				Members []struct {
					ID, State string
				} `json:"members"`
			}

			if err := json.Unmarshal([]byte(f.data), &v); err != nil || v.Members == nil {
				return
			}

			latest = map[string]string{}
			for _, x := range v.Members {
				latest[x.ID] = x.State
			}
		}
		agree := func() bool {
			for {
				select {
				case f, ok := <-frames:
					if !ok {
						rt.Fatalf("the stream ended\n%s", c.Desc())
					}

					read(f)
				default:
					want := map[string]string{}
					for _, x := range m.membership().List() {
						want[string(x.ID)] = x.State.String()
					}

					return reflect.DeepEqual(want, latest)
				}
			}
		}

		if !vh.Eventually(10*time.Second, func() bool { return agree() && seen >= 2 }) {
			rt.Fatalf("the stream starts with %v\n%s", latest, c.Desc())
		}

		for range rapid.IntRange(1, 6).Draw(rt, "changes") {
			id := cluster.NodeID(fmt.Sprintf("p%d", rapid.IntRange(0, 3).Draw(rt, "peer")))

			switch rapid.IntRange(0, 2).Draw(rt, "change") {
			case 0:
				n := cluster.NewNode(string(id), "10.0.0.1:1")
				m.membership().Upsert(n)
			case 1:
				m.membership().Mark(id, rapid.SampledFrom([]cluster.NodeState{cluster.NodeAlive, cluster.NodeSuspect, cluster.NodeDead}).Draw(rt, "state"))
			case 2:
				m.membership().Remove(id)
			}

			c.Log("change of %s", id)
			c.NT(true)

			if rapid.Bool().Draw(rt, "wait") && !vh.Eventually(10*time.Second, agree) {
				rt.Fatalf("the stream says %v, the members are %v\n%s", latest, m.membership().List(), c.Desc())
			}
		}

		if !vh.Eventually(10*time.Second, agree) {
			rt.Fatalf("the stream says %v, the members are %v\n%s", latest, m.membership().List(), c.Desc())
		}

		// stopping the cache ends the stream
		stopped = true

		vh.Within(rt, 15*time.Second, "Stop with an open stream", m.stop)

		if !vh.Eventually(10*time.Second, func() bool {
			select {
			case _, ok := <-frames:
				return !ok
			default:
				return false
			}
		}) {
			rt.Fatalf("the stream is still open after Stop")
		}
	})
}
