package rest_test

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/client"
)

// ---- C30: the REST API of a cluster is one map ----

type entry struct {
	val      []byte
	ttl      time.Duration
	from, to time.Time // the write happened in between
}

// escape writes a key as a path segment in one of several legal ways.
func escape(key string, how int) string {
	switch how {
	case 1: // everything
		var b strings.Builder
		for i := range len(key) {
			fmt.Fprintf(&b, "%%%02X", key[i])
		}

		return b.String()
	case 2: // everything, lower case
		var b strings.Builder
		for i := range len(key) {
			fmt.Fprintf(&b, "%%%02x", key[i])
		}

		return b.String()
	default:
		return url.PathEscape(key)
	}
}

// listing reports whether the escaped key names the listing route.
func listing(seg string) bool { return strings.EqualFold(seg, "keys") }

func drawKey(rt *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(rt, "keyKind") > 0 {
		return rapid.SampledFrom([]string{
			"a", "b", "A", "a b", "a%20b", "a/b", "a%2Fb", "?", "a?b=c", "#x", "é", "日本", "+", "a+b", "batch", "batch/get",
			"%", "%zz", "keys", "KEYS", "..", ".", "a/", " a", "\"q\"", "a\nb", "k&x=1", ";", ":key", "*", "0",
			strings.Repeat("long", 200),
		}).Draw(rt, "key")
	}

	return rapid.StringMatching(`[a-z%/ ?#é.+\\&=]{1,8}`).Filter(func(s string) bool { return strings.TrimSpace(s) != "" }).Draw(rt, "anyKey")
}

func drawValue(rt *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(rt, "valKind") {
	case 0:
		return []byte(rapid.SampledFrom([]string{"", "d29ybGQ=", "\"quoted\"", "null", "{\"a\":1}", "abcd", "====", "[]", "123", "true", " "}).Draw(rt, "val"))
	case 1: // base64 of something, as text
		return []byte(base64.StdEncoding.EncodeToString(rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(rt, "b64")))
	case 2:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "bytes")
	case 3:
		return bytes.Repeat([]byte{rapid.Byte().Draw(rt, "fill")}, rapid.SampledFrom([]int{1023, 4096, 70000}).Draw(rt, "size"))
	default:
		return []byte(rapid.StringN(0, 12, 40).Draw(rt, "text"))
	}
}

var ttls = map[string]time.Duration{
	"720h": 720 * time.Hour, "26280h0.5s": 26280*time.Hour + 500*time.Millisecond, "2000000h": 2000000 * time.Hour,
	"5m": 5 * time.Minute, "1h": time.Hour, "90s": 90 * time.Second, "1h30m": 90 * time.Minute, "60000ms": time.Minute,
	"2m0.5s": 2*time.Minute + 500*time.Millisecond, "0s": 0, "0": 0, "": 0, "60000000µs": time.Minute, "1.5m": 90 * time.Second,
}

func ttlName(rt *rapid.T) string {
	return rapid.SampledFrom([]string{"", "", "5m", "1h", "90s", "1h30m", "60000ms", "2m0.5s", "0s", "0", "60000000µs", "1.5m", "720h", "26280h0.5s", "2000000h"}).Draw(rt, "ttl")
}

type envelope struct {
	Key, Value    string
	ValueEncoding string `json:"value_encoding"`
	TTLMs         int64  `json:"ttl_ms"`
	ExpiresAt     string `json:"expires_at"`
	Version       uint64
	Origin        string
	LastUpdated   string `json:"last_updated"`
	Node          string
	Owners        []string
	Found         bool
}

// facts checks a reported entry against the model.
func (e *entry) facts(t failer, what string, val []byte, ttlMs int64, expiresAt string) {
	t.Helper()

	if val != nil && !bytes.Equal(val, e.val) {
		t.Fatalf("%s: value %q, want %q", what, trunc(val), trunc(e.val))
	}

	if e.ttl == 0 {
		if ttlMs != 0 || expiresAt != "" {
			t.Fatalf("%s: reports ttl %d ms, expiry %q for a value stored without", what, ttlMs, expiresAt)
		}

		return
	}

	now := time.Now()
	hi := e.to.Add(e.ttl)
	lo := now.Add(time.Duration(ttlMs) * time.Millisecond)

	// what is left plus what has passed since is the ttl
	if lo.Before(e.from.Add(e.ttl).Add(-2*time.Second)) || lo.After(hi.Add(2*time.Second)) {
		t.Fatalf("%s: %d ms left, %v after a write with ttl %v", what, ttlMs, now.Sub(e.from), e.ttl)
	}

	at, err := time.Parse(time.RFC3339, expiresAt)
	if err != nil || at.Before(e.from.Add(e.ttl).Add(-3*time.Second)) || at.After(hi.Add(3*time.Second)) {
		t.Fatalf("%s: expires_at %q (%v), want about %v", what, expiresAt, err, hi.UTC().Format(time.RFC3339))
	}
}

func trunc(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}

	return b
}

type rig30 struct {
	g       *group
	owners  map[string]string // key -> owners, the same on every node
	repl    int
	clients []*client.Client
}

func newRig30(t *testing.T) *rig30 {
	g := startGroup(t, 3, 2)
	t.Cleanup(g.stop)

	r := &rig30{g: g, repl: 2}

	for _, p := range g.nodes {
		c, err := client.New([]string{"http://" + p.api})
		if err != nil {
			t.Fatalf("client.New: %v", err)
		}

		t.Cleanup(func() { _ = c.Close() })
		r.clients = append(r.clients, c)
	}

	return r
}

func (r *rig30) url(n int, path string) string { return "http://" + r.g.nodes[n].api + path }

// checkOwners checks an owner list: distinct members, replication many, and
// the same whoever reports it.
func (r *rig30) checkOwners(t failer, what, key string, owners []string) {
	t.Helper()

	seen := map[string]bool{}
	for _, o := range owners {
		if seen[o] || !strings.HasPrefix(o, "node-") {
			t.Fatalf("%s: owners %v", what, owners)
		}

		seen[o] = true
	}

	if len(owners) != r.repl {
		t.Fatalf("%s: %d owners %v with replication %d", what, len(owners), owners, r.repl)
	}

	s := strings.Join(owners, ",")
	if r.owners == nil {
		r.owners = map[string]string{}
	}

	if w, ok := r.owners[key]; ok && w != s {
		t.Fatalf("%s: owners of %q are %s, were reported as %s", what, key, s, w)
	}

	r.owners[key] = s
}

// keysRoute: a plain GET of the key "keys" answers the listing of all keys.
const keysRoute = "keys-route"

type badRequest struct {
	method, path, body string
	status             int
}

func TestC30Model(t *testing.T) {
	r := newRig30(t)
	g := r.g

	var dirty []string

	vh.Run(t, "rest-model", "3 hypercache-server processes, replication 2: 8-40 requests, each to any node: PUT/GET/HEAD/DELETE with keys of any characters under several percent-encodings, JSON envelopes, batches with duplicates and bad items, listings, owners, malformed requests, or the same through pkg/client; against one map. Non-trivial: a key is written and then read or deleted through another node", 100, func(rt *rapid.T, c *vh.Case) {
		// start empty
		if len(dirty) > 0 {
			var out struct{ Results []struct{ Deleted bool } }

			g.c.do(rt, "POST", r.url(0, "/v1/cache/batch/delete"), jsonBody(map[string]any{"keys": dirty})).json(rt, &out)
		}

		dirty = nil

		model := map[string]*entry{}
		wrote := map[string]int{}
		nt := false

		pool := rapid.SliceOfN(rapid.Custom(drawKey), 1, 5).Draw(rt, "keys")
		key := func() string { return rapid.SampledFrom(pool).Draw(rt, "k") }

		dirty = append(dirty, pool...)

		if len(r.owners) > 10000 {
			r.owners = nil
		}

		put := func(n int, k string, v []byte, ttl time.Duration, from time.Time) {
			model[k] = &entry{val: v, ttl: ttl, from: from, to: time.Now()}
			wrote[k] = n
		}

		for range rapid.IntRange(8, 40).Draw(rt, "n") {
			n := rapid.IntRange(0, len(g.nodes)-1).Draw(rt, "node")
			id := g.nodes[n].id
			from := time.Now()

			switch rapid.SampledFrom([]string{"put", "put", "put", "get", "get", "json", "head", "delete", "bget", "bput", "bput", "bdel", "list", "owners", "bad", "cset", "cget", "cdel"}).Draw(rt, "op") {
			case "put":
				k, v := key(), drawValue(rt)
				seg := escape(k, rapid.IntRange(0, 2).Draw(rt, "esc"))
				tn := ttlName(rt)
				u := r.url(n, "/v1/cache/"+seg)

				if tn != "" {
					u += "?ttl=" + url.QueryEscape(tn)
				}

				c.Log("%s PUT %q (as %s) %d bytes ttl %q", id, short(k), short(seg), len(v), tn)
				c.LabelIf(seg != k, "escaped")
				c.LabelIf(len(v) == 0, "empty value")

				res := g.c.do(rt, "PUT", u, v)
				if res.status != 200 {
					rt.Fatalf("PUT %s: %v", u, res)
				}

				var out struct {
					Key    string
					Stored bool
					TTLMs  int64 `json:"ttl_ms"`
					Bytes  int
					Node   string
					Owners []string
				}

				res.json(rt, &out)

				if out.Key != k || !out.Stored || out.Bytes != len(v) || out.Node != id || out.TTLMs != ttls[tn].Milliseconds() {
					rt.Fatalf("PUT %s (key %q, %d bytes, ttl %q): %v", u, k, len(v), tn, res)
				}

				r.checkOwners(rt, "PUT", k, out.Owners)
				put(n, k, v, ttls[tn], from)
			case "get", "json", "head":
				// drawn below to keep one place per read form
				k := key()
				seg := escape(k, rapid.IntRange(0, 2).Draw(rt, "esc"))
				form := rapid.SampledFrom([]string{"raw", "json", "head"}).Draw(rt, "form")
				u := r.url(n, "/v1/cache/"+seg)
				e := model[k]

				c.Log("%s GET %q (as %s) %s", id, short(k), short(seg), form)

				if e != nil && wrote[k] != n {
					nt = true
				}

				if listing(seg) && form != "head" {
					if res := g.c.do(rt, "GET", u, nil); e != nil && (res.status != 200 || !bytes.Equal(res.body, e.val)) || e == nil && res.status != 404 {
						vh.Known(rt, keysRoute, "GET of key %q answers %v", k, res)
					}

					continue
				}

				switch form {
				case "raw":
					res := g.c.do(rt, "GET", u, nil)
					if e == nil {
						if code := res.code(rt, 404, "GET of absent key "+strconv.Quote(k)); code != "NOT_FOUND" {
							rt.Fatalf("GET %s: code %s", u, code)
						}

						break
					}

					if res.status != 200 || !bytes.Equal(res.body, e.val) {
						rt.Fatalf("GET %s (key %q) from %s: %v, want value %q written through node %d", u, k, id, res, trunc(e.val), wrote[k]+1)
					}

					if ct := res.header.Get("Content-Type"); ct != "application/octet-stream" {
						rt.Fatalf("GET %s: content type %q", u, ct)
					}
				case "json":
					res := g.c.do(rt, "GET", u, nil, "Accept", rapid.SampledFrom([]string{"application/json", "text/html, application/json;q=0.9"}).Draw(rt, "accept"))
					if e == nil {
						res.code(rt, 404, "GET of absent key "+strconv.Quote(k))

						break
					}

					var env envelope

					if res.status != 200 {
						rt.Fatalf("GET %s (json): %v", u, res)
					}

					res.json(rt, &env)

					if env.Key != k || env.ValueEncoding != "base64" || env.Node != id || env.Version == 0 {
						rt.Fatalf("GET %s (json): %v", u, res)
					}

					r.envelopeFacts(rt, "GET json "+u, k, e, env)
				case "head":
					res := g.c.do(rt, "HEAD", u, nil)
					if e == nil {
						if res.status != 404 {
							rt.Fatalf("HEAD of absent %s: %d", u, res.status)
						}

						break
					}

					if res.status != 200 || len(res.body) != 0 || res.header.Get("X-Cache-Node") != id || res.header.Get("X-Cache-Version") == "" {
						rt.Fatalf("HEAD %s: %d %v", u, res.status, res.header)
					}

					ms := int64(0)
					if h := res.header.Get("X-Cache-Ttl-Ms"); h != "" {
						ms, _ = strconv.ParseInt(h, 10, 64)
					}

					e.facts(rt, "HEAD "+u, nil, ms, res.header.Get("X-Cache-Expires-At"))
					r.checkOwners(rt, "HEAD", k, strings.Split(res.header.Get("X-Cache-Owners"), ","))
				}
			case "delete":
				k := key()
				seg := escape(k, rapid.IntRange(0, 2).Draw(rt, "esc"))

				c.Log("%s DELETE %q", id, short(k))

				if model[k] != nil && wrote[k] != n {
					nt = true
				}

				res := g.c.do(rt, "DELETE", r.url(n, "/v1/cache/"+seg), nil)

				var out struct {
					Key     string
					Deleted bool
					Node    string
					Owners  []string
				}

				if res.status != 200 {
					rt.Fatalf("DELETE %q: %v", k, res)
				}

				res.json(rt, &out)

				if out.Key != k || !out.Deleted || out.Node != id {
					rt.Fatalf("DELETE %q: %v", k, res)
				}

				r.checkOwners(rt, "DELETE", k, out.Owners)
				delete(model, k)
			case "bget":
				ks := rapid.SliceOfN(rapid.SampledFrom(append([]string{"absent", ""}, pool...)), 0, 6).Draw(rt, "ks")
				c.Log("%s batch get %d", id, len(ks))

				res := g.c.do(rt, "POST", r.url(n, "/v1/cache/batch/get"), jsonBody(map[string]any{"keys": ks}))

				var out struct {
					Results []envelope
					Node    string
				}

				if res.status != 200 {
					rt.Fatalf("batch get: %v", res)
				}

				res.json(rt, &out)

				if len(out.Results) != len(ks) || out.Node != id {
					rt.Fatalf("batch get of %q: %v", ks, res)
				}

				for i, k := range ks {
					e := model[k]
					if out.Results[i].Key != k || out.Results[i].Found != (e != nil) {
						rt.Fatalf("batch get of %q: result %d: %+v", ks, i, out.Results[i])
					}

					if e == nil {
						continue
					}

					if wrote[k] != n {
						nt = true
					}

					r.envelopeFacts(rt, "batch get", k, e, out.Results[i])
				}
			case "bput":
				type item struct {
					Key      string `json:"key"`
					Value    string `json:"value"`
					Encoding string `json:"value_encoding,omitempty"`
					TTLMs    int64  `json:"ttl_ms,omitempty"`
				}

				var (
					items []item
					vals  [][]byte
					bad   []bool
				)

				for range rapid.IntRange(0, 5).Draw(rt, "items") {
					it := item{Key: key()}

					var v []byte

					switch rapid.SampledFrom([]string{"b64", "b64", "text", "string", "badb64", "nokey", "blank", "negttl", "hugettl"}).Draw(rt, "item") {
					case "b64":
						v = drawValue(rt)
						it.Value, it.Encoding = base64.StdEncoding.EncodeToString(v), "base64"
					case "text", "string":
						it.Value = rapid.SampledFrom([]string{"", "hello", "d29ybGQ=", "é\"\n", "null"}).Draw(rt, "text")
						v = []byte(it.Value)

						if rapid.Bool().Draw(rt, "explicit") {
							it.Encoding = "string"
						}
					case "badb64":
						it.Value, it.Encoding = "!!", "base64"
						v = nil
					case "nokey":
						it.Key, it.Value = "", "x"
					case "blank":
						it.Key, it.Value = "  ", "x"
					case "negttl":
						it.Value, it.TTLMs = "x", -rapid.Int64Range(1, 1<<62).Draw(rt, "neg")
					case "hugettl":
						it.Value, it.TTLMs = "x", rapid.Int64Range(9223372036855, 1<<62).Draw(rt, "huge")
					}

					isBad := it.Encoding == "base64" && it.Value == "!!" || strings.TrimSpace(it.Key) == "" || it.TTLMs != 0
					if !isBad {
						it.TTLMs = rapid.SampledFrom([]int64{0, 0, 60000, 3600000, 2592000000, 1 << 33, 7200000000000}).Draw(rt, "ttl_ms")
					}

					items, vals, bad = append(items, it), append(vals, v), append(bad, isBad)
				}

				c.Log("%s batch put %v", id, bad)

				res := g.c.do(rt, "POST", r.url(n, "/v1/cache/batch/put"), jsonBody(map[string]any{"items": items}))

				var out struct {
					Results []struct {
						Key         string
						Stored      bool
						Bytes       int
						Owners      []string
						Error, Code string
					}
					Node string
				}

				if res.status != 200 {
					rt.Fatalf("batch put: %v", res)
				}

				res.json(rt, &out)

				if len(out.Results) != len(items) || out.Node != id {
					rt.Fatalf("batch put of %+v: %v", items, res)
				}

				for i, it := range items {
					o := out.Results[i]
					if o.Key != it.Key || o.Stored == bad[i] {
						rt.Fatalf("batch put: item %+v: result %+v", it, o)
					}

					if bad[i] {
						c.Label("bad batch item")

						if o.Error == "" || o.Code != "BAD_REQUEST" {
							rt.Fatalf("batch put: item %+v that cannot be stored: result %+v", it, o)
						}

						continue
					}

					if o.Bytes != len(vals[i]) || o.Error != "" {
						rt.Fatalf("batch put: item %+v: result %+v", it, o)
					}

					r.checkOwners(rt, "batch put", it.Key, o.Owners)
					put(n, it.Key, vals[i], time.Duration(it.TTLMs)*time.Millisecond, from)
				}
			case "bdel":
				ks := rapid.SliceOfN(rapid.SampledFrom(append([]string{"absent", ""}, pool...)), 0, 4).Draw(rt, "ks")
				c.Log("%s batch delete %q", id, ks)

				res := g.c.do(rt, "POST", r.url(n, "/v1/cache/batch/delete"), jsonBody(map[string]any{"keys": ks}))

				var out struct {
					Results []struct {
						Key         string
						Deleted     bool
						Error, Code string
					}
				}

				if res.status != 200 {
					rt.Fatalf("batch delete: %v", res)
				}

				res.json(rt, &out)

				if len(out.Results) != len(ks) {
					rt.Fatalf("batch delete of %q: %v", ks, res)
				}

				for i, k := range ks {
					if o := out.Results[i]; o.Key != k || o.Deleted != (k != "") || (k == "") != (o.Code == "BAD_REQUEST") {
						rt.Fatalf("batch delete of %q: result %+v", ks, o)
					}

					delete(model, k)
				}
			case "list":
				limit := rapid.IntRange(1, 4).Draw(rt, "limit")
				prefix := ""

				if rapid.Bool().Draw(rt, "filter") {
					prefix = "a"
				}

				c.Log("%s list %q by %d", id, prefix, limit)

				var want []string

				for k := range model {
					if strings.HasPrefix(k, prefix) {
						want = append(want, k)
					}
				}

				slices.Sort(want)

				var got []string

				cursor := ""

				for range len(want) + 2 {
					res := g.c.do(rt, "GET", r.url(n, fmt.Sprintf("/v1/cache/keys?limit=%d&q=%s&cursor=%s", limit, prefix, cursor)), nil)

					var out struct {
						Keys         []string
						NextCursor   string `json:"next_cursor"`
						TotalMatched int    `json:"total_matched"`
						Truncated    bool
						Node         string
						PartialNodes []string `json:"partial_nodes"`
					}

					if res.status != 200 {
						rt.Fatalf("list: %v", res)
					}

					res.json(rt, &out)

					if out.TotalMatched != len(want) || out.Truncated || len(out.PartialNodes) > 0 || out.Node != id || len(out.Keys) > limit {
						rt.Fatalf("list of %q (limit %d) with keys %q: %v", prefix, limit, want, res)
					}

					got = append(got, out.Keys...)

					if cursor = out.NextCursor; cursor == "" {
						break
					}
				}

				if !slices.Equal(got, want) {
					rt.Fatalf("listing of %q in pages of %d gives %q, want %q", prefix, limit, got, want)
				}
			case "owners":
				k := key()
				c.Log("%s owners %q", id, short(k))

				res := g.c.do(rt, "GET", r.url(n, "/v1/owners/"+escape(k, rapid.IntRange(0, 2).Draw(rt, "esc"))), nil)

				var out struct {
					Key    string
					Owners []string
					Node   string
				}

				if res.status != 200 {
					rt.Fatalf("owners of %q: %v", k, res)
				}

				res.json(rt, &out)

				if out.Key != k || out.Node != id {
					rt.Fatalf("owners of %q: %v", k, res)
				}

				r.checkOwners(rt, "owners", k, out.Owners)
			case "bad":
				k := escape(key(), 0)
				bad := rapid.SampledFrom([]badRequest{
					{"PUT", "/v1/cache/" + k + "?ttl=abc", "x", 400},
					{"PUT", "/v1/cache/" + k + "?ttl=-5s", "x", 400},
					{"PUT", "/v1/cache/" + k + "?ttl=5", "x", 400},
					{"PUT", "/v1/cache/%20", "x", 400},
					{"PUT", "/v1/cache/%20%09", "x", 400},
					{"POST", "/v1/cache/batch/put", "{", 400},
					{"POST", "/v1/cache/batch/put", `{"items":[{"key":"` + "a" + `","value":"x"}`, 400},
					{"POST", "/v1/cache/batch/put", `{"items":"a"}`, 400},
					{"POST", "/v1/cache/batch/get", "", 400},
					{"POST", "/v1/cache/batch/delete", `{"keys":["a",1]}`, 400},
					{"POST", "/v1/cache/batch/delete", `{"keys":["a"`, 400},
					{"GET", "/v1/cache/keys?cursor=-1", "", 400},
					{"GET", "/v1/cache/keys?cursor=x", "", 400},
					{"GET", "/v1/cache/keys?limit=0", "", 400},
					{"GET", "/v1/cache/keys?max=-3", "", 400},
					{"GET", "/v1/cache/keys?q=%5B", "", 400},
					{"GET", "/v1/me/can", "", 400},
					{"GET", "/v1/me/can?capability=cache.Write", "", 400},
					{"GET", "/v1/nowhere/" + k, "", 404},
					{"GET", "/", "", 404},
					{"DELETE", "/v1/owners", "", 404},
					{"PATCH", "/v1/cache/" + k, "x", 405},
					{"POST", "/v1/cache/" + k, "x", 405},
					{"DELETE", "/v1/me", "", 405},
				}).Draw(rt, "bad")

				c.Log("%s bad %s %s", id, bad.method, short(bad.path))
				c.Label("malformed request")

				want := "BAD_REQUEST"
				if bad.status == 404 {
					want = "NOT_FOUND"
				}

				if code := g.c.do(rt, bad.method, r.url(n, bad.path), []byte(bad.body)).code(rt, bad.status, bad.method+" "+bad.path); code != want {
					rt.Fatalf("%s %s %q: code %s", bad.method, bad.path, bad.body, code)
				}
			case "cset":
				k, v := key(), drawValue(rt)
				tn := ttlName(rt)
				c.Log("%s client set %q %d bytes %q", id, short(k), len(v), tn)
				c.Label("through pkg/client")

				if err := r.clients[n].Set(bg, k, v, ttls[tn]); err != nil {
					rt.Fatalf("client.Set(%q): %v", k, err)
				}

				put(n, k, v, ttls[tn], from)
			case "cget":
				k := key()
				c.Log("%s client get %q", id, short(k))
				c.Label("through pkg/client")

				e := model[k]

				if listing(k) {
					if v, err := r.clients[n].Get(bg, k); e != nil && (err != nil || !bytes.Equal(v, e.val)) || e == nil && !errors.Is(err, client.ErrNotFound) {
						vh.Known(rt, keysRoute, "client.Get(%q): %q, %v", k, trunc(v), err)
					}

					continue
				}

				if e != nil && wrote[k] != n {
					nt = true
				}

				if rapid.Bool().Draw(rt, "item") {
					it, err := r.clients[n].GetItem(bg, k)
					if e == nil {
						if !errors.Is(err, client.ErrNotFound) {
							rt.Fatalf("client.GetItem(%q) of an absent key: %+v, %v", k, it, err)
						}

						break
					}

					if err != nil || it.Key != k || it.Version == 0 {
						rt.Fatalf("client.GetItem(%q): %+v, %v", k, it, err)
					}

					e.facts(rt, fmt.Sprintf("client.GetItem(%q)", k), it.Value, it.TTLMs, it.ExpiresAt)
					r.checkOwners(rt, "client.GetItem", k, it.Owners)

					break
				}

				v, err := r.clients[n].Get(bg, k)
				if e == nil {
					if !errors.Is(err, client.ErrNotFound) {
						rt.Fatalf("client.Get(%q) of an absent key: %q, %v", k, trunc(v), err)
					}

					break
				}

				if err != nil || !bytes.Equal(v, e.val) {
					rt.Fatalf("client.Get(%q): %q, %v, want %q", k, trunc(v), err, trunc(e.val))
				}
			case "cdel":
				k := key()
				c.Log("%s client delete %q", id, short(k))

				if err := r.clients[n].Delete(bg, k); err != nil {
					rt.Fatalf("client.Delete(%q): %v", k, err)
				}

				delete(model, k)
			}
		}

		c.NT(nt)

		// at the end every node answers the map
		for _, k := range pool {
			for n := range g.nodes {
				if seg := escape(k, 1); true {
					res := g.c.do(rt, "GET", r.url(n, "/v1/cache/"+seg), nil)
					if e := model[k]; e == nil && res.status != 404 || e != nil && (res.status != 200 || !bytes.Equal(res.body, e.val)) {
						rt.Fatalf("at the end node %d answers GET of %q with %v; in the map: %v", n+1, k, res, e != nil)
					}
				}
			}
		}
	})
}

func (r *rig30) envelopeFacts(t failer, what, key string, e *entry, env envelope) {
	t.Helper()

	v, err := base64.StdEncoding.DecodeString(env.Value)
	if err != nil || env.ValueEncoding != "base64" {
		t.Fatalf("%s: value %q encoded as %q", what, env.Value, env.ValueEncoding)
	}

	if v == nil {
		v = []byte{}
	}

	e.facts(t, what, v, env.TTLMs, env.ExpiresAt)
	r.checkOwners(t, what, key, env.Owners)

	if !strings.HasPrefix(env.Origin, "node-") || env.Version == 0 {
		t.Fatalf("%s: origin %q, version %d", what, env.Origin, env.Version)
	}

	at, err := time.Parse(time.RFC3339, env.LastUpdated)
	if err != nil || at.Before(e.from.Add(-2*time.Second)) || at.After(e.to.Add(2*time.Second)) {
		t.Fatalf("%s: last_updated %q (%v), written between %v and %v", what, env.LastUpdated, err, e.from, e.to)
	}
}

func short(s string) string {
	if len(s) > 24 {
		return s[:24] + "..."
	}

	return s
}

// TestC30Expiry: whoever is asked, an entry is there while its TTL runs and
// gone afterwards, and what is reported as left is not more than is left. A
// read through an owner starts the TTL of the owner's copy again (see C18).
func TestC30Expiry(t *testing.T) {
	r := newRig30(t)
	g := r.g
	serial := 0

	const slack = 350 * time.Millisecond

	type ent struct {
		key     string
		ttl     time.Duration
		from    time.Time // the last write, before
		to      time.Time // and after
		touched time.Time // the last write, or read through an owner
		owners  string
		looked  bool
	}

	type event struct {
		at    time.Duration
		e     *ent
		write bool
		ttl   time.Duration
		node  int
		batch bool
		form  string
	}

	vh.Run(t, "rest-expiry", "a 3-node cluster, replication 2: 6-14 entries with TTLs of 0.6-1.8 s, some rewritten with another TTL or none, put singly or in batches through any node, read, read as JSON or HEADed 0-4 times through any node before and shortly before their end, and looked for everywhere once the TTL has passed since the last write or read through an owner; an entry is served by every node until its TTL has passed since its write and by none once it has also passed since the last read, and the TTL reported never exceeds what is left. Non-trivial: an entry is seen both before and after its end", 6, func(rt *rapid.T, c *vh.Case) {
		serial++

		var (
			es  []*ent
			evs []event
		)

		nodes := len(g.nodes)
		draw := func(e *ent, at time.Duration, write bool, ttl time.Duration) {
			evs = append(evs, event{
				at: at, e: e, write: write, ttl: ttl, node: rapid.IntRange(0, nodes-1).Draw(rt, "node"),
				batch: rapid.Bool().Draw(rt, "batch"), form: rapid.SampledFrom([]string{"GET", "HEAD", "json", "bget"}).Draw(rt, "form"),
			})
		}

		for i := range rapid.IntRange(6, 14).Draw(rt, "n") {
			e := &ent{key: fmt.Sprintf("exp-%d-%d", serial, i)}
			ttl := time.Duration(rapid.IntRange(600, 1800).Draw(rt, "ttl")) * time.Millisecond
			draw(e, 0, true, ttl)
			c.Log("%s %v", e.key, ttl)

			written := time.Duration(0)

			if rapid.IntRange(0, 2).Draw(rt, "rewrite") == 0 {
				written = time.Duration(rapid.IntRange(100, 450).Draw(rt, "after")) * time.Millisecond
				ttl = time.Duration(rapid.SampledFrom([]int{0, 900, 1500}).Draw(rt, "ttl2")) * time.Millisecond
				draw(e, written, true, ttl)
				c.Log("after %v %v", written, ttl)
			}

			if ttl > 0 && rapid.Bool().Draw(rt, "late read") {
				draw(e, written+ttl-150*time.Millisecond, false, 0)
			}

			for range rapid.IntRange(0, 3).Draw(rt, "reads") {
				draw(e, time.Duration(rapid.IntRange(50, 1500).Draw(rt, "at"))*time.Millisecond, false, 0)
			}

			es = append(es, e)
		}

		slices.SortStableFunc(evs, func(a, b event) int { return int(a.at - b.at) })

		look := func(e *ent, n int, form string) (bool, int64) {
			u := r.url(n, "/v1/cache/"+e.key)

			switch form {
			case "GET":
				return g.c.do(rt, "GET", u, nil).status == 200, 0
			case "HEAD":
				res := g.c.do(rt, "HEAD", u, nil)
				ms, _ := strconv.ParseInt(res.header.Get("X-Cache-Ttl-Ms"), 10, 64)

				return res.status == 200, ms
			case "json":
				res := g.c.do(rt, "GET", u, nil, "Accept", "application/json")

				var env envelope

				res.json(rt, &env)

				return res.status == 200, env.TTLMs
			default:
				var out struct{ Results []envelope }

				g.c.do(rt, "POST", r.url(n, "/v1/cache/batch/get"), jsonBody(map[string]any{"keys": []string{e.key}})).json(rt, &out)

				return out.Results[0].Found, out.Results[0].TTLMs
			}
		}

		start := time.Now()
		gone := false

		for _, ev := range evs {
			time.Sleep(time.Until(start.Add(ev.at)))

			e := ev.e
			before := time.Now()

			if ev.write {
				e.from, e.ttl = before, ev.ttl

				if ev.batch {
					res := g.c.do(rt, "POST", r.url(ev.node, "/v1/cache/batch/put"), jsonBody(map[string]any{"items": []map[string]any{{"key": e.key, "value": "v", "ttl_ms": ev.ttl.Milliseconds()}}}))
					if res.status != 200 || !bytes.Contains(res.body, []byte(`"stored":true`)) {
						rt.Fatalf("batch put: %v", res)
					}
				} else if res := g.c.do(rt, "PUT", r.url(ev.node, "/v1/cache/"+e.key+"?ttl="+ev.ttl.String()), []byte("v")); res.status != 200 {
					rt.Fatalf("PUT: %v", res)
				}

				if e.owners == "" {
					var out struct{ Owners []string }

					g.c.do(rt, "GET", r.url(ev.node, "/v1/owners/"+e.key), nil).json(rt, &out)
					e.owners = strings.Join(out.Owners, ",")
				}

				e.to = time.Now()
				e.touched = e.to

				continue
			}

			there, ms := look(e, ev.node, ev.form)
			after := time.Now()
			id := g.nodes[ev.node].id

			if e.ttl == 0 {
				if !there || ms != 0 {
					rt.Fatalf("%s (no TTL since its rewrite): %s by %s: there %v, %d ms left", e.key, ev.form, id, there, ms)
				}

				continue
			}

			if !there && after.Before(e.from.Add(e.ttl).Add(-20*time.Millisecond)) {
				rt.Fatalf("%s with TTL %v is gone on %s %v after its write (%s)", e.key, e.ttl, id, after.Sub(e.from), ev.form)
			}

			owner := strings.Contains(e.owners, id)
			if owner && there {
				e.touched = after
			}

			if left := e.touched.Add(e.ttl).Sub(before); there && time.Duration(ms)*time.Millisecond > left+slack/2 {
				rt.Fatalf("%s with TTL %v: %s (an owner: %v) reports %d ms left %v after the write and %v after the last read through an owner", e.key, e.ttl, id, owner, ms, before.Sub(e.to), before.Sub(e.touched))
			}

			c.LabelIf(there && !owner, "read through another node")
			e.looked = e.looked || there
		}

		for _, e := range es {
			if e.ttl > 0 {
				time.Sleep(time.Until(e.touched.Add(e.ttl).Add(slack)))
			}

			for n := range nodes {
				there, ms := look(e, n, rapid.SampledFrom([]string{"GET", "HEAD", "bget"}).Draw(rt, "form"))
				if there != (e.ttl == 0) {
					rt.Fatalf("%s with TTL %v, %v after its write and %v after the last read through an owner: there %v, %d ms left", e.key, e.ttl, time.Since(e.to), time.Since(e.touched), there, ms)
				}
			}

			gone = gone || e.looked && e.ttl > 0
		}

		c.NT(gone)

		for _, e := range es {
			g.c.do(rt, "DELETE", r.url(0, "/v1/cache/"+e.key), nil)
		}
	})
}

// TestC30Failover: what was acknowledged outlives one node.
func TestC30Failover(t *testing.T) {
	vh.Run(t, "rest-failover", "3 processes, replication 2 or 3, seeds given as id@addr, as plain addresses or mixed: 12-30 keys written, rewritten and deleted through any node; one node is killed or stopped with SIGTERM (which must drain and exit 0); once the rest has noticed, every acknowledged write is readable and every delete holds through each survivor, writes through the survivors succeed, and after the node is started again all three agree with the map. Non-trivial: always", 3, func(rt *rapid.T, c *vh.Case) {
		repl := rapid.IntRange(2, 3).Draw(rt, "replication")
		form := rapid.SampledFrom([]string{"id@addr", "addr", "mixed"}).Draw(rt, "seeds")
		graceful := rapid.Bool().Draw(rt, "graceful")

		c.Log("replication %d, seeds as %s, graceful %v", repl, form, graceful)
		c.Label("seeds as " + form)
		c.LabelIf(graceful, "SIGTERM")
		c.LabelIf(!graceful, "SIGKILL")

		g := startSeeded(rt, 3, repl, form)
		defer g.stop()

		model := map[string]string{}
		used := map[string]bool{}
		step := func(label string, live []int) {
			for i := range rapid.IntRange(12, 30).Draw(rt, "n") {
				k := fmt.Sprintf("k%d", rapid.IntRange(0, 15).Draw(rt, "k"))
				p := g.nodes[rapid.SampledFrom(live).Draw(rt, "node")]
				used[k] = true

				if rapid.IntRange(0, 3).Draw(rt, "del") == 0 {
					c.Log("%s delete %s", p.id, k)

					if res := g.c.do(rt, "DELETE", "http://"+p.api+"/v1/cache/"+k, nil); res.status != 200 {
						rt.Fatalf("%s: DELETE %s: %v", label, k, res)
					}

					delete(model, k)

					continue
				}

				v := fmt.Sprintf("%s-%d", label, i)
				c.Log("%s put %s %s", p.id, k, v)

				if res := g.c.do(rt, "PUT", "http://"+p.api+"/v1/cache/"+k, []byte(v)); res.status != 200 {
					rt.Fatalf("%s: PUT %s: %v", label, k, res)
				}

				model[k] = v
			}
		}
		agree := func(label string, live []int) {
			why := ""

			if !vh.Eventually(15*time.Second, func() bool {
				why = ""

				for k := range used {
					for _, n := range live {
						res, err := g.c.try("GET", "http://"+g.nodes[n].api+"/v1/cache/"+k, nil)
						v, ok := model[k]

						if err != nil || ok && (res.status != 200 || string(res.body) != v) || !ok && res.status != 404 {
							why += fmt.Sprintf("; %s answers %v %v for %s, the map has %q", g.nodes[n].id, res, err, k, v)
						}
					}
				}

				return why == ""
			}) {
				rt.Fatalf("%s%s\nmembers %v", label, why, g.sees())
			}
		}

		step("a", []int{0, 1, 2})
		agree("before the failure", []int{0, 1, 2})

		down := rapid.IntRange(0, 2).Draw(rt, "down")
		live := []int{0, 1, 2}
		live = slices.Delete(live, down, down+1)

		c.Log("%s goes down", g.nodes[down].id)

		if graceful {
			err, ok := g.nodes[down].term(20 * time.Second)
			if !ok || err != nil {
				rt.Fatalf("%s after SIGTERM: exited %v, %v: %s", g.nodes[down].id, ok, err, tail(g.nodes[down].out.String()))
			}
		} else {
			g.nodes[down].kill()
		}

		agree("after the failure", live)

		if !g.settled(2) {
			rt.Fatalf("survivors never drop the dead node: %v", g.sees())
		}

		step("b", live)
		agree("survivors", live)

		c.Log("%s is back", g.nodes[down].id)
		g.nodes[down].start(rt)

		if !g.nodes[down].up(g.c.cl) {
			rt.Fatalf("harness: restart: %s", tail(g.nodes[down].out.String()))
		}

		if !g.settled(3) {
			rt.Fatalf("a restarted node is not taken back: %v", g.sees())
		}

		agree("after the restart", []int{0, 1, 2})
		step("c", []int{0, 1, 2})
		agree("at the end", []int{0, 1, 2})
		c.NT(true)
	})
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}

	return s
}
