package rest_test

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/rand"
	"slices"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif.local/vh"
)

// TestC30Bulk: many keys and large values.
func TestC30Bulk(t *testing.T) {
	g := startGroup(t, 3, 2)
	t.Cleanup(g.stop)

	vh.Run(t, "rest-bulk", "3 processes, replication 2: 90-2300 keys written and read in batches, listed through every node with no limit (100 a page), limits up to and above the maximum of 500, a prefix, and a bound on the matches; and random values of 1-3 MiB written raw or in a batch and read in every form through every node. Non-trivial: always", 8, func(rt *rapid.T, c *vh.Case) {
		url := func(n int, path string) string { return "http://" + g.nodes[n].api + path }
		node := func() int { return rapid.IntRange(0, 2).Draw(rt, "node") }
		total := rapid.SampledFrom([]int{90, 99, 100, 101, 250, 499, 500, 501, 620, 700, 1300, 2300}).Draw(rt, "total")
		big := rapid.IntRange(1, 3).Draw(rt, "big")

		var keys []string

		for i := range total {
			keys = append(keys, fmt.Sprintf("%c-%d", 'a'+i%3, i))
		}

		c.Log("%d keys, %d big values", total, big)

		defer func() {
			g.c.do(t, "POST", url(0, "/v1/cache/batch/delete"), jsonBody(map[string]any{"keys": append(slices.Clone(keys), "big")}))
		}()

		for chunk := range slices.Chunk(keys, rapid.IntRange(40, 300).Draw(rt, "chunk")) {
			var items []map[string]any

			for _, k := range chunk {
				items = append(items, map[string]any{"key": k, "value": "v" + k})
			}

			res := g.c.do(rt, "POST", url(node(), "/v1/cache/batch/put"), jsonBody(map[string]any{"items": items}))
			if res.status != 200 || strings.Count(string(res.body), `"stored":true`) != len(chunk) {
				rt.Fatalf("batch put of %d: %v", len(chunk), res)
			}
		}

		slices.Sort(keys)

		// all of them, and some absent ones, in one batch
		ask := append(slices.Clone(keys), "absent", "z-absent")
		for i := range rapid.SampledFrom([]int{0, 1000, 2500}).Draw(rt, "absent") {
			ask = append(ask, fmt.Sprint("absent-", i))
		}

		var all struct{ Results []envelope }

		g.c.do(rt, "POST", url(node(), "/v1/cache/batch/get"), jsonBody(map[string]any{"keys": ask})).json(rt, &all)

		if len(all.Results) != len(ask) {
			rt.Fatalf("batch get of %d keys: %d results", len(ask), len(all.Results))
		}

		for i, r := range all.Results {
			if in := i < total; r.Key != ask[i] || r.Found != in || in && string(decoded(r.Value, r.ValueEncoding)) != "v"+r.Key {
				rt.Fatalf("batch get, row %d for %q: %+v", i, ask[i], r)
			}
		}

		for range 4 {
			n := node()
			limit := rapid.SampledFrom([]string{"", "50", "100", "499", "500", "501", "600", "5000", "100000"}).Draw(rt, "limit")
			prefix := rapid.SampledFrom([]string{"", "", "a-", "z"}).Draw(rt, "prefix")
			page := 100

			if limit != "" {
				fmt.Sscan(limit, &page)
				page = min(page, 500)
			}

			var want, got []string

			for _, k := range keys {
				if strings.HasPrefix(k, prefix) {
					want = append(want, k)
				}
			}

			c.Log("list %q by %q through node %d", prefix, limit, n)

			cursor := ""

			for {
				u := url(n, "/v1/cache/keys?q="+prefix+"&cursor="+cursor)
				if limit != "" {
					u += "&limit=" + limit
				}

				res := g.c.do(rt, "GET", u, nil)

				var out struct {
					Keys         []string
					NextCursor   string `json:"next_cursor"`
					TotalMatched int    `json:"total_matched"`
					Truncated    bool
					PartialNodes []string `json:"partial_nodes"`
				}

				if res.status != 200 {
					rt.Fatalf("list: %v", res)
				}

				res.json(rt, &out)

				left := len(want) - len(got)
				if out.TotalMatched != len(want) || out.Truncated || len(out.PartialNodes) > 0 || len(out.Keys) != min(page, left) || (out.NextCursor == "") != (left <= page) {
					rt.Fatalf("list of %q (limit %q) of %d keys from %q: page of %d, total %d, truncated %v, next %q", prefix, limit, len(want), cursor, len(out.Keys), out.TotalMatched, out.Truncated, out.NextCursor)
				}

				got = append(got, out.Keys...)

				if cursor = out.NextCursor; cursor == "" {
					break
				}
			}

			if !slices.Equal(got, want) {
				rt.Fatalf("listing of %q with limit %q through node %d differs from the %d keys stored", prefix, limit, n, len(want))
			}
		}

		// a bound on the matches cuts the listing and says so
		bound := rapid.IntRange(1, total+5).Draw(rt, "max")
		res := g.c.do(rt, "GET", url(node(), fmt.Sprintf("/v1/cache/keys?limit=500&max=%d", bound)), nil)

		var out struct {
			Keys         []string
			TotalMatched int `json:"total_matched"`
			Truncated    bool
		}

		res.json(rt, &out)

		if res.status != 200 || out.TotalMatched > total || out.TotalMatched < min(bound, total) || !out.Truncated && out.TotalMatched != total || bound > total && out.Truncated {
			rt.Fatalf("listing at most %d of %d keys: %d matched, truncated %v", bound, total, out.TotalMatched, out.Truncated)
		}

		for _, k := range out.Keys {
			if !slices.Contains(keys, k) {
				rt.Fatalf("listing reports %q, never stored", k)
			}
		}

		for range big {
			v := make([]byte, rapid.SampledFrom([]int{1<<20 - 1, 1 << 20, 1<<20 + 1, 2 << 20, 3 << 20}).Draw(rt, "size"))
			rand.New(rand.NewSource(rapid.Int64().Draw(rt, "seed"))).Read(v)

			text := rapid.Bool().Draw(rt, "text")
			if text {
				v = []byte(base64.RawURLEncoding.EncodeToString(v))[:len(v)]
			}

			if raw := rapid.Bool().Draw(rt, "raw") || len(v) > 2<<20; raw {
				c.Log("put %d bytes", len(v))

				if res := g.c.do(rt, "PUT", url(node(), "/v1/cache/big"), v); res.status != 200 {
					rt.Fatalf("PUT of %d bytes: %v", len(v), res)
				}
			} else {
				c.Log("batch put %d bytes", len(v))

				res := g.c.do(rt, "POST", url(node(), "/v1/cache/batch/put"), jsonBody(map[string]any{"items": []map[string]any{
					{"key": "big", "value": base64.StdEncoding.EncodeToString(v), "value_encoding": "base64"},
				}}))
				if res.status != 200 || !strings.Contains(string(res.body), `"stored":true`) {
					rt.Fatalf("batch put of %d bytes: %v", len(v), res)
				}
			}

			for n := range g.nodes {
				if res := g.c.do(rt, "GET", url(n, "/v1/cache/big"), nil); res.status != 200 || !bytes.Equal(res.body, v) {
					rt.Fatalf("GET of %d bytes through node %d: status %d, %d bytes, equal %v", len(v), n, res.status, len(res.body), bytes.Equal(res.body, v))
				}

				var env envelope

				g.c.do(rt, "GET", url(n, "/v1/cache/big"), nil, "Accept", "application/json").json(rt, &env)

				if dec := decoded(env.Value, env.ValueEncoding); !bytes.Equal(dec, v) {
					rt.Fatalf("JSON GET of %d bytes through node %d: %d bytes", len(v), n, len(dec))
				}

				var bg struct{ Results []envelope }

				g.c.do(rt, "POST", url(n, "/v1/cache/batch/get"), jsonBody(map[string]any{"keys": []string{"big"}})).json(rt, &bg)

				if len(bg.Results) != 1 || !bg.Results[0].Found || !bytes.Equal(decoded(bg.Results[0].Value, bg.Results[0].ValueEncoding), v) {
					rt.Fatalf("batch get of %d bytes through node %d differs", len(v), n)
				}

				if res := g.c.do(rt, "HEAD", url(n, "/v1/cache/big"), nil); res.status != 200 {
					rt.Fatalf("HEAD of %d bytes through node %d: %v", len(v), n, res)
				}
			}
		}

		c.NT(true)
	})
}

func decoded(v, enc string) []byte {
	if enc != "base64" {
		return []byte(v)
	}

	b, err := base64.StdEncoding.DecodeString(v)
	if err != nil {
		return nil
	}

	return b
}

// TestC30Drain: a draining server takes no writes, says so, and still serves.
func TestC30Drain(t *testing.T) {
	vh.Run(t, "rest-drain", "3 processes, replication 1-3: keys are written, one node is told to drain; from then on its health answers 503, every put, delete and batch item through it answers 503 or code DRAINING and changes nothing, malformed requests are still 400, reads and listings through it stay right, and writes through the others succeed and are seen everywhere; SIGTERM then ends it with status 0. Non-trivial: always", 8, func(rt *rapid.T, c *vh.Case) {
		repl := rapid.IntRange(1, 3).Draw(rt, "replication")
		g := startSeeded(rt, 3, repl, "id@addr")

		defer g.stop()

		url := func(n int, path string) string { return "http://" + g.nodes[n].api + path }
		model := map[string]string{}
		key := func() string { return fmt.Sprintf("k%d", rapid.IntRange(0, 11).Draw(rt, "k")) }
		d := rapid.IntRange(0, 2).Draw(rt, "drained")
		draining := false

		c.Log("replication %d, node %d drains", repl, d)

		agree := func() {
			for i := range 12 {
				k := fmt.Sprintf("k%d", i)
				v, ok := model[k]

				for n := range g.nodes {
					res := g.c.do(rt, "GET", url(n, "/v1/cache/"+k), nil)
					if ok && (res.status != 200 || string(res.body) != v) || !ok && res.status != 404 {
						rt.Fatalf("node %d (draining: %v) answers %v for %s, the map has %q", n, draining && n == d, res, k, v)
					}
				}
			}
		}
		steps := func(label string, m int) {
			for i := range m {
				n := rapid.IntRange(0, 2).Draw(rt, "node")
				refuses := draining && n == d
				k, v := key(), fmt.Sprintf("%s%d", label, i)

				switch rapid.SampledFrom([]string{"put", "put", "del", "bput", "bdel", "bad", "list"}).Draw(rt, "op") {
				case "put":
					c.Log("node %d put %s", n, k)

					res := g.c.do(rt, "PUT", url(n, "/v1/cache/"+k), []byte(v))
					if refuses {
						if code := res.code(rt, 503, "PUT through a draining node"); code != "DRAINING" {
							rt.Fatalf("PUT through a draining node: %v", res)
						}

						break
					}

					if res.status != 200 {
						rt.Fatalf("PUT through node %d while %d drains (%v): %v", n, d, draining, res)
					}

					model[k] = v
				case "del":
					c.Log("node %d delete %s", n, k)

					res := g.c.do(rt, "DELETE", url(n, "/v1/cache/"+k), nil)
					if refuses {
						if code := res.code(rt, 503, "DELETE through a draining node"); code != "DRAINING" {
							rt.Fatalf("DELETE through a draining node: %v", res)
						}

						break
					}

					if res.status != 200 {
						rt.Fatalf("DELETE through node %d while %d drains (%v): %v", n, d, draining, res)
					}

					delete(model, k)
				case "bput", "bdel":
					del := rapid.Bool().Draw(rt, "del")
					k2 := key()
					path, body := "put", map[string]any{"items": []map[string]any{{"key": k, "value": v}, {"key": k2, "value": v + "'"}}}

					if del {
						path, body = "delete", map[string]any{"keys": []string{k, k2}}
					}

					c.Log("node %d batch %s %s %s", n, path, k, k2)

					var out struct {
						Results []struct {
							Key             string
							Stored, Deleted bool
							Error, Code     string
						}
					}

					res := g.c.do(rt, "POST", url(n, "/v1/cache/batch/"+path), jsonBody(body))
					if res.status != 200 {
						rt.Fatalf("batch %s through node %d: %v", path, n, res)
					}

					res.json(rt, &out)

					if len(out.Results) != 2 {
						rt.Fatalf("batch %s through node %d: %v", path, n, res)
					}

					for j, o := range out.Results {
						if o.Key != []string{k, k2}[j] || (o.Stored || o.Deleted) == refuses || refuses && (o.Code != "DRAINING" || o.Error == "") {
							rt.Fatalf("batch %s through node %d (draining: %v): result %+v", path, n, refuses, o)
						}
					}

					switch {
					case refuses:
					case del:
						delete(model, k)
						delete(model, k2)
					default:
						model[k] = v
						model[k2] = v + "'"
					}
				case "bad":
					if code := g.c.do(rt, "PUT", url(n, "/v1/cache/"+k+"?ttl=never"), []byte(v)).code(rt, 400, "PUT with a bad ttl"); code != "BAD_REQUEST" {
						rt.Fatalf("PUT with a bad ttl: code %s", code)
					}
				case "list":
					var want []string

					for k := range model {
						want = append(want, k)
					}

					slices.Sort(want)

					var out struct {
						Keys         []string
						PartialNodes []string `json:"partial_nodes"`
					}

					g.c.do(rt, "GET", url(n, "/v1/cache/keys"), nil).json(rt, &out)

					if !slices.Equal(out.Keys, want) || len(out.PartialNodes) > 0 {
						rt.Fatalf("node %d lists %q (partial %v), want %q", n, out.Keys, out.PartialNodes, want)
					}
				}
			}
		}

		steps("a", rapid.IntRange(3, 12).Draw(rt, "before"))
		agree()

		health := func(n int) resp { return g.c.do(rt, "GET", "http://"+g.nodes[n].dist+"/health", nil) }

		for n := range g.nodes {
			if res := health(n); res.status != 200 {
				rt.Fatalf("health of node %d: %v", n, res)
			}
		}

		for range rapid.IntRange(1, 2).Draw(rt, "asked") {
			if res := g.c.do(rt, "POST", "http://"+g.nodes[d].dist+"/dist/drain", nil); res.status != 200 {
				rt.Fatalf("drain: %v", res)
			}
		}

		draining = true

		for n := range g.nodes {
			if res := health(n); (res.status == 503) != (n == d) || n != d && res.status != 200 {
				rt.Fatalf("health of node %d while %d drains: %v", n, d, res)
			}
		}

		steps("b", rapid.IntRange(10, 30).Draw(rt, "after"))
		agree()

		if err, ok := g.nodes[d].term(20 * time.Second); !ok || err != nil {
			rt.Fatalf("SIGTERM to a draining node: exited %v, %v: %s", ok, err, tail(g.nodes[d].out.String()))
		}

		c.NT(true)
	})
}
