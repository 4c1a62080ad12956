package dist_test

import (
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	fiber "github.com/gofiber/fiber/v3"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// wireValue is a value JSON can carry.
func wireValue() *rapid.Generator[any] {
	return rapid.Custom(func(t *rapid.T) any {
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 9:
			if rapid.IntRange(0, 3).Draw(t, "large") == 0 {
				return strings.Repeat(rapid.SampledFrom([]string{"a", "words and ", "é"}).Draw(t, "unit"), rapid.IntRange(1, 200).Draw(t, "KiB")<<10)
			}
		case 0:
			return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
		case 1:
			return rapid.SampledFrom([]any{true, false, float64(0), -1.5, float64(1 << 40), 7, int64(-3)}).Draw(t, "scalar")
		case 2:
			return map[string]any{"a": []any{"x", 1.0, nil}, rapid.StringN(0, 3, -1).Draw(t, "field"): rapid.String().Draw(t, "s")}
		case 3:
			return strings.Repeat(rapid.SampledFrom([]string{"a", "<&>", "é", "\x00"}).Draw(t, "unit"), rapid.IntRange(0, 3000).Draw(t, "len"))
		case 4:
			return rapid.SampledFrom([]string{"", "null", "{}", `"q"`, "aGVsbG8=", "<script>", "\u2028", "line\nbreak", `back\slash`}).Draw(t, "text")
		}

		return rapid.String().Draw(t, "string")
	})
}

var wireKey = rapid.OneOf(keyGen, rapid.StringN(1, 8, -1), rapid.SampledFrom([]string{"a+b", "a%2Fb", "a;b", "#frag", "..", "/", "?", "&key=x", "<>", "k\n", "\u2028"}))

var wireTTL = rapid.SampledFrom([]time.Duration{0, 0, time.Millisecond, 1500 * time.Millisecond, time.Hour, 90 * 24 * time.Hour, 500 * time.Microsecond, 2*time.Second + 300*time.Microsecond, time.Nanosecond, time.Hour + 1234567*time.Nanosecond, 40*24*time.Hour + 7*time.Nanosecond, 200 * 365 * 24 * time.Hour})

// class sorts errors as callers tell them apart.
func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, sentinel.ErrNotOwner):
		return "not owner"
	case errors.Is(err, sentinel.ErrBackendNotFound):
		return "no such node"
	case errors.Is(err, sentinel.ErrQuorumFailed):
		return "quorum failed"
	case strings.Contains(fmt.Sprintf("%T", err), "stale"):
		return err.Error()
	}

	return "error"
}

// sameTTL allows for the wire's resolution of a millisecond, rounded up: a
// time-to-live never turns into none.
func sameTTL(got, want time.Duration) bool {
	return got >= want && got-want < time.Millisecond && (got == 0) == (want == 0)
}

// wireAge is how long ago an item was used when it is sent on.
var wireAge = rapid.SampledFrom([]time.Duration{0, 0, 10 * time.Second, 55 * time.Minute, 300 * time.Hour})

func sameAge(a, b time.Time) bool { return a.Sub(b).Abs() < 3*time.Second }

func TestC29(t *testing.T) {
	vh.Run(t, "twins", "two nodes of one state, one driven through its HTTP server by a DistHTTPTransport, the other in process, both with an unreachable second member; 4-25 forwarded sets, gets, removes, digests, listings, probes and gossip with arbitrary keys, JSON-representable values, versions, ages and time-to-lives, with and without compression and credentials: same outcome, same contents; non-trivial: a refused write, a hit, a removed key and a value above the compression threshold", 400, func(rt *rapid.T, c *vh.Case) {
		rf := rapid.IntRange(1, 2).Draw(rt, "rf")

		var auth backend.DistHTTPAuth
		if rapid.Bool().Draw(rt, "auth") {
			auth.Token = "s3cret"
		}

		threshold := rapid.SampledFrom([]int{0, 1, 64, 2000}).Draw(rt, "compress")
		limits := backend.DistHTTPLimits{CompressionThreshold: threshold}
		shards := backend.WithDistShardCount(rapid.SampledFrom([]int{1, 8}).Draw(rt, "shards"))

		web := newAuthedClu(rt, rf, auth, limits, shards)
		defer web.stop()

		proc := newClu(rt, 1, rf, shards)
		defer proc.stop()

		for _, cl := range []*clu{&web.clu, proc} {
			cl.ms.Upsert(cluster.NewNode("gone", "127.0.0.1:1"))
		}

		// Ownership depends on ids only, so both twins agree on it.
		far := backend.NewDistHTTPTransportWithAuth(limits, auth, func(id string) (string, bool) {
			return "http://" + web.addr[0], id == "n0"
		})
		near := proc.tr[0]
		near.Register(proc.nodes[0])

		keys := rapid.SliceOfN(wireKey, 1, 5).Draw(rt, "keys")
		known := map[string]time.Duration{}

		bearer := map[string]string{}
		if auth.Token != "" {
			bearer["Authorization"] = "Bearer " + auth.Token
		}

		var refused, hit, removed, big, drained bool

		for i := range rapid.IntRange(4, 25).Draw(rt, "ops") {
			key := rapid.SampledFrom(keys).Draw(rt, "key")
			if key == "" {
				continue
			}

			to := "n0"
			if rapid.IntRange(0, 15).Draw(rt, "unknown") == 0 {
				to = "nobody"
			}

			var ef, en error

			switch op := rapid.SampledFrom([]string{"set", "set", "set", "set", "get", "get", "remove", "digest", "list", "health", "health", "probe", "gossip", "drain"}).Draw(rt, "op"); op {
			case "set":
				it := cache.Item{Key: key, Value: wireValue().Draw(rt, "value"), Expiration: wireTTL.Draw(rt, "ttl"), LastAccess: time.Now().Add(-wireAge.Draw(rt, "accessed")), LastUpdated: time.Now().Add(-wireAge.Draw(rt, "updated"))}
				replicate := rapid.Bool().Draw(rt, "replicate")

				if rapid.IntRange(0, 3).Draw(rt, "versioned") > 0 || !replicate {
					it.Version = rapid.Uint64Range(1, 12).Draw(rt, "version")
					if rapid.IntRange(0, 9).Draw(rt, "huge") == 0 {
						it.Version += 1 << 53
					}

					it.Origin = rapid.SampledFrom([]string{"n0", "gone", "a", "é\"<", "Node-A", " n0 "}).Draw(rt, "origin")
				}

				a, b := it, it
				ef, en = far.ForwardSet(bg, to, &a, replicate), near.ForwardSet(bg, to, &b, replicate)
				c.Log("%d: set %q=%v ttl %v v%d@%s replicate %v to %s: %v", i, key, clip(it.Value), it.Expiration, it.Version, it.Origin, replicate, to, en)

				if !reflect.DeepEqual(a, it) {
					rt.Fatalf("forwarding changed the caller's item\n%s", c.Desc())
				}

				if en == nil {
					known[key] = it.Expiration
				}

				refused = refused || en != nil
				big = big || (threshold > 0 && len(norm(it.Value)) > threshold)
			case "get":
				itf, okf, err1 := far.ForwardGet(bg, to, key)
				itn, okn, err2 := near.ForwardGet(bg, to, key)
				ef, en = err1, err2
				c.Log("%d: get %q from %s: %v %v", i, key, to, okn, en)

				if okf != okn || (itf == nil) != (itn == nil) {
					rt.Fatalf("get %q: %v %v over HTTP, %v %v in process\n%s", key, okf, itf, okn, itn, c.Desc())
				}

				if okn && (!sameAge(itf.LastAccess, itn.LastAccess) || !sameAge(itf.LastUpdated, itn.LastUpdated)) {
					rt.Fatalf("get %q: accessed %v and updated %v over HTTP, %v and %v in process\n%s", key, itf.LastAccess, itf.LastUpdated, itn.LastAccess, itn.LastUpdated, c.Desc())
				}

				if itf != nil && (itf.Key != itn.Key || itf.Version != itn.Version || itf.Origin != itn.Origin || (okn && norm(itf.Value) != norm(itn.Value)) || !sameTTL(itf.Expiration, itn.Expiration)) {
					rt.Fatalf("get %q: %+v over HTTP, %+v in process\n%s", key, itf, itn, c.Desc())
				}

				hit = hit || okn
			case "remove":
				replicate := rapid.Bool().Draw(rt, "replicate")
				ef, en = far.ForwardRemove(bg, to, key, replicate), near.ForwardRemove(bg, to, key, replicate)
				c.Log("%d: remove %q replicate %v from %s: %v", i, key, replicate, to, en)

				removed = removed || en == nil
			case "digest":
				tf, err1 := far.FetchMerkle(bg, to)
				tn, err2 := near.FetchMerkle(bg, to)
				ef, en = err1, err2
				c.Log("%d: digest of %s: %v", i, to, en)

				if ef == nil && en == nil {
					byKey := func(a, b backend.MerkleTombstone) int { return strings.Compare(a.Key, b.Key) }
					slices.SortFunc(tf.Tombstones, byKey)
					slices.SortFunc(tn.Tombstones, byKey)

					if !bytes.Equal(tf.Root, tn.Root) || !reflect.DeepEqual(tf.LeafHashes, tn.LeafHashes) && len(tf.LeafHashes)+len(tn.LeafHashes) > 0 || tf.ChunkSize != tn.ChunkSize {
						rt.Fatalf("digests differ: %+v, %+v\n%s", tf, tn, c.Desc())
					}

					if len(tf.Tombstones) != len(tn.Tombstones) {
						rt.Fatalf("deletes differ: %+v, %+v\n%s", tf.Tombstones, tn.Tombstones, c.Desc())
					}

					for j := range tf.Tombstones {
						if f, n := tf.Tombstones[j], tn.Tombstones[j]; f.Key != n.Key || f.Version != n.Version || f.Origin != n.Origin {
							rt.Fatalf("deletes differ: %+v, %+v\n%s", f, n, c.Desc())
						}
					}
				}
			case "list":
				pattern := listPattern.Draw(rt, "pattern")
				kf, err1 := far.ListKeys(bg, to, pattern)
				kn, err2 := near.ListKeys(bg, to, pattern)
				ef, en = err1, err2
				c.Log("%d: list %q of %s: %v", i, pattern, to, en)

				sort.Strings(kf)
				sort.Strings(kn)

				if !slices.Equal(kf, kn) {
					rt.Fatalf("list %q: %q over HTTP, %q in process\n%s", pattern, kf, kn, c.Desc())
				}
			case "health":
				ef, en = far.Health(bg, to), near.Health(bg, to)
				c.Log("%d: health of %s: %v", i, to, ef)

				// A drained node still answers, but says it is not to be used.
				if drained && to == "n0" {
					if ef == nil {
						rt.Fatalf("a drained node is healthy\n%s", c.Desc())
					}

					ef = nil
				}

				if status, body := call(rt, "GET", "http://"+web.addr[0]+"/health", bearer, nil); drained != (status == 503 && string(body) == "draining") || drained == (status == 200) {
					rt.Fatalf("health of a node, drained %v: %d %s\n%s", drained, status, body, c.Desc())
				}
			case "drain":
				if i < 8 {
					continue
				}

				status, body := call(rt, "POST", "http://"+web.addr[0]+"/dist/drain", bearer, nil)
				en = proc.nodes[0].Drain(bg)
				drained = true
				c.Log("%d: drain: %d %s, %v", i, status, body, en)

				if status != 200 || en != nil || !web.nodes[0].IsDraining() {
					rt.Fatalf("drain: %d %s, %v, draining %v\n%s", status, body, en, web.nodes[0].IsDraining(), c.Desc())
				}
			case "probe":
				target := rapid.SampledFrom([]string{"n0", "gone", "nobody", "", "a&b"}).Draw(rt, "target")
				ef = far.IndirectHealth(bg, to, target)
				c.Log("%d: %s probes %s: %v", i, to, target, ef)

				if (ef == nil) != (to == "n0" && target == "n0" && !drained) {
					rt.Fatalf("%s probes %q: %v\n%s", to, target, ef, c.Desc())
				}

				ef = nil
			case "gossip":
				ms := []backend.GossipMember{{ID: rapid.SampledFrom([]string{"g1", "g\"2", "é"}).Draw(rt, "id"), Address: "127.0.0.1:1", State: "suspect", Incarnation: rapid.SampledFrom([]uint64{1, 7, 1<<53 + 1}).Draw(rt, "inc")}}
				ef, en = far.Gossip(bg, to, ms), near.Gossip(bg, to, ms)
				c.Log("%d: gossip %+v to %s", i, ms, to)
			}

			if class(ef) != class(en) {
				rt.Fatalf("over HTTP: %v (%s)\nin process: %v (%s)\n%s", ef, class(ef), en, class(en), c.Desc())
			}

			same(rt, c, web.nodes[0], proc.nodes[0], &web.clu, proc)
		}

		c.LabelIf(auth.Token != "", "auth")
		c.LabelIf(big, "compressed")
		c.LabelIf(refused, "refused")
		c.NT(refused && hit && removed && (big || threshold == 0))
	})
}

func clip(v any) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 60 {
		s = fmt.Sprintf("%s...(%d)", s[:50], len(s))
	}

	return s
}

// same compares what two nodes hold and whom they know.
func same(rt *rapid.T, c *vh.Case, a, b *backend.DistMemory, ca, cb *clu) {
	x, y := normAll(contents(a)), normAll(contents(b))
	if !reflect.DeepEqual(x, y) {
		rt.Fatalf("contents differ:\nHTTP      %s\nin process%s\n%s", dump(x), dump(y), c.Desc())
	}

	ages := map[string]*cache.Item{}
	items, _ := b.List(bg)

	for _, it := range items {
		ages[it.Key] = it
	}

	items, _ = a.List(bg)
	for _, it := range items {
		if o := ages[it.Key]; o == nil || !sameAge(it.LastAccess, o.LastAccess) || !sameAge(it.LastUpdated, o.LastUpdated) {
			rt.Fatalf("the copy of %q was accessed %v and updated %v over HTTP, in process it is %+v\n%s", it.Key, it.LastAccess, it.LastUpdated, o, c.Desc())
		}
	}

	ttl := func(nd *backend.DistMemory) map[string]time.Duration {
		out := map[string]time.Duration{}
		items, _ := nd.List(bg)

		for _, it := range items {
			out[it.Key] = it.Expiration
		}

		return out
	}

	want := ttl(b)
	for k, d := range ttl(a) {
		if !sameTTL(d, want[k]) {
			rt.Fatalf("time-to-live of %q: %v over HTTP, %v in process\n%s", k, d, want[k], c.Desc())
		}
	}

	who := func(cl *clu) string {
		var out []string
		for _, n := range cl.ms.List() {
			out = append(out, fmt.Sprintf("%q %v %d", n.ID, n.State, n.Incarnation))
		}

		sort.Strings(out)

		return strings.Join(out, ", ")
	}

	if who(ca) != who(cb) {
		rt.Fatalf("members differ:\n%s\n%s\n%s", who(ca), who(cb), c.Desc())
	}
}

// newAuthedClu starts one node with an HTTP server.
func newAuthedClu(rt *rapid.T, rf int, auth backend.DistHTTPAuth, limits backend.DistHTTPLimits, opts ...backend.DistMemoryOption) *httpClu {
	return newHTTPClu(rt, 1, rf, auth, limits, opts...)
}

func TestC29Clusters(t *testing.T) {
	vh.Run(t, "clusters", "two clusters of 1-3 nodes, one over HTTP (with credentials and compression), one in process; 4-20 sets, removes and gets through random nodes at every consistency: same outcomes and the same contents on every node after each; non-trivial: a key set twice and removed with a replica, and two nodes", 120, func(rt *rapid.T, c *vh.Case) {
		n, rf := rapid.IntRange(1, 3).Draw(rt, "nodes"), rapid.IntRange(1, 3).Draw(rt, "rf")
		opts := []backend.DistMemoryOption{
			backend.WithDistReadConsistency(levels().Draw(rt, "read")), backend.WithDistWriteConsistency(levels().Draw(rt, "write")),
		}
		web := newHTTPClu(rt, n, rf, backend.DistHTTPAuth{Token: "t"}, backend.DistHTTPLimits{CompressionThreshold: 32}, opts...)
		defer web.stop()

		proc := newClu(rt, n, rf, opts...)
		defer proc.stop()

		keys := rapid.SliceOfNDistinct(wireKey, 1, 4, rapid.ID[string]).Draw(rt, "keys")
		sets, removes := map[string]int{}, 0
		vals := map[string]any{}

		for i := range rapid.IntRange(4, 20).Draw(rt, "ops") {
			key, via := rapid.SampledFrom(keys).Draw(rt, "key"), rapid.IntRange(0, n-1).Draw(rt, "via")
			if strings.TrimSpace(key) == "" {
				continue
			}

			if rapid.IntRange(0, 5).Draw(rt, "suspicion") == 0 { // suspects are still asked
				j, st := rapid.IntRange(0, n-1).Draw(rt, "suspect"), rapid.SampledFrom([]cluster.NodeState{cluster.NodeSuspect, cluster.NodeAlive}).Draw(rt, "state")
				web.ms.Mark(web.nodes[j].LocalNodeID(), st)
				proc.ms.Mark(proc.nodes[j].LocalNodeID(), st)
				c.Log("%d: n%d %v", i, j, st)
			}

			switch rapid.IntRange(0, 4).Draw(rt, "op") {
			case 0, 1:
				v, ttl := wireValue().Draw(rt, "value"), rapid.SampledFrom([]time.Duration{0, time.Hour, 90 * time.Minute}).Draw(rt, "ttl")
				e1 := web.nodes[via].Set(bg, &cache.Item{Key: key, Value: v, Expiration: ttl})
				e2 := proc.nodes[via].Set(bg, &cache.Item{Key: key, Value: v, Expiration: ttl})
				c.Log("%d: set %q=%s via n%d: %v", i, key, clip(v), via, e2)

				if class(e1) != class(e2) || e1 != nil {
					rt.Fatalf("set: %v over HTTP, %v in process\n%s", e1, e2, c.Desc())
				}

				sets[key]++
				vals[key] = v
			case 2:
				e1, e2 := web.nodes[via].Remove(bg, key), proc.nodes[via].Remove(bg, key)
				c.Log("%d: remove %q via n%d: %v", i, key, via, e2)

				if class(e1) != class(e2) {
					rt.Fatalf("remove: %v over HTTP, %v in process\n%s", e1, e2, c.Desc())
				}

				if sets[key] > 1 {
					removes++
				}

				delete(vals, key)
			default:
				a, ok1 := web.nodes[via].Get(bg, key)
				b, ok2 := proc.nodes[via].Get(bg, key)
				c.Log("%d: get %q via n%d: %v", i, key, via, ok2)

				if _, want := vals[key]; ok1 != want || ok2 != want {
					rt.Fatalf("get %q: %v over HTTP, %v in process, want %v\n%s", key, ok1, ok2, want, c.Desc())
				}

				if ok1 && (norm(a.Value) != norm(vals[key]) || a.Key != key || a.Version != b.Version || a.Origin != b.Origin || a.Expiration != b.Expiration) {
					rt.Fatalf("get %q: %+v over HTTP, %+v in process, set %v\n%s", key, a, b, vals[key], c.Desc())
				}
			}

			for j := range n {
				if x, y := normAll(contents(web.nodes[j])), normAll(contents(proc.nodes[j])); !reflect.DeepEqual(x, y) {
					rt.Fatalf("node %d holds:\nHTTP      %s\nin process%s\n%s", j, dump(x), dump(y), c.Desc())
				}
			}
		}

		c.NT(removes > 0 && n > 1)
	})
}

func TestC29Limits(t *testing.T) {
	vh.Run(t, "limits", "a node with request and response limits of 0.5-8 KiB, values from 0 to 4 times the limit, compressible or not, with and without compression: a set whose request exceeds the limit fails and changes nothing, any other stores the whole value; a get whose answer exceeds the response limit fails, any other returns the whole value; non-trivial: one refused and one accepted of each", 150, func(rt *rapid.T, c *vh.Case) {
		limit := rapid.IntRange(512, 8192).Draw(rt, "limit")
		respLimit := rapid.IntRange(512, 8192).Draw(rt, "respLimit")
		compress := rapid.SampledFrom([]int{0, 0, 100}).Draw(rt, "compress")
		web := newHTTPClu(rt, 1, 1, backend.DistHTTPAuth{}, backend.DistHTTPLimits{BodyLimit: limit})
		defer web.stop()

		tr := backend.NewDistHTTPTransportWithLimits(backend.DistHTTPLimits{ResponseLimit: int64(respLimit), CompressionThreshold: compress}, func(string) (string, bool) { return "http://" + web.addr[0], true })

		var setNo, setYes, getNo, getYes bool

		for i := range rapid.IntRange(2, 8).Draw(rt, "values") {
			size := rapid.OneOf(rapid.IntRange(0, 4*limit), rapid.IntRange(max(0, limit-400), limit+100), rapid.IntRange(max(0, respLimit-400), respLimit+100)).Draw(rt, "size")

			v := strings.Repeat("x", size)
			if rapid.Bool().Draw(rt, "random") {
				v = fmt.Sprintf("%x", rapid.SliceOfN(rapid.Byte(), size/2, size/2).Draw(rt, "bytes"))
			}

			key := fmt.Sprintf("k%d", i)
			err := tr.ForwardSet(bg, "n0", &cache.Item{Key: key, Value: v, Version: uint64(i + 1), Origin: "x"}, false)
			c.Log("set %q of %d bytes, limit %d, compress %d: %v", key, len(v), limit, compress, err)

			got, held := contents(web.nodes[0])[key], err == nil
			if got.has != held || (held && got.val != v) {
				rt.Fatalf("set of %d bytes: %v, but node holds %v (%d bytes)\n%s", len(v), err, got.has, len(norm(got.val)), c.Desc())
			}

			if compress == 0 {
				if len(v) > limit && err == nil {
					rt.Fatalf("request of more than %d bytes accepted\n%s", limit, c.Desc())
				}

				if len(v) <= limit-200 && err != nil {
					rt.Fatalf("request well below %d bytes refused: %v\n%s", limit, err, c.Desc())
				}
			}

			setNo, setYes = setNo || err != nil, setYes || err == nil
			if err != nil {
				continue
			}

			it, ok, err := tr.ForwardGet(bg, "n0", key)
			c.Log("get %q, limit %d: %v", key, respLimit, err)

			switch {
			case err == nil && (!ok || it == nil || norm(it.Value) != norm(v)):
				rt.Fatalf("get of %d bytes: ok %v, not the value\n%s", len(v), ok, c.Desc())
			case err == nil && len(v) > respLimit:
				rt.Fatalf("answer of more than %d bytes accepted\n%s", respLimit, c.Desc())
			case err != nil && (ok || it != nil):
				rt.Fatalf("get failed with %v and returned %v\n%s", err, it, c.Desc())
			case err != nil && len(v) <= respLimit-400:
				rt.Fatalf("answer well below %d bytes refused: %v\n%s", respLimit, err, c.Desc())
			}

			getNo, getYes = getNo || err != nil, getYes || err == nil
		}

		c.NT(setNo && setYes && getNo && getYes)
	})
}

var peerRoutes = []struct{ method, path string }{
	{"POST", "/internal/cache/set"},
	{"POST", "/internal/set"},
	{"GET", "/internal/cache/get?key=seen"},
	{"GET", "/internal/get?key=seen"},
	{"HEAD", "/internal/get?key=seen"},
	{"DELETE", "/internal/cache/remove?key=seen"},
	{"DELETE", "/internal/del?key=seen&replicate=true"},
	{"DELETE", "/internal/del?key=seen&version=99&origin=x"},
	{"GET", "/health"},
	{"POST", "/dist/drain"},
	{"GET", "/internal/probe?target=n0"},
	{"POST", "/internal/gossip"},
	{"GET", "/internal/merkle"},
	{"GET", "/internal/keys"},
	{"GET", "/internal/keys?limit=1&q=s"},
}

func TestC29Auth(t *testing.T) {
	token := rapid.OneOf(rapid.StringMatching(`[a-zA-Z0-9._~+/=-]{1,20}`), rapid.SampledFrom([]string{"a", "token", "a b", "Bearer x"}))

	vh.Run(t, "credentials", "a node requiring a token (or a verify function) and 5-20 requests to random routes, in random case and with valid bodies, carrying no, a wrong, a mangled or the right credential: 401 and no effect unless it is right; clients sign with the token or a sign function; non-trivial: a refused write, a refused read and an admitted request", 200, func(rt *rapid.T, c *vh.Case) {
		tok := token.Draw(rt, "token")
		custom := rapid.IntRange(0, 3).Draw(rt, "custom") == 0

		auth := backend.DistHTTPAuth{Token: tok}
		good := map[string]string{"Authorization": "Bearer " + tok}

		if custom {
			// A verify function is enough without a token.
			if rapid.Bool().Draw(rt, "tokenless") {
				auth.Token = ""
			}

			auth.ServerVerify = func(f fiber.Ctx) error {
				if f.Get("X-Sig") != "sig-"+tok {
					return errors.New("bad signature")
				}

				return nil
			}
			auth.ClientSign = func(r *http.Request) error {
				r.Header.Set("X-Sig", "sig-"+tok)

				return nil
			}
			good = map[string]string{"X-Sig": "sig-" + tok}
		}

		web := newHTTPClu(rt, 1, 1, auth, backend.DistHTTPLimits{})
		defer web.stop()

		if err := web.nodes[0].Set(bg, mkItem("seen", "secret-value")); err != nil {
			rt.Fatalf("set: %v", err)
		}

		resolve := func(string) (string, bool) { return "http://" + web.addr[0], true }

		var refusedRead, refusedWrite, admitted bool

		for i := range rapid.IntRange(5, 20).Draw(rt, "requests") {
			r := rapid.SampledFrom(peerRoutes).Draw(rt, "route")

			p, query, _ := strings.Cut(r.path, "?")

			switch rapid.IntRange(0, 4).Draw(rt, "form") {
			case 0:
				p = strings.ToUpper(p)
			case 1:
				p += "/"
			}

			if query != "" {
				p += "?" + query
			}

			var body []byte
			if r.method == "POST" && strings.Contains(r.path, "set") {
				body = []byte(fmt.Sprintf(`{"key":"written%d","value":"x","version":5,"origin":"o"}`, i))
			} else if r.method == "POST" && strings.Contains(r.path, "gossip") {
				body = []byte(`[{"id":"intruder","address":"127.0.0.1:1","state":"alive","incarnation":9}]`)
			}

			hdr := rapid.SampledFrom([]map[string]string{
				{}, {"Authorization": ""}, {"Authorization": "Bearer"}, {"Authorization": "Bearer "}, {"Authorization": tok},
				{"Authorization": "Bearer " + tok + "x"}, {"Authorization": "Bearer x" + tok}, {"Authorization": "Bearer " + tok[:len(tok)-1]},
				{"Authorization": "bearer " + tok}, {"Authorization": "Basic " + tok}, {"Authorization": "Bearer " + strings.ToUpper(tok) + "_"},
				{"X-Sig": "sig-"}, {"X-Sig": tok}, {"Proxy-Authorization": "Bearer " + tok}, {"X-Forwarded-For": "127.0.0.1"}, {"Cookie": "token=" + tok},
				good, good,
			}).Draw(rt, "credential")
			right := reflect.DeepEqual(hdr, good)

			before := dump(contents(web.nodes[0])) + fmt.Sprint(len(web.ms.List()), web.nodes[0].IsDraining())
			status, answer := call(rt, r.method, "http://"+web.addr[0]+p, hdr, body)
			after := dump(contents(web.nodes[0])) + fmt.Sprint(len(web.ms.List()), web.nodes[0].IsDraining())
			c.Log("%s %s %v: %d", r.method, p, hdr, status)

			if !right {
				if status != 401 || before != after || strings.Contains(string(answer), "secret") || strings.Contains(string(answer), "seen") {
					rt.Fatalf("%s %s with %v: status %d, %s; before %s, after %s\n%s", r.method, p, hdr, status, answer, before, after, c.Desc())
				}

				refusedRead, refusedWrite = refusedRead || r.method == "GET", refusedWrite || r.method != "GET"
			} else {
				if status == 401 || status == 403 {
					rt.Fatalf("%s %s with the right credential: status %d\n%s", r.method, p, status, c.Desc())
				}

				admitted = true
			}
		}

		// A transport with the cluster's policy is admitted, one with another
		// or none is refused and has no effect.
		before := dump(contents(web.nodes[0]))

		for _, other := range []backend.DistHTTPAuth{{}, {Token: tok + "0"}, {ClientSign: func(*http.Request) error { return nil }}, {ClientSign: func(r *http.Request) error {
			for k, v := range good {
				r.Header.Set(k, v)
			}

			return errors.New("no signature to be had")
		}}} {
			tr := backend.NewDistHTTPTransportWithAuth(backend.DistHTTPLimits{}, other, resolve)

			_, found, gerr := tr.ForwardGet(bg, "n0", "seen")
			_, merr := tr.FetchMerkle(bg, "n0")
			_, lerr := tr.ListKeys(bg, "n0", "")

			errs := []error{tr.ForwardSet(bg, "n0", &cache.Item{Key: "w", Value: "x", Version: 1}, false), gerr, tr.ForwardRemove(bg, "n0", "seen", false), merr, lerr, tr.Health(bg, "n0"), tr.IndirectHealth(bg, "n0", "n0"), tr.Gossip(bg, "n0", nil)}
			if slices.Contains(errs, nil) || found || dump(contents(web.nodes[0])) != before {
				rt.Fatalf("transport without the credential: %v, found %v\n%s", errs, found, c.Desc())
			}
		}

		tr := backend.NewDistHTTPTransportWithAuth(backend.DistHTTPLimits{}, auth, resolve)
		if _, err := tr.FetchMerkle(bg, "n0"); err != nil {
			rt.Fatalf("transport with the credential: %v\n%s", err, c.Desc())
		}

		// Signing only, without checking, has to be asked for.
		_, err := backend.NewDistMemory(bg, backend.WithDistHTTPAuth(backend.DistHTTPAuth{ClientSign: func(*http.Request) error { return nil }}))
		if !errors.Is(err, sentinel.ErrInsecureAuthConfig) {
			rt.Fatalf("sign-only policy: %v", err)
		}

		c.LabelIf(custom, "custom")
		c.LabelIf(auth.Token == "", "verify function only")
		c.NT(refusedRead && refusedWrite && admitted)
	})
}

func TestC29Malformed(t *testing.T) {
	vh.Run(t, "malformed", "one node and 3-15 malformed peer requests (broken or truncated JSON, wrong types, bad gzip, bad numbers, missing keys, broken globs): a 4xx each, contents and membership unchanged, and the node goes on serving; non-trivial: three kinds or more", 150, func(rt *rapid.T, c *vh.Case) {
		web := newHTTPClu(rt, 1, 1, backend.DistHTTPAuth{}, backend.DistHTTPLimits{CompressionThreshold: 1})
		defer web.stop()

		if err := web.nodes[0].Set(bg, mkItem("seen", "v")); err != nil {
			rt.Fatalf("set: %v", err)
		}

		valid := []byte(`{"key":"new","value":{"a":[1,2,"x"]},"expiration_ms":1000,"version":7,"origin":"o","replicate":false}`)

		var zipped bytes.Buffer

		gz := gzip.NewWriter(&zipped)
		_, _ = gz.Write(valid)
		_ = gz.Close()

		kinds := map[string]bool{}

		for range rapid.IntRange(3, 15).Draw(rt, "requests") {
			method, path, hdr, body := "POST", "/internal/set", map[string]string{"Content-Type": "application/json"}, []byte(nil)

			kind := rapid.SampledFrom([]string{"truncated", "text", "types", "gzip", "query", "gossip"}).Draw(rt, "kind")
			switch kind {
			case "truncated":
				body = valid[:rapid.IntRange(0, len(valid)-1).Draw(rt, "cut")]
			case "text":
				body = []byte(rapid.SampledFrom([]string{"", "null?", "[]", "\"x\"", "<xml/>", "{", "{\"key\":}", "nul"}).Draw(rt, "text"))
			case "types":
				body = []byte(rapid.SampledFrom([]string{`{"key":5}`, `{"key":"new","version":-1}`, `{"key":"new","version":"7"}`, `{"key":"new","expiration_ms":"soon"}`, `{"key":"new","replicate":"yes"}`, `{"key":"new","version":1e400}`}).Draw(rt, "text"))
			case "gzip":
				hdr["Content-Encoding"] = "gzip"
				body = slices.Clone(zipped.Bytes())

				if rapid.Bool().Draw(rt, "cut") {
					body = body[:rapid.IntRange(1, len(body)-9).Draw(rt, "at")]
				} else {
					body = valid
				}
			case "query":
				q := rapid.SampledFrom([][2]string{
					{"GET", "/internal/get"}, {"GET", "/internal/cache/get?key="}, {"DELETE", "/internal/del"}, {"DELETE", "/internal/cache/remove?k=seen"},
					{"DELETE", "/internal/del?key=seen&replicate=maybe"}, {"DELETE", "/internal/del?key=seen&version=-1"}, {"DELETE", "/internal/del?key=seen&version=99x"}, {"DELETE", "/internal/del?key=seen&version=18446744073709551616"},
					{"GET", "/internal/probe"}, {"GET", "/internal/probe?target="}, {"GET", "/internal/keys?cursor=-1"}, {"GET", "/internal/keys?cursor=x"}, {"GET", "/internal/keys?limit=-2"}, {"GET", "/internal/keys?limit=1.5"}, {"GET", "/internal/keys?q=" + url.QueryEscape("[")},
					{"PUT", "/internal/set"}, {"GET", "/internal/del?key=seen"}, {"POST", "/internal/keys"}, {"GET", "/internal/nothing"}, {"GET", "/dist/drain"},
				}).Draw(rt, "query")
				method, path = q[0], q[1]
			case "gossip":
				path = "/internal/gossip"
				body = []byte(rapid.SampledFrom([]string{"", "{}", `[{"id":5}]`, `[{"id":"x","incarnation":-1}]`, `[{"id":"x","incarnation":"1"}]`, "[{", `"x"`}).Draw(rt, "text"))
			}

			kinds[kind] = true

			before := dump(contents(web.nodes[0])) + fmt.Sprint(len(web.ms.List()), web.nodes[0].IsDraining())
			status, answer := call(rt, method, "http://"+web.addr[0]+path, hdr, body)
			after := dump(contents(web.nodes[0])) + fmt.Sprint(len(web.ms.List()), web.nodes[0].IsDraining())
			c.Log("%s %s %q: %d", method, path, body, status)

			if status < 400 || status > 499 || before != after {
				rt.Fatalf("%s %s %q: %d %s; before %s, after %s\n%s", method, path, body, status, answer, before, after, c.Desc())
			}
		}

		tr := backend.NewDistHTTPTransport(time.Second, func(string) (string, bool) { return "http://" + web.addr[0], true })
		if it, ok, err := tr.ForwardGet(context.Background(), "n0", "seen"); err != nil || !ok || norm(it.Value) != `"v"` {
			rt.Fatalf("afterwards: %v %v %v\n%s", it, ok, err, c.Desc())
		}

		c.NT(len(kinds) >= 3)
	})
}

// TestC29Bytes is about keys that are no UTF-8 text, which JSON cannot carry.
func TestC29Bytes(t *testing.T) {
	vh.Run(t, "byte keys", "keys of arbitrary bytes, at least one of them invalid UTF-8, forwarded by set: refused, or held under that key and read back; non-trivial: all", 20, func(rt *rapid.T, c *vh.Case) {
		web := newHTTPClu(rt, 1, 1, backend.DistHTTPAuth{}, backend.DistHTTPLimits{})
		defer web.stop()

		tr := backend.NewDistHTTPTransport(5*time.Second, func(string) (string, bool) { return "http://" + web.addr[0], true })
		key := rapid.StringN(0, 4, -1).Draw(rt, "pre") + rapid.SampledFrom([]string{"\xff", "\xc3", "\xed\xa0\x80", "\x80a"}).Draw(rt, "bad")

		c.Log("%q", key)
		c.NT(true)

		err := tr.ForwardSet(bg, "n0", &cache.Item{Key: key, Value: "v", Version: 3, Origin: "x"}, false)
		if held := contents(web.nodes[0]); err == nil && held[key].val != "v" {
			vh.Known(rt, "non-utf8-key", "set %q: node holds%s", key, dump(held))

			return
		}

		if err == nil {
			if it, ok, err := tr.ForwardGet(bg, "n0", key); err != nil || !ok || it.Key != key {
				vh.Known(rt, "non-utf8-key", "get %q: %v %v %v", key, it, ok, err)
			}
		}
	})
}
