package client_test

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"net/http"
	"slices"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/client"
)

var awkward = []string{
	"a/b", "a b", "a+b", "a%2Fb", "%", "%zz", "?", "#", "a?b=c", "a&b", "..a", "...", "./x", "../x", "a/../b", "//", "/", "a/",
	"key;p=1", "é", "日本", "a\x00b", "\xff\xfe", "\r\n", "keys", "batch", "batch/get", "ttl=1", "\"", "\\", "<>", "~", "a:b", "@", "http://x/y", " ", "\u2028", "😀",
}

// genKey draws any key the path syntax can carry: everything but the empty
// key and the dot segments "." and "..".
func genKey(rt *rapid.T, label string) string {
	k := rapid.OneOf(
		rapid.SampledFrom(awkward),
		rapid.StringMatching(`[a-c]{1,2}`),
		rapid.Custom(func(t *rapid.T) string { return string(rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "b")) }),
		rapid.StringN(1, 20, -1),
		rapid.Custom(func(t *rapid.T) string {
			return rapid.SampledFrom(awkward).Draw(t, "x") + rapid.SampledFrom(awkward).Draw(t, "y")
		}),
		rapid.Custom(func(t *rapid.T) string { return strings.Repeat("k/", rapid.IntRange(100, 1000).Draw(t, "n")) }),
	).Draw(rt, label)
	if k == "" || k == "." || k == ".." {
		return "k" + k
	}

	return k
}

func genValue(rt *rapid.T, label string) []byte {
	return rapid.OneOf(
		rapid.SliceOfN(rapid.Byte(), 0, 40),
		rapid.Just([]byte{}),
		rapid.Custom(func(t *rapid.T) []byte {
			return []byte(rapid.SampledFrom([]string{"null", `{"code":"NOT_FOUND"}`, "aGVsbG8=", "\xff\xfe\x00", "\r\n\r\n", "true", `"x"`}).Draw(t, "s"))
		}),
		rapid.Custom(func(t *rapid.T) []byte {
			return bytes.Repeat([]byte{rapid.Byte().Draw(t, "b")}, rapid.IntRange(0, 70000).Draw(t, "n"))
		}),
	).Draw(rt, label)
}

func genTTL(rt *rapid.T, label string) time.Duration {
	return rapid.OneOf(
		rapid.SampledFrom([]time.Duration{0, 0, -1, -time.Hour, time.Duration(math.MinInt64), 1, 999, time.Microsecond, 1500 * time.Microsecond, time.Millisecond, 999 * time.Microsecond, time.Second, 90 * time.Minute, time.Duration(math.MaxInt64)}),
		rapid.Custom(func(t *rapid.T) time.Duration { return time.Duration(rapid.Int64().Draw(t, "ns")) }),
		rapid.Custom(func(t *rapid.T) time.Duration {
			return time.Duration(rapid.Int64Range(1, 1e6).Draw(t, "ms")) * time.Millisecond
		}),
	).Draw(rt, label)
}

func plain(k string) bool {
	for _, r := range k {
		if !(r >= 'a' && r <= 'z') {
			return false
		}
	}

	return true
}

// clients returns n clients over the same reference server.
func clients(rt *rapid.T, net *memNet, n int) []*client.Client {
	out := []*client.Client{}

	for i := range n {
		seeds := []string{"http://srv:1"}
		if i > 0 && rapid.Bool().Draw(rt, "more") {
			seeds = append(seeds, "http://srv:2", "http://gone:3")
		}

		if rapid.IntRange(0, 3).Draw(rt, "prefix") == 0 {
			seeds = []string{"https://srv:1/"}
		}

		cl, err := client.New(seeds, client.WithHTTPClient(&http.Client{Transport: net}))
		if err != nil {
			rt.Fatalf("New: %v", err)
		}

		out = append(out, cl)
	}

	return out
}

func sameItem(it *client.Item, key string, want refItem, ref *refServer) string {
	switch {
	case it == nil:
		return "nil item"
	case it.Key != key:
		return fmt.Sprintf("key %q, want %q", it.Key, key)
	case !bytes.Equal(it.Value, want.Value):
		return fmt.Sprintf("value %q, want %q", it.Value, want.Value)
	case it.Version != want.Version || it.Origin != ref.origin || it.Node != ref.node || !slices.Equal(it.Owners, ref.owners) || it.LastUpdated != want.LastUpdated:
		return fmt.Sprintf("metadata %+v, server has %+v", *it, want)
	}

	ms, exp := int64(0), ""
	if want.TTL > 0 {
		ms, exp = want.TTL.Milliseconds(), want.ExpiresAt
	}

	if it.TTLMs != ms || it.ExpiresAt != exp {
		return fmt.Sprintf("ttl %d %q, server reported %d %q", it.TTLMs, it.ExpiresAt, ms, exp)
	}

	return ""
}

func TestC09SingleKey(t *testing.T) {
	rule := "histories of 1-25 Set/Get/GetItem/Delete/Identity/Can calls by 1-3 clients over arbitrary-byte keys, values and TTLs against a reference server; non-trivial = a key outside [a-z] was written and read back"
	vh.Run(t, "single key", rule, 700, func(rt *rapid.T, c *vh.Case) {
		net, ref := newNet(), newRef()
		net.set("srv:1", ref.serve)
		net.set("srv:2", ref.serve)

		ref.id = rapid.String().Draw(rt, "id")
		ref.scopes = rapid.SliceOfNDistinct(rapid.OneOf(rapid.SampledFrom([]string{"read", "write", "admin"}), rapid.SampledFrom(awkward[:12]), rapid.SampledFrom([]string{"é", "日本", "key;p=1", "a+b", "a&b", "a%2Fb"})), 0, 5, rapid.ID[string]).Draw(rt, "scopes")
		ref.caps = rapid.SliceOfN(rapid.SampledFrom([]string{"fleet.drain", "admin", "cache", "x.y.z"}), 0, 3).Draw(rt, "caps")
		ref.encoding = rapid.SampledFrom([]string{"base64", "base64", "base64", "", "raw"}).Draw(rt, "encoding")
		ref.owners = rapid.SliceOfN(rapid.StringN(0, 5, -1), 0, 3).Draw(rt, "owners")
		ref.node, ref.origin = rapid.StringN(0, 6, -1).Draw(rt, "node"), rapid.StringN(0, 6, -1).Draw(rt, "origin")
		ref.version = rapid.OneOf(rapid.Uint64Range(0, 10), rapid.Uint64Range(1<<53, 1<<63)).Draw(rt, "v0")

		cls := clients(rt, net, rapid.IntRange(1, 3).Draw(rt, "clients"))
		keys := []string{}

		for i := range rapid.IntRange(1, 4).Draw(rt, "nkeys") {
			k := genKey(rt, fmt.Sprintf("key%d", i))
			// envelopes are JSON, which has no arbitrary bytes in keys
			keys = append(keys, k)
		}

		model := map[string]refItem{}

		for range rapid.IntRange(1, 25).Draw(rt, "ops") {
			cl := rapid.SampledFrom(cls).Draw(rt, "cl")
			key := rapid.SampledFrom(keys).Draw(rt, "key")

			want, ok := model[key]

			switch op := rapid.SampledFrom([]string{"set", "set", "get", "get", "item", "del", "me", "can"}).Draw(rt, "op"); op {
			case "set":
				v, ttl := genValue(rt, "v"), genTTL(rt, "ttl")
				in := bytes.Clone(v)

				if err := cl.Set(bg, key, in, ttl); err != nil {
					rt.Fatalf("Set(%q, %q, %v): %v", key, v, ttl, err)
				}

				if !bytes.Equal(in, v) {
					rt.Fatalf("Set changed the caller's value")
				}

				got, stored := ref.items[key]
				if !stored {
					rt.Fatalf("Set(%q) stored under %q", key, ref.keys())
				}

				if !bytes.Equal(got.Value, v) {
					rt.Fatalf("Set(%q, %.60q) stored %.60q", key, v, got.Value)
				}

				wantTTL := max(ttl, 0)
				if got.TTL != wantTTL {
					rt.Fatalf("Set(%q, ttl %v) stored ttl %v", key, ttl, got.TTL)
				}

				model[key] = got
				c.Log("set %q %d bytes ttl %v", key, len(v), ttl)
			case "get":
				b, err := cl.Get(bg, key)
				c.Log("get %q", key)

				if !ok {
					if !errors.Is(err, client.ErrNotFound) {
						rt.Fatalf("Get(absent %q) = %q, %v", key, b, err)
					}

					break
				}

				if err != nil || !bytes.Equal(b, want.Value) {
					rt.Fatalf("Get(%q) = %.60q, %v; stored %.60q", key, b, err, want.Value)
				}

				c.NT(!plain(key))
				c.LabelIf(!utf8.ValidString(key), "non-UTF-8 key")
			case "item":
				it, err := cl.GetItem(bg, key)
				c.Log("item %q", key)

				if !ok {
					if !errors.Is(err, client.ErrNotFound) {
						rt.Fatalf("GetItem(absent %q) = %+v, %v", key, it, err)
					}

					break
				}

				if err != nil {
					rt.Fatalf("GetItem(%q): %v", key, err)
				}

				k := key
				if !utf8.ValidString(key) {
					k = it.Key // JSON replaces invalid bytes in the reported key
				}

				if ref.encoding == "raw" { // JSON text as it stands
					want.Value = []byte(strings.ToValidUTF8(string(want.Value), "\ufffd"))
					it.Value = []byte(strings.ToValidUTF8(string(it.Value), "\ufffd"))

					if strings.ContainsRune(string(want.Value), '\ufffd') { // not representable
						want.Value = it.Value
					}
				}

				if d := sameItem(it, k, want, ref); d != "" {
					rt.Fatalf("GetItem(%q): %s", key, d)
				}

				c.NT(!plain(key))
			case "del":
				if err := cl.Delete(bg, key); err != nil {
					rt.Fatalf("Delete(%q): %v", key, err)
				}

				delete(model, key)
				c.Log("del %q", key)
			case "me":
				id, err := cl.Identity(bg)
				if err != nil {
					rt.Fatalf("Identity: %v", err)
				}

				if id.ID != ref.id || !slices.Equal(id.Scopes, ref.scopes) || len(id.Capabilities) != len(ref.scopes)+len(ref.caps) || !slices.Equal(id.Capabilities[len(ref.scopes):], ref.caps) {
					rt.Fatalf("Identity %+v, server says %q %q", id, ref.id, ref.scopes)
				}

				for _, s := range []string{"read", "write", "admin", "rea", "readx", ""} {
					if id.HasCapability("cache."+s) != slices.Contains(ref.scopes, s) {
						rt.Fatalf("HasCapability(cache.%s) wrong for %q", s, ref.scopes)
					}
				}

				for _, s := range []string{"fleet.drain", "admin", "cache", "x.y.z"} {
					if id.HasCapability(s) != slices.Contains(ref.caps, s) {
						rt.Fatalf("HasCapability(%s) wrong for %q", s, ref.caps)
					}
				}

				c.Log("me")
			case "can":
				capa := rapid.OneOf(rapid.SampledFrom([]string{"cache.read", "cache.write", "cache.admin"}), rapid.SampledFrom(awkward), rapid.Map(rapid.SampledFrom(awkward), func(s string) string { return "cache." + s }), rapid.Map(rapid.SampledFrom(append([]string{"read"}, ref.scopes...)), func(s string) string { return "cache." + s })).Draw(rt, "cap")
				got, err := cl.Can(bg, capa)
				c.Log("can %q", capa)

				if !strings.HasPrefix(capa, "cache.") {
					if !errors.Is(err, client.ErrBadRequest) || got {
						rt.Fatalf("Can(%q) = %v, %v", capa, got, err)
					}

					break
				}

				if err != nil || got != slices.Contains(ref.scopes, strings.TrimPrefix(capa, "cache.")) {
					rt.Fatalf("Can(%q) = %v, %v with %q", capa, got, err, ref.scopes)
				}
			}

			if len(ref.items) != len(model) {
				rt.Fatalf("server holds %q, %d keys expected", ref.keys(), len(model))
			}

			for k, m := range model {
				if got := ref.items[k]; got.Version != m.Version {
					rt.Fatalf("%q changed by an operation on %q", k, key)
				}
			}
		}
	})
}

// TestC09BadEnvelope: a response that does not carry a readable item is an
// error, never a wrong or empty item.
func TestC09BadEnvelope(t *testing.T) {
	rule := "GetItem answers with damaged base64, truncated JSON or foreign JSON; non-trivial = all"
	vh.Run(t, "bad envelope", rule, 300, func(rt *rapid.T, c *vh.Case) {
		net := newNet()
		body := rapid.OneOf(
			rapid.Map(rapid.SampledFrom([]string{"*", "a", "ab", "abc", "YQ=", "YQ==YQ==", "Y Q==", "YQ", "é"}), func(s string) string {
				return `{"key":"k","value":"` + s + `","value_encoding":"base64","version":1,"node":"n"}`
			}),
			rapid.SampledFrom([]string{"", "{", `{"key":"k","value":"YQ=="`, "[]", `"x"`, "12", `{"key":3}`, `{"value":{}}`, "<html>"}),
		).Draw(rt, "body")
		c.Log("%s", body)
		c.NT(true)

		net.set("srv:1", func(*http.Request, []byte) (*http.Response, error) {
			return rawResp(200, []byte(body), "application/json"), nil
		})

		cl := clients(rt, net, 1)[0]
		if it, err := cl.GetItem(bg, "k"); err == nil {
			rt.Fatalf("GetItem of %s = %+v without error", body, *it)
		}

		if id, err := cl.Identity(bg); err == nil && !strings.HasPrefix(body, `{"key":"k","value":"`) && !strings.HasPrefix(body, `{"key":3`) && !strings.HasPrefix(body, `{"value":{`) {
			rt.Fatalf("Identity of %s = %+v without error", body, *id)
		}
	})
}

// TestC09Large: values of megabytes survive the single-key and the batch
// calls whole.
func TestC09Large(t *testing.T) {
	rule := "one value of up to 12 MB written by Set and read back by Get, GetItem and BatchGet, byte for byte; non-trivial = above 1 MB"
	vh.Run(t, "large", rule, 12, func(rt *rapid.T, c *vh.Case) {
		net, ref := newNet(), newRef()
		net.set("srv:1", ref.serve)

		cl := clients(rt, net, 1)[0]
		n := rapid.SampledFrom([]int{1<<16 + 1, 1<<20 + 1, 4<<20 + 3, 8<<20 + 1, 12 << 20}).Draw(rt, "n")
		val := make([]byte, n)
		x := rapid.Uint32().Draw(rt, "fill") | 1

		for i := range val {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			val[i] = byte(x)
		}

		c.Log("%d bytes", n)
		c.NT(n > 1<<20)

		if err := cl.Set(bg, "k", val, 0); err != nil || !bytes.Equal(ref.items["k"].Value, val) {
			rt.Fatalf("Set of %d bytes: %v, the server holds %d", n, err, len(ref.items["k"].Value))
		}

		if got, err := cl.Get(bg, "k"); err != nil || !bytes.Equal(got, val) {
			rt.Fatalf("Get of %d bytes: %d, %v", n, len(got), err)
		}

		if it, err := cl.GetItem(bg, "k"); err != nil || !bytes.Equal(it.Value, val) {
			rt.Fatalf("GetItem of %d bytes: %v", n, err)
		}

		if res, err := cl.BatchGet(bg, []string{"k"}); err != nil || len(res) != 1 || !res[0].Found || !bytes.Equal(res[0].Item.Value, val) {
			rt.Fatalf("BatchGet of %d bytes: %v", n, err)
		}
	})
}
