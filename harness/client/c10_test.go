package client_test

import (
	"bytes"
	"errors"
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/client"
)

// jsonKeys draws keys a JSON body can carry, with repeats.
func jsonKeys(rt *rapid.T) []string {
	return rapid.SliceOfN(rapid.OneOf(
		rapid.SampledFrom([]string{"a", "b", "", ".", "..", "a/b", "%2F", "\"", "\\u0000", "\x00", "é", "日本", "<&>", "\u2028", "😀"}),
		rapid.StringN(0, 10, -1),
	), 1, 6).Draw(rt, "keys")
}

func ttlOnWire(d time.Duration) (time.Duration, time.Duration) {
	if d <= 0 {
		return 0, 0
	}

	// millisecond resolution, but a positive TTL stays positive
	lo := d.Truncate(time.Millisecond)
	hi := lo + time.Millisecond

	return max(lo, time.Millisecond), hi
}

// "-" stands for a failure described by its message alone
var failCodes = []string{"BAD_REQUEST", "DRAINING", "INTERNAL", "SOMETHING_NEW", "-"}

func TestC10Batch(t *testing.T) {
	rule := "histories of 1-12 batch put/get/delete calls (0-8 items, repeated keys, per-item failures of each code) mirrored one by one on a second reference server through the single-key semantics; non-trivial = a batch of at least two items with mixed outcomes"
	vh.Run(t, "batch", rule, 900, func(rt *rapid.T, c *vh.Case) {
		net, ref, twin := newNet(), newRef(), newRef()
		ref.owners = rapid.SliceOfN(rapid.StringN(0, 5, -1), 1, 3).Draw(rt, "owners")
		ref.node = rapid.StringN(0, 6, -1).Draw(rt, "node")
		twin.owners, twin.node = ref.owners, ref.node
		net.set("srv:1", ref.serve)
		net.set("srv:2", ref.serve)

		cl := clients(rt, net, 2)[1]
		keys := jsonKeys(rt)

		for _, k := range keys {
			if rapid.IntRange(0, 4).Draw(rt, "fail") == 0 {
				ref.failWith[k] = rapid.SampledFrom(failCodes).Draw(rt, "code")
			}
		}

		checkErr := func(what, key string, ok bool, se *client.StatusError) {
			code := ref.failWith[key]
			if code == "" {
				if !ok || se != nil {
					rt.Fatalf("%s %q: ok=%v err=%v, server accepted it", what, key, ok, se)
				}

				return
			}

			if ok || se == nil {
				rt.Fatalf("%s %q: ok=%v err=%v, server answered %s", what, key, ok, se, code)
			}

			if se.Code != strings.Trim(code, "-") || se.Message != "forced "+code || se.HTTPStatus != codeStatus(code) {
				rt.Fatalf("%s %q: error %+v for code %s", what, key, *se, code)
			}

			for target, is := range map[error]bool{
				client.ErrBadRequest: code == "BAD_REQUEST", client.ErrDraining: code == "DRAINING", client.ErrInternal: code == "INTERNAL",
				client.ErrNotFound: false, client.ErrUnauthorized: false, client.ErrForbidden: false,
			} {
				if errors.Is(se, target) != is {
					rt.Fatalf("%s %q: code %s, Is(%v) = %v", what, key, code, target, !is)
				}
			}
		}

		for range rapid.IntRange(1, 12).Draw(rt, "ops") {
			batch := rapid.SliceOfN(rapid.SampledFrom(keys), 0, 8).Draw(rt, "batch")
			outcomes := map[bool]bool{}

			switch rapid.SampledFrom([]string{"put", "put", "get", "get", "del"}).Draw(rt, "op") {
			case "put":
				items := []client.BatchSetItem{}
				for _, k := range batch {
					items = append(items, client.BatchSetItem{Key: k, Value: genValue(rt, "v"), TTL: genTTL(rt, "ttl")})
				}

				c.Log("put %q", batch)

				keep := slices.Clone(items)
				res, err := cl.BatchSet(bg, items)

				if err != nil || len(res) != len(items) {
					rt.Fatalf("BatchSet of %d: %d results, %v", len(items), len(res), err)
				}

				for i, it := range keep {
					if res[i].Key != it.Key {
						rt.Fatalf("BatchSet result %d is for %q, want %q", i, res[i].Key, it.Key)
					}

					checkErr("BatchSet", it.Key, res[i].Stored, res[i].Err)
					outcomes[res[i].Stored] = true

					if res[i].Stored {
						if res[i].Bytes != len(it.Value) || !slices.Equal(res[i].Owners, ref.owners) {
							rt.Fatalf("BatchSet result %+v for %d bytes", res[i], len(it.Value))
						}

						twin.put(it.Key, it.Value, max(it.TTL, 0))
					}
				}
			case "get":
				c.Log("get %q", batch)

				res, err := cl.BatchGet(bg, batch)
				if err != nil || len(res) != len(batch) {
					rt.Fatalf("BatchGet of %d: %d results, %v", len(batch), len(res), err)
				}

				for i, k := range batch {
					want, ok := ref.items[k]
					if res[i].Key != k || res[i].Found != ok {
						rt.Fatalf("BatchGet result %d: %+v, want %q found=%v", i, res[i], k, ok)
					}

					outcomes[ok] = true

					if !ok {
						if res[i].Item != nil {
							rt.Fatalf("BatchGet(%q): absent with an item", k)
						}

						continue
					}

					if d := sameItem(res[i].Item, k, want, ref); d != "" {
						rt.Fatalf("BatchGet(%q): %s", k, d)
					}
				}
			case "del":
				c.Log("del %q", batch)

				res, err := cl.BatchDelete(bg, batch)
				if err != nil || len(res) != len(batch) {
					rt.Fatalf("BatchDelete of %d: %d results, %v", len(batch), len(res), err)
				}

				for i, k := range batch {
					if res[i].Key != k {
						rt.Fatalf("BatchDelete result %d is for %q, want %q", i, res[i].Key, k)
					}

					checkErr("BatchDelete", k, res[i].Deleted, res[i].Err)
					outcomes[res[i].Deleted] = true

					if res[i].Deleted {
						if !slices.Equal(res[i].Owners, ref.owners) {
							rt.Fatalf("BatchDelete owners %q", res[i].Owners)
						}

						delete(twin.items, k)
					}
				}
			}

			if len(batch) == 0 && len(net.take()) > 0 {
				rt.Fatalf("empty batch sent a request")
			}

			net.take()
			c.NT(len(outcomes) == 2)
			c.LabelIf(len(outcomes) == 2, "mixed outcomes")

			if got, want := fmt.Sprintf("%q", ref.keys()), fmt.Sprintf("%q", twin.keys()); got != want {
				rt.Fatalf("after the batch the server holds %s, the same single operations leave %s", got, want)
			}

			for k, it := range twin.items {
				got := ref.items[k]
				lo, hi := ttlOnWire(it.TTL)

				if !bytes.Equal(got.Value, it.Value) || got.Version != it.Version || got.TTL < lo || got.TTL > hi {
					if it.TTL > time.Duration(1<<62) && bytes.Equal(got.Value, it.Value) {
						continue
					}

					rt.Fatalf("%q holds %.40q v%d ttl %v, single operations give %.40q v%d ttl %v", k, got.Value, got.Version, got.TTL, it.Value, it.Version, it.TTL)
				}
			}
		}
	})
}

// TestC10Large: batches of thousands of items have as many results, each
// under its own key, wherever the failing ones are.
func TestC10Large(t *testing.T) {
	rule := "one put, get and delete batch of up to 3000 keys, some failing, some repeated; non-trivial = more than 100 items"
	vh.Run(t, "large", rule, 80, func(rt *rapid.T, c *vh.Case) {
		net, ref := newNet(), newRef()
		net.set("srv:1", ref.serve)

		cl := clients(rt, net, 1)[0]
		n := rapid.OneOf(rapid.SampledFrom([]int{100, 101, 128, 129, 256, 257, 500, 501, 512, 513, 1000, 1001, 1024, 1025}), rapid.IntRange(2, 3000)).Draw(rt, "n")
		every := rapid.IntRange(2, n).Draw(rt, "every")
		mod := rapid.IntRange(max(1, n/2), n).Draw(rt, "mod")
		keys := make([]string, n)
		items := make([]client.BatchSetItem, n)
		last := map[string]string{}

		for i := range n {
			keys[i] = fmt.Sprintf("k%d", i%mod)
			if i%every == every-1 {
				ref.failWith[keys[i]] = "INTERNAL"
			}
		}

		for i, k := range keys {
			v := fmt.Sprintf("v%d", i)
			items[i] = client.BatchSetItem{Key: k, Value: []byte(v)}

			if ref.failWith[k] == "" {
				last[k] = v
			}
		}

		c.Log("n=%d every=%d mod=%d", n, every, mod)
		c.NT(n > 100)

		put, err := cl.BatchSet(bg, items)
		if err != nil || len(put) != n {
			rt.Fatalf("BatchSet of %d: %d results, %v", n, len(put), err)
		}

		got, err := cl.BatchGet(bg, keys)
		if err != nil || len(got) != n {
			rt.Fatalf("BatchGet of %d: %d results, %v", n, len(got), err)
		}

		held := len(ref.items)
		if held != len(last) {
			rt.Fatalf("the server holds %d keys, %d were stored", held, len(last))
		}

		// every second key is deleted
		gone := []string{}
		for i := 0; i < n; i += 2 {
			gone = append(gone, keys[i])
		}

		del, err := cl.BatchDelete(bg, gone)
		if err != nil || len(del) != len(gone) {
			rt.Fatalf("BatchDelete of %d: %d results, %v", len(gone), len(del), err)
		}

		for i, k := range keys {
			v, ok := last[k]

			switch {
			case put[i].Key != k || put[i].Stored != ok || (put[i].Err == nil) != ok:
				rt.Fatalf("BatchSet result %d of %q: %+v, stored=%v", i, k, put[i], ok)
			case got[i].Key != k || got[i].Found != ok || ok && string(got[i].Item.Value) != v:
				rt.Fatalf("BatchGet result %d of %q: %+v, want %q %v", i, k, got[i], v, ok)
			}
		}

		for i, k := range gone {
			fails := ref.failWith[k] != ""
			if del[i].Key != k || del[i].Deleted == fails || (del[i].Err == nil) == fails {
				rt.Fatalf("BatchDelete result %d of %q: %+v, failing=%v", i, k, del[i], fails)
			}

			delete(last, k)
		}

		if len(ref.items) != len(last) {
			rt.Fatalf("the server holds %d keys after the deletes, want %d", len(ref.items), len(last))
		}
	})
}
