package rest_test

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/crypto/bcrypt"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/client"
)

// clientRefresh is the recorded finding: a server does not serve
// /cluster/members on the listener clients talk to.
const clientRefresh = "client-refresh"

// possible is what a key may hold: the last acknowledged value, and those of
// writes whose outcome the caller was not told since.
type possible map[string]bool

const absent = "\x00absent"

type op40 struct {
	kind  string
	keys  []string
	vals  []string
	pause time.Duration
	fault string // main worker: "", kill, term, restart
}

// track is one goroutine's keys and what they may hold.
type track struct {
	model map[string]possible
	fail  string
	errs  int
}

func (tr *track) set(k, v string, err error) {
	if err == nil {
		tr.model[k] = possible{v: true}

		return
	}

	tr.model[k][v] = true
}

func (tr *track) failf(format string, args ...any) {
	if tr.fail == "" {
		tr.fail = fmt.Sprintf(format, args...)
	}
}

// TestC40Live: the client against live servers that come and go.
func TestC40Live(t *testing.T) {
	hash, err := bcrypt.GenerateFromPassword([]byte("s3cret:x"), bcrypt.MinCost)
	if err != nil {
		t.Fatalf("harness: %v", err)
	}

	vh.Run(t, "client-live", "3 server processes (open, one token, or an auth file with tokens and users), replication 2 or 3; a client that knows two or three of them, a dead address and an address that answers 503 in any order; 3 goroutines with keys of their own set, get, batch and delete through it while one server is killed or stopped with SIGTERM and later started again. While the cluster is whole every call succeeds and shows exactly what its caller wrote; while it is not, calls succeed or end with ErrAllEndpointsFailed and show only values that were written; afterwards all is as the callers were told. Wrong credentials and missing scopes end with their error and change nothing; a topology refresh shows the API addresses of the live servers. Non-trivial: always", 4, func(rt *rapid.T, c *vh.Case) {
		mode := rapid.SampledFrom([]string{"open", "token", "file"}).Draw(rt, "auth")
		repl := rapid.IntRange(2, 3).Draw(rt, "replication")

		var env []string

		opts := map[string]client.Option{}
		reader := client.Option(nil)

		switch mode {
		case "token":
			env = []string{"HYPERCACHE_AUTH_TOKEN=tøken"}
			opts["default"] = client.WithBearerAuth("tøken")
		case "file":
			y := fmt.Sprintf("allow_basic_without_tls: true\ntokens:\n- {id: peer, token: peer-tok, scopes: [read, write, admin]}\n- {id: app, token: app-tok, scopes: [read, write]}\n- {id: ro, token: ro-tok, scopes: [read]}\nusers:\n- {username: bob, id: bob, password_bcrypt: '%s', scopes: [write, read]}\n", hash)
			f := filepath.Join(os.Getenv("TMPDIR"), fmt.Sprintf("c40-%d.yaml", time.Now().UnixNano()))

			if err := os.WriteFile(f, []byte(y), 0o600); err != nil {
				rt.Fatalf("harness: %v", err)
			}

			defer os.Remove(f)

			env = []string{"HYPERCACHE_AUTH_TOKEN=peer-tok", "HYPERCACHE_AUTH_CONFIG=" + f}
			opts["app"] = client.WithBearerAuth("app-tok")
			opts["bob"] = client.WithBasicAuth("bob", "s3cret:x")
			reader = client.WithBearerAuth("ro-tok")
		default:
			opts["anonymous"] = client.WithLogger(nil)
		}

		g := startSeeded(rt, 3, repl, rapid.SampledFrom([]string{"id@addr", "addr"}).Draw(rt, "seeds"), env...)
		defer g.stop()

		lb := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) {
			w.WriteHeader(http.StatusServiceUnavailable)
			_, _ = w.Write([]byte("<html>no backend</html>"))
		}))
		defer lb.Close()

		known := rapid.IntRange(2, 3).Draw(rt, "known")
		pool := []string{}

		for _, p := range g.nodes[:known] {
			pool = append(pool, "http://"+p.api)
		}

		if rapid.Bool().Draw(rt, "dead address") {
			pool = append(pool, "http://"+vh.FreeAddr())
		}

		if rapid.Bool().Draw(rt, "503 address") {
			pool = append(pool, lb.URL+"/")
		}

		pool = rapid.Permutation(pool).Draw(rt, "order")
		who := slices.Sorted(func(yield func(string) bool) {
			for k := range opts {
				if !yield(k) {
					return
				}
			}
		})
		as := rapid.SampledFrom(who).Draw(rt, "as")
		c.Log("%s as %s, replication %d, client knows %v", mode, as, repl, pool)
		c.Label(mode)

		dial := func(o client.Option) *client.Client {
			cl, err := client.New(pool, client.WithHTTPClient(&http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{}}), o)
			if err != nil {
				rt.Fatalf("client.New: %v", err)
			}

			return cl
		}

		cl := dial(opts[as])
		defer cl.Close()

		// who the caller is, and who it is not
		id, err := cl.Identity(bg)
		if err != nil || id.ID != as {
			rt.Fatalf("identity of %s: %+v, %v", as, id, err)
		}

		if err := cl.Set(bg, "guarded", []byte("g"), 0); err != nil {
			rt.Fatalf("Set: %v", err)
		}

		if mode != "open" {
			for name, o := range map[string]client.Option{"nothing": client.WithLogger(nil), "a wrong token": client.WithBearerAuth("app-to"), "a wrong password": client.WithBasicAuth("bob", "s3cret")} {
				x := dial(o)

				if err := x.Set(bg, "guarded", []byte("stolen"), 0); !errors.Is(err, client.ErrUnauthorized) {
					rt.Fatalf("Set with %s: %v", name, err)
				}

				if v, err := x.Get(bg, "guarded"); !errors.Is(err, client.ErrUnauthorized) {
					rt.Fatalf("Get with %s: %q, %v", name, v, err)
				}

				_ = x.Close()
			}
		}

		if reader != nil {
			x := dial(reader)

			if err := x.Delete(bg, "guarded"); !errors.Is(err, client.ErrForbidden) {
				rt.Fatalf("Delete as a reader: %v", err)
			}

			if ok, err := x.Can(bg, "cache.write"); ok || err != nil {
				rt.Fatalf("a reader can write: %v, %v", ok, err)
			}

			if v, err := x.Get(bg, "guarded"); err != nil || string(v) != "g" {
				rt.Fatalf("Get as a reader: %q, %v", v, err)
			}

			_ = x.Close()
		}

		if v, err := cl.Get(bg, "guarded"); err != nil || string(v) != "g" {
			rt.Fatalf("after the refused calls: %q, %v", v, err)
		}

		var live []string
		for _, p := range g.nodes {
			live = append(live, "http://"+p.api)
		}

		err = cl.RefreshTopology(bg)
		got := cl.Endpoints()

		sort.Strings(live)
		sort.Strings(got)

		switch {
		case errors.Is(err, client.ErrNotFound) && len(got) == len(pool):
			vh.Known(rt, clientRefresh, "refresh against live servers: %v", err)
		case err != nil || !slices.Equal(got, live):
			rt.Fatalf("refresh against live servers: %v, endpoints %v, servers at %v", err, got, live)
		}

		// the histories
		tracks := make([]*track, 3)
		plans := make([][]op40, 3)

		for w := range plans {
			tr := &track{model: map[string]possible{}}
			tracks[w] = tr

			for i := range 6 {
				tr.model[fmt.Sprintf("w%d %d/ü", w, i)] = possible{absent: true}
			}

			keys := make([]string, 0, 6)
			for k := range tr.model {
				keys = append(keys, k)
			}

			sort.Strings(keys)

			for i := range rapid.IntRange(10, 24).Draw(rt, "ops") {
				o := op40{kind: rapid.SampledFrom([]string{"set", "set", "get", "get", "item", "del", "bset", "bget", "bdel"}).Draw(rt, "op"), pause: time.Duration(rapid.IntRange(0, 60).Draw(rt, "pause")) * time.Millisecond}
				n := 1

				if o.kind[0] == 'b' {
					n = rapid.IntRange(1, 4).Draw(rt, "size")
				}

				o.keys = rapid.Permutation(keys).Draw(rt, "keys")[:n]
				for j := range o.keys {
					o.vals = append(o.vals, fmt.Sprintf("%d-%d-%d%s", w, i, j, strings.Repeat("x", rapid.SampledFrom([]int{0, 10, 3000}).Draw(rt, "pad"))))
				}

				plans[w] = append(plans[w], o)
			}

			c.Log("worker %d: %v", w, plans[w])
		}

		run := func(w int, whole bool) {
			tr := tracks[w]
			bad := func(what string, err error) bool {
				if err == nil {
					return false
				}

				tr.errs++

				if whole || !errors.Is(err, client.ErrAllEndpointsFailed) {
					tr.failf("%s: %v", what, err)
				}

				return true
			}
			seen := func(what, k string, found bool, v []byte) {
				s := string(v)
				if !found {
					s = absent
				}

				p := tr.model[k]
				if whole && !p[s] {
					tr.failf("%s %q: found %v %q, it may hold %v", what, k, found, trunc(v), p)
				}

				if !whole && found && !strings.HasPrefix(s, fmt.Sprintf("%d-", w)) {
					tr.failf("%s %q: %q was never written", what, k, trunc(v))
				}
			}

			for _, o := range plans[w] {
				time.Sleep(o.pause)

				k := o.keys[0]

				switch o.kind {
				case "set":
					err := cl.Set(bg, k, []byte(o.vals[0]), 0)
					bad("Set "+k, err)
					tr.set(k, o.vals[0], err)
				case "del":
					err := cl.Delete(bg, k)
					bad("Delete "+k, err)
					tr.set(k, absent, err)
				case "get":
					v, err := cl.Get(bg, k)
					if errors.Is(err, client.ErrNotFound) {
						seen("Get", k, false, nil)
					} else if !bad("Get "+k, err) {
						seen("Get", k, true, v)
					}
				case "item":
					it, err := cl.GetItem(bg, k)
					if errors.Is(err, client.ErrNotFound) {
						seen("GetItem", k, false, nil)
					} else if !bad("GetItem "+k, err) {
						seen("GetItem", k, true, it.Value)

						if it.Key != k {
							tr.failf("GetItem %q shows key %q", k, it.Key)
						}
					}
				case "bset":
					var items []client.BatchSetItem
					for j, k := range o.keys {
						items = append(items, client.BatchSetItem{Key: k, Value: []byte(o.vals[j])})
					}

					res, err := cl.BatchSet(bg, items)
					if bad("BatchSet", err) || len(res) != len(o.keys) {
						if err == nil {
							tr.failf("BatchSet of %d items: %d results", len(o.keys), len(res))
						}

						res = nil
					}

					for j, k := range o.keys {
						e := err

						if res != nil && !res[j].Stored {
							e = errors.New("not stored")

							if whole || res[j].Err == nil {
								tr.failf("BatchSet %q: %+v", k, res[j])
							}
						}

						tr.set(k, o.vals[j], e)
					}
				case "bdel":
					res, err := cl.BatchDelete(bg, o.keys)
					bad("BatchDelete", err)

					for j, k := range o.keys {
						e := err

						if err == nil && (len(res) != len(o.keys) || res[j].Key != k) {
							tr.failf("BatchDelete of %q: %+v", o.keys, res)

							break
						}

						if err == nil && !res[j].Deleted {
							e = errors.New("not deleted")

							if whole {
								tr.failf("BatchDelete %q: %+v", k, res[j])
							}
						}

						tr.set(k, absent, e)
					}
				case "bget":
					res, err := cl.BatchGet(bg, o.keys)
					if bad("BatchGet", err) {
						break
					}

					for j, k := range o.keys {
						if len(res) != len(o.keys) || res[j].Key != k || res[j].Found != (res[j].Item != nil) {
							tr.failf("BatchGet of %q: %+v", o.keys, res)

							break
						}

						if res[j].Found {
							seen("BatchGet", k, true, res[j].Item.Value)
						} else {
							seen("BatchGet", k, false, nil)
						}
					}
				}
			}
		}

		phase := func(label string, whole bool, during func()) {
			var wg sync.WaitGroup

			for w := range plans {
				wg.Go(func() { run(w, whole) })
			}

			if during != nil {
				during()
			}

			wg.Wait()

			for w, tr := range tracks {
				if tr.fail != "" {
					rt.Fatalf("%s: worker %d: %s", label, w, tr.fail)
				}
			}
		}

		agree := func(label string) {
			why := ""

			if !vh.Eventually(20*time.Second, func() bool {
				why = ""

				for _, tr := range tracks {
					for k, p := range tr.model {
						v, err := cl.Get(bg, k)
						s := string(v)

						if errors.Is(err, client.ErrNotFound) {
							s, err = absent, nil
						}

						if err != nil || !p[s] {
							why = fmt.Sprintf("%q: %q, %v; it may hold %v", k, trunc([]byte(s)), err, p)

							return false
						}
					}
				}

				return true
			}) {
				rt.Fatalf("%s: %s", label, why)
			}
		}

		phase("whole cluster", true, nil)
		agree("whole cluster")

		down := rapid.IntRange(0, 2).Draw(rt, "down")
		graceful := rapid.Bool().Draw(rt, "graceful")
		after := time.Duration(rapid.IntRange(0, 400).Draw(rt, "after")) * time.Millisecond

		c.Log("%s goes down (graceful %v) after %v", g.nodes[down].id, graceful, after)
		c.LabelIf(graceful, "SIGTERM")
		c.LabelIf(!graceful, "SIGKILL")

		phase("while a server goes down", false, func() {
			time.Sleep(after)

			if graceful {
				if err, ok := g.nodes[down].term(20 * time.Second); !ok || err != nil {
					tracks[0].failf("%s after SIGTERM: exited %v, %v: %s", g.nodes[down].id, ok, err, tail(g.nodes[down].out.String()))
				}
			} else {
				g.nodes[down].kill()
			}
		})

		if !g.settled(2) {
			rt.Fatalf("survivors never drop the stopped server: %v", g.sees())
		}

		for _, tr := range tracks {
			c.LabelIf(tr.errs > 0, "calls failed meanwhile")
		}

		// What calls did while servers disagreed about the members may be
		// undone by a server that was not told (removes are not handed over
		// later); writes over it settle every key.
		settle := func(label string) {
			for _, tr := range tracks {
				for k := range tr.model {
					v := strings.SplitN(k, " ", 2)[0][1:] + "-" + label

					if err := cl.Set(bg, k, []byte(v), 0); err != nil {
						rt.Fatalf("Set %q with %s: %v", k, label, err)
					}

					tr.model[k] = possible{v: true}
				}
			}

			agree(label)
		}

		settle("two servers")
		phase("two servers", true, nil)
		agree("two servers")

		g.nodes[down].start(rt)

		if !g.nodes[down].up(g.c.cl) {
			rt.Fatalf("harness: restart: %s", tail(g.nodes[down].out.String()))
		}

		phase("while a server comes back", false, nil)

		if !g.settled(3) {
			rt.Fatalf("a restarted server is not taken back: %v", g.sees())
		}

		settle("all servers")
		phase("all servers", true, nil)
		agree("all servers")

		v, err := cl.Get(bg, "guarded")
		if err != nil || !bytes.Equal(v, []byte("g")) {
			rt.Fatalf("at the end: %q, %v", v, err)
		}

		c.NT(true)
	})
}
