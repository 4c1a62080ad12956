package client_test

import (
	"context"
	"errors"
	"fmt"
	"log/slog"
	"net/http"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/client"
)

type member struct {
	ID      string `json:"id"`
	Address string `json:"address"`
	State   string `json:"state"`
}

func genMembers(rt *rapid.T) []member {
	if rapid.IntRange(0, 24).Draw(rt, "big cluster") == 0 {
		var out []member

		for i := range rapid.SampledFrom([]int{40, 70, 150, 300, 1200, 3000}).Draw(rt, "size") {
			out = append(out, member{ID: fmt.Sprintf("node-%d-of-a-big-cluster", i), Address: fmt.Sprintf("node-%d.cache.internal.example.org:8080", i), State: []string{"alive", "suspect", "dead"}[i%7/3]})
		}

		return out
	}

	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) member {
		h := rapid.IntRange(0, 7).Draw(t, "h")
		addr := rapid.SampledFrom([]string{"m%d:8080", "m%d:8080", "m%d:8080", " m%d:8080 ", "http://m%d:8080", "https://m%d:8080/", "", " ", "m%d:8080", "http%d:8080", "https-%d:8080", "httpcache%d.internal:8080", "[2001:db8::%d]:8080", "10.0.0.%d:8080", "M%d.Example:8080"}).Draw(t, "addr")

		if strings.Contains(addr, "%d") {
			addr = fmt.Sprintf(addr, h)
		}

		return member{ID: fmt.Sprint(h), Address: addr, State: rapid.SampledFrom([]string{"alive", "alive", "suspect", "dead", "", "leaving"}).Draw(t, "state")}
	}), 0, 6).Draw(rt, "members")
}

func wantView(scheme string, ms []member) []string {
	out := []string{}

	for _, m := range ms {
		a := strings.TrimSpace(m.Address)
		if a == "" || m.State == "dead" {
			continue
		}

		if strings.Contains(a, "://") {
			out = append(out, strings.TrimRight(a, "/"))
		} else {
			out = append(out, scheme+"://"+a)
		}
	}

	return out
}

// view is one state of the simulated cluster.
type view struct {
	kind    string // members | status | refuse | text
	members []member
	status  int
	text    string
}

func genView(rt *rapid.T) view {
	switch rapid.IntRange(0, 7).Draw(rt, "view") {
	case 7:
		return view{kind: "hang"}
	case 0:
		return view{kind: "status", status: rapid.SampledFrom([]int{401, 403, 404, 500, 503}).Draw(rt, "st")}
	case 1:
		return view{kind: "refuse"}
	case 2:
		return view{kind: "text", text: rapid.SampledFrom([]string{"", "<html>", "[]", `{"members":3}`, `{"members":[{"address":"x:1"`, `{"members":[{"address":7}]}`, "null", "{}", `{"members":null}`, `{"members":[]}`, `"members"`}).Draw(rt, "text")}
	default:
		return view{kind: "members", members: genMembers(rt)}
	}
}

func (v view) serve(r *http.Request, _ []byte) (*http.Response, error) {
	switch v.kind {
	case "hang":
		select {
		case <-r.Context().Done():
			return nil, r.Context().Err()
		case <-time.After(24 * time.Hour): // virtual time
			return nil, errRefused
		}
	case "status":
		return envErr(v.status, "X", "x", ""), nil
	case "refuse":
		return nil, errRefused
	case "text":
		return rawResp(200, []byte(v.text), "application/json"), nil
	}

	return jsonResp(200, map[string]any{"members": v.members, "node": "n", "ring": map[string]any{"x": 1}}), nil
}

// anyHost is a network whose hosts all answer alike.
type anyHost struct {
	*memNet

	view func() view
	ref  *refServer
}

func (a *anyHost) RoundTrip(r *http.Request) (*http.Response, error) {
	a.mu.Lock()
	if a.hosts[r.URL.Host] == nil {
		a.hosts[r.URL.Host] = func(r *http.Request, b []byte) (*http.Response, error) {
			if r.URL.Path == "/cluster/members" {
				return a.view().serve(r, b)
			}

			return a.ref.serve(r, b)
		}
	}
	a.mu.Unlock()

	return a.memNet.RoundTrip(r)
}

func TestC11Refresh(t *testing.T) {
	rule := "sequences of 1-12 topology refreshes over generated membership answers (addresses with and without scheme, every state, empty and damaged bodies, statuses, refusals); non-trivial = the view both changed and was kept"
	vh.Run(t, "refresh", rule, 800, func(rt *rapid.T, c *vh.Case) {
		var cur view

		net := &anyHost{memNet: newNet(), view: func() view { return cur }, ref: newRef()}
		seeds := rapid.SampledFrom([][]string{{"http://s1:1", "https://s2:1"}, {"https://s1:1"}, {"http://s1:1"}}).Draw(rt, "seeds")
		scheme, _, _ := strings.Cut(seeds[0], "://")

		cl, err := client.New(seeds, client.WithHTTPClient(&http.Client{Transport: net}))
		if err != nil {
			rt.Fatalf("New: %v", err)
		}

		want := slices.Clone(seeds)
		changed, kept := false, false

		for range rapid.IntRange(1, 12).Draw(rt, "n") {
			if cur = genView(rt); cur.kind == "hang" { // real time here
				cur = view{kind: "refuse"}
			}
			c.Log("%s %v %d %s", cur.kind, cur.members, cur.status, cur.text)

			err := cl.RefreshTopology(bg)

			switch cur.kind {
			case "members":
				if err != nil {
					rt.Fatalf("RefreshTopology(%v): %v", cur.members, err)
				}

				if w := wantView(scheme, cur.members); len(w) > 0 {
					want = w
					changed = true
				} else {
					kept = true
				}
			case "status", "refuse":
				kept = true

				if err == nil {
					rt.Fatalf("failed refresh (%s %d) reported success", cur.kind, cur.status)
				}
			default:
				kept = true

				if !slices.Contains([]string{"null", "{}", `{"members":null}`, `{"members":[]}`}, cur.text) && err == nil {
					rt.Fatalf("malformed refresh %q reported success", cur.text)
				}
			}

			got := cl.Endpoints()
			if !slices.Equal(got, want) {
				rt.Fatalf("after %+v endpoints are %q, want %q", cur, got, want)
			}

			if len(got) == 0 {
				rt.Fatalf("no endpoint left")
			}

			// returned views are copies
			for i := range got {
				got[i] = "http://overwritten"
			}

			_ = append(got[:0], "http://x")

			if again := cl.Endpoints(); !slices.Equal(again, want) {
				rt.Fatalf("changing a returned view changed the client's: %q", again)
			}

			// requests go to the view in force
			net.take()

			if rapid.Bool().Draw(rt, "request") {
				if _, err := cl.Get(bg, "nope"); !errors.Is(err, client.ErrNotFound) {
					rt.Fatalf("Get: %v", err)
				}

				for _, a := range net.take() {
					ok := false
					for _, e := range want {
						ok = ok || strings.HasSuffix(e, "://"+a.Host)
					}

					if !ok {
						rt.Fatalf("request went to %s, endpoints are %q", a.Host, want)
					}
				}
			}
		}

		c.NT(changed && kept)
	})
}

// TestC11Background: the refresh loop in virtual time, with requests and
// shutdown at generated moments.
func TestC11Background(t *testing.T) {
	rule := "client with a refresh interval of 1-30 s in virtual time; the cluster's answer changes at generated moments while requests run, then 1-4 concurrent Close calls; non-trivial = at least two different views were adopted"
	vh.Run(t, "background", rule, 300, func(rt *rapid.T, c *vh.Case) {
		interval := time.Duration(rapid.IntRange(1000, 30000).Draw(rt, "ms")) * time.Millisecond
		steps := rapid.IntRange(1, 6).Draw(rt, "steps")
		views := []view{}

		for range steps {
			views = append(views, genView(rt))
		}

		closers := rapid.IntRange(1, 4).Draw(rt, "closers")
		requests := rapid.IntRange(0, 3).Draw(rt, "requests")
		slow := time.Duration(rapid.SampledFrom([]int{0, 0, 10, 5000}).Draw(rt, "slow")) * time.Millisecond
		if part := rapid.SampledFrom([]int{0, 0, 60, 95}).Draw(rt, "part"); part > 0 { // nearly a whole interval
			slow = interval * time.Duration(part) / 100
		}

		midway := rapid.Bool().Draw(rt, "midway")
		c.Log("interval %v views %+v closers %d requests %d slow %v midway %v", interval, views, closers, requests, slow, midway)

		fail := ""

		vh.Bubble(t, func() {
			var mu sync.Mutex

			cur := view{kind: "refuse"}
			net := &anyHost{memNet: newNet(), ref: newRef(), view: func() view {
				mu.Lock()
				v := cur
				mu.Unlock()
				time.Sleep(slow)

				return v
			}}

			cl, err := client.New([]string{"http://s1:1", "http://s2:2"}, client.WithHTTPClient(&http.Client{Transport: net}), client.WithTopologyRefresh(interval))
			if err != nil {
				fail = "New: " + err.Error()

				return
			}

			want := cl.Endpoints()
			stop := make(chan struct{})

			var wg sync.WaitGroup

			for range requests {
				wg.Go(func() {
					for {
						select {
						case <-stop:
							return
						case <-time.After(interval / 3):
						}

						if _, err := cl.Get(bg, "nope"); !errors.Is(err, client.ErrNotFound) {
							fail = fmt.Sprintf("Get during refresh: %v", err)
						}

						if len(cl.Endpoints()) == 0 {
							fail = "no endpoints"
						}
					}
				})
			}

			adopted := map[string]bool{}

			for _, v := range views {
				mu.Lock()
				cur = v
				mu.Unlock()
				// two ticks and a slow answer fit in three intervals plus the delay
				time.Sleep(3*interval + 2*slow + time.Millisecond)

				if v.kind == "members" && slow < interval {
					if w := wantView("http", v.members); len(w) > 0 {
						want = w
						adopted[fmt.Sprint(w)] = true
					}
				}

				if slow < interval {
					if got := cl.Endpoints(); !slices.Equal(got, want) {
						fail = fmt.Sprintf("after %+v for three intervals endpoints are %q, want %q", v, got, want)
					}
				}
			}

			c.NT(len(adopted) > 1)

			if midway {
				time.Sleep(interval - time.Millisecond) // close around a tick
			}

			var cw sync.WaitGroup
			for range closers {
				cw.Go(func() {
					if err := cl.Close(); err != nil {
						fail = "Close: " + err.Error()
					}
				})
			}

			cw.Wait()
			net.take()
			close(stop)
			wg.Wait()

			n := 0
			for _, a := range net.take() {
				if a.URI == "/cluster/members" {
					n++
				}
			}

			time.Sleep(5 * interval)

			for _, a := range net.take() {
				if a.URI == "/cluster/members" {
					n++
				}
			}

			if n > 0 {
				fail = fmt.Sprintf("%d refreshes after Close returned", n)
			}

			// a closed client still answers
			if _, err := cl.Get(bg, "nope"); !errors.Is(err, client.ErrNotFound) {
				fail = fmt.Sprintf("Get after Close: %v", err)
			}
		})

		if fail != "" {
			rt.Fatalf("%s", fail)
		}
	})
}

// TestC11Race: refreshes, requests and Endpoints from several goroutines.
func TestC11Race(t *testing.T) {
	rule := "2-4 goroutines refreshing, requesting and reading Endpoints at once while the cluster's answer alternates; every view read is one of the reported ones; non-trivial = all"
	vh.Run(t, "race", rule, 60, func(rt *rapid.T, c *vh.Case) {
		a := view{kind: "members", members: []member{{ID: "1", Address: "m1:1", State: "alive"}, {ID: "2", Address: "m2:1", State: "alive"}}}
		b := view{kind: "members", members: genMembers(rt)}
		c.Log("%+v", b)
		c.NT(true)

		var mu sync.Mutex

		flip := false
		net := &anyHost{memNet: newNet(), ref: newRef(), view: func() view {
			mu.Lock()
			defer mu.Unlock()

			flip = !flip
			if flip {
				return a
			}

			return b
		}}

		seeds := []string{"http://s1:1"}
		valid := []string{fmt.Sprint(seeds), fmt.Sprint(wantView("http", a.members)), fmt.Sprint(wantView("http", b.members))}

		cl, err := client.New(seeds, client.WithHTTPClient(&http.Client{Transport: net}), client.WithLogger(slog.New(slog.DiscardHandler)), client.WithTopologyRefresh(time.Second))
		if err != nil {
			rt.Fatalf("New: %v", err)
		}

		errs := make(chan string, 1000)

		vh.Within(rt, 20*time.Second, "concurrent use of a client", func() {
			var wg sync.WaitGroup

			for range rapid.IntRange(2, 4).Draw(rt, "g") {
				wg.Go(func() {
					for range 30 {
						if err := cl.RefreshTopology(bg); err != nil {
							errs <- "refresh: " + err.Error()
						}

						if _, err := cl.Get(bg, "nope"); !errors.Is(err, client.ErrNotFound) {
							errs <- fmt.Sprintf("get: %v", err)
						}

						got := cl.Endpoints()
						if !slices.Contains(valid, fmt.Sprint(got)) {
							errs <- fmt.Sprintf("view %q is none of %q", got, valid)
						}

						got[0] = "http://overwritten"
					}
				})
			}

			for range 2 {
				wg.Go(func() { _ = cl.Close() })
			}

			wg.Wait()
			_ = cl.Close()
		})

		select {
		case e := <-errs:
			rt.Fatalf("%s", e)
		default:
		}
	})
}

// TestC11Interval: the documented floor of the refresh interval.
func TestC11Interval(t *testing.T) {
	rule := "WithTopologyRefresh with any duration; non-trivial = positive"
	vh.Run(t, "interval", rule, 200, func(rt *rapid.T, c *vh.Case) {
		d := rapid.OneOf(rapid.SampledFrom([]time.Duration{0, -1, 1, time.Second, time.Second - 1, time.Hour}), rapid.Custom(func(t *rapid.T) time.Duration {
			return time.Duration(rapid.Int64Range(-2e9, 4e9).Draw(t, "d"))
		})).Draw(rt, "d")
		c.Log("%v", d)
		c.NT(d > 0)

		hits := 0
		fail := ""

		vh.Bubble(t, func() {
			net := &anyHost{memNet: newNet(), ref: newRef(), view: func() view { hits++; return view{kind: "refuse"} }}

			cl, err := client.New([]string{"http://s:1"}, client.WithHTTPClient(&http.Client{Transport: net}), client.WithTopologyRefresh(d))
			if (err != nil) != (d > 0 && d < time.Second) {
				fail = fmt.Sprintf("New with interval %v: %v", d, err)
			}

			if err != nil {
				return
			}

			time.Sleep(10 * time.Second)
			_ = cl.Close()
		})

		if fail == "" && d <= 0 && hits > 0 {
			fail = "refreshing although disabled"
		}

		if fail == "" && d >= time.Second && d < 9*time.Second && hits == 0 {
			fail = "never refreshed"
		}

		if fail != "" {
			rt.Fatalf("%s", fail)
		}
	})
}

var _ = context.Background

// TestC11Recover: hosts come and go; the seeds remain the way back.
func TestC11Recover(t *testing.T) {
	rule := "histories of 2-10 steps over two seeds and six members, each step with other hosts up and another membership: a refresh succeeds exactly when a host of the view or a seed answers, and then shows that membership; requests succeed whenever a host of the view is up; non-trivial = a refresh with no host of the view up succeeded through a seed outside it"
	vh.Run(t, "recover", rule, 600, func(rt *rapid.T, c *vh.Case) {
		all := []string{"s1:1", "s2:1", "m0:1", "m1:1", "m2:1", "m3:1", "m4:1", "m5:1"}
		up := map[string]bool{}
		ref := newRef()
		net := newNet()

		var members []member

		for _, h := range all {
			net.hosts[h] = func(r *http.Request, b []byte) (*http.Response, error) {
				switch {
				case !up[r.URL.Host] && r.URL.Host[0] == 'm' && (r.URL.Host[1]-'0')%2 == 0:
					return envErr(503, "DRAINING", "draining", ""), nil
				case !up[r.URL.Host]:
					return nil, errRefused
				case r.URL.Path == "/cluster/members":
					return jsonResp(200, map[string]any{"members": members}), nil
				}

				return ref.serve(r, b)
			}
		}

		seeds := rapid.SampledFrom([][]string{{"http://s1:1"}, {"http://s1:1", "http://s2:1"}, {"http://s1:1", "http://m3:1/"}}).Draw(rt, "seeds")

		cl, err := client.New(seeds, client.WithHTTPClient(&http.Client{Transport: net}))
		if err != nil {
			rt.Fatalf("New: %v", err)
		}

		want := cl.Endpoints()
		anchors := cl.Endpoints()
		some := func(urls []string) bool {
			return slices.ContainsFunc(urls, func(u string) bool { return up[strings.TrimPrefix(u, "http://")] })
		}

		for range rapid.IntRange(2, 10).Draw(rt, "n") {
			clear(up)

			members = nil

			p := rapid.IntRange(1, 4).Draw(rt, "p")
			for _, h := range all {
				up[h] = rapid.IntRange(0, p).Draw(rt, h) == 0
				if h[0] == 'm' && (up[h] || rapid.IntRange(0, 3).Draw(rt, "stale") == 0) {
					members = append(members, member{ID: h, Address: h, State: "alive"})
				}
			}

			c.Log("up %v members %v view %v", up, members, want)
			net.take()

			inView, inSeeds := some(want), some(anchors)
			_, err := cl.Get(bg, "nope")

			switch {
			case inView && !errors.Is(err, client.ErrNotFound):
				rt.Fatalf("a host of the view %v is up, the request ends with %v", want, err)
			case !inView && !inSeeds && !errors.Is(err, client.ErrAllEndpointsFailed):
				rt.Fatalf("no host is up, the request ends with %v", err)
			}

			err = cl.RefreshTopology(bg)
			if (err == nil) != (inView || inSeeds) {
				rt.Fatalf("refresh with a host of the view up: %v, a seed up: %v, ends with %v (view %v, seeds %v, %d requests)", inView, inSeeds, err, want, anchors, len(net.take()))
			}

			if err != nil && !errors.Is(err, client.ErrAllEndpointsFailed) {
				rt.Fatalf("no host is up, the refresh ends with %v", err)
			}

			if err == nil && len(members) > 0 {
				want = wantView("http", members)
			}

			if got := cl.Endpoints(); !slices.Equal(got, want) {
				rt.Fatalf("endpoints %v, want %v", got, want)
			}

			if !inView && inSeeds {
				c.NT(true)
			}
		}
	})
}
