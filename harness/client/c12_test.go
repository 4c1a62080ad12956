package client_test

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"log/slog"
	"net/http"
	"net/http/cookiejar"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"golang.org/x/oauth2/clientcredentials"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/client"
)

type optKind struct {
	name string // http | bearer | basic | oidc | log
	a, b string
	net  int
}

// world is what the options of one case can refer to.
type world struct {
	nets    []*memNet
	clients []*http.Client
	before  []http.Client
	oidc    int // tokens issued
	logs    bytes.Buffer
	idpDown bool
	ttl     int
}

func newWorld(rt *rapid.T) *world {
	w := &world{idpDown: rapid.IntRange(0, 7).Draw(rt, "idp") == 0, ttl: rapid.SampledFrom([]int{3600, 3600, 1, 5}).Draw(rt, "expires_in")}

	for range 2 {
		n := newNet()
		ref := newRef()
		ref.put("k", []byte("v"), 0)
		n.set("s1:1", func(r *http.Request, b []byte) (*http.Response, error) {
			if r.URL.Path == "/cluster/members" {
				return jsonResp(200, map[string]any{"members": []any{}}), nil
			}

			resp, err := ref.serve(r, b)
			if resp != nil {
				resp.Header.Add("Set-Cookie", "sid=42; Path=/")
			}

			return resp, err
		})
		n.set("s2:1", func(*http.Request, []byte) (*http.Response, error) { return envErr(500, "INTERNAL", "x", ""), nil })
		n.set("idp:1", w.idp)
		w.nets = append(w.nets, n)

		hc := &http.Client{Transport: n, Timeout: time.Duration(rapid.SampledFrom([]int{0, 60, 3600}).Draw(rt, "timeout")) * time.Second}
		if rapid.Bool().Draw(rt, "jar") {
			hc.Jar, _ = cookiejar.New(nil)
		}

		w.clients = append(w.clients, hc)
		w.before = append(w.before, *hc)
	}

	return w
}

func (w *world) idp(r *http.Request, body []byte) (*http.Response, error) {
	if w.idpDown {
		return rawResp(500, []byte("down"), "text/plain"), nil
	}

	f, err := url.ParseQuery(string(body))
	if err != nil {
		return rawResp(400, nil, ""), nil
	}

	id, sec, ok := r.BasicAuth()
	if !ok {
		id, sec = f.Get("client_id"), f.Get("client_secret")
	} else {
		id, _ = url.QueryUnescape(id)
		sec, _ = url.QueryUnescape(sec)
	}

	w.oidc++

	ttl := w.ttl
	if ttl == 5 { // short-lived tokens, some shorter than the one before
		ttl = 1 + 7*(w.oidc%2)
	}

	return jsonResp(200, map[string]any{"access_token": fmt.Sprintf("tok-%x-%x-%d", id, sec, w.oidc), "token_type": "Bearer", "expires_in": ttl}), nil
}

func (o optKind) option(w *world) client.Option {
	switch o.name {
	case "http":
		return client.WithHTTPClient(w.clients[o.net])
	case "bearer":
		return client.WithBearerAuth(o.a)
	case "basic":
		return client.WithBasicAuth(o.a, o.b)
	case "oidc":
		return client.WithOIDCClientCredentials(clientcredentials.Config{ClientID: o.a, ClientSecret: o.b, TokenURL: "http://idp:1/token"})
	}

	return client.WithLogger(slog.New(slog.NewTextHandler(&w.logs, &slog.HandlerOptions{Level: slog.LevelDebug})))
}

func (o optKind) invalid() bool {
	switch o.name {
	case "bearer":
		return o.a == ""
	case "basic", "oidc":
		return o.a == "" || o.b == ""
	}

	return false
}

// header says whether h is the credential of o.
func (o optKind) header(h string) bool {
	switch o.name {
	case "bearer":
		return h == "Bearer "+o.a
	case "basic":
		return h == "Basic "+base64.StdEncoding.EncodeToString([]byte(o.a+":"+o.b))
	case "oidc":
		return strings.HasPrefix(h, fmt.Sprintf("Bearer tok-%x-%x-", o.a, o.b))
	}

	return h == ""
}

func genOpt(rt *rapid.T) optKind {
	cred := rapid.OneOf(rapid.StringMatching(`[a-zA-Z0-9._:/+=-]{1,12}`), rapid.SampledFrom([]string{"u", "p:q", "Bearer x", "é", "a b", "p%41", " lead", "trail ", "\ttab\t", "ÿþ?>~", "???>>>", "日本語"}))
	empty := func(s string) string {
		if rapid.IntRange(0, 25).Draw(rt, "empty") == 0 {
			return ""
		}

		return s
	}

	o := optKind{name: rapid.SampledFrom([]string{"http", "bearer", "basic", "oidc", "log", "bearer", "basic", "http"}).Draw(rt, "opt"), net: rapid.IntRange(0, 1).Draw(rt, "net")}
	o.a, o.b = empty(cred.Draw(rt, "a")), empty(cred.Draw(rt, "b"))

	return o
}

func TestC12Options(t *testing.T) {
	rule := "New with 0-6 options in any order (two caller HTTP clients, bearer, Basic, OIDC, logger; sometimes an empty field), then 1-6 calls of any kind with a failing endpoint beside the healthy one; non-trivial = at least one auth option and one HTTP client, and a failover"
	vh.Run(t, "options", rule, 900, func(rt *rapid.T, c *vh.Case) {
		w := newWorld(rt)
		dflt := newNet()
		dflt.hosts = w.nets[0].hosts

		old := http.DefaultTransport
		http.DefaultTransport = dflt

		defer func() { http.DefaultTransport = old }()

		opts := []client.Option{}
		kinds := []optKind{}
		invalid := false

		for range rapid.IntRange(0, 6).Draw(rt, "n") {
			o := genOpt(rt)
			kinds = append(kinds, o)
			opts = append(opts, o.option(w))
			invalid = invalid || o.invalid()
			c.Log("%s(%q,%q,%d)", o.name, o.a, o.b, o.net)
		}

		// credentials in a seed URL never replace the configured ones
		user := rapid.SampledFrom([]string{"", "", "", "eve:x@"}).Draw(rt, "userinfo")

		cl, err := client.New([]string{"http://" + user + "s1:1", "http://s2:1"}, opts...)
		if invalid {
			if err == nil {
				rt.Fatalf("an option with an empty credential was accepted: %+v", kinds)
			}

			c.Label("rejected")

			return
		}

		if err != nil {
			rt.Fatalf("New(%+v): %v", kinds, err)
		}

		// the last auth option counts; one given before the last
		// WithHTTPClient may be overwritten by it
		auth, weak := optKind{name: "none"}, optKind{name: "none"}
		netIdx := -1

		for _, o := range kinds {
			switch o.name {
			case "http":
				netIdx = o.net
				if auth.name != "none" {
					weak = auth
				}

				auth = optKind{name: "none"}
			case "bearer", "basic", "oidc":
				auth, weak = o, optKind{name: "none"}
			}
		}

		use := dflt
		if netIdx >= 0 {
			use = w.nets[netIdx]
		}

		failed := false

		for range rapid.IntRange(1, 6).Draw(rt, "calls") {
			op := rapid.SampledFrom(opNames).Draw(rt, "op")
			c.Log("%s", op)

			err := call(bg, cl, op, "k", []byte("v"))

			att := use.take()
			for i, n := range append(w.nets, dflt) {
				if n != use {
					if stray := n.take(); len(stray) > 0 {
						rt.Fatalf("%s went through transport %d instead of the configured one: %+v", op, i, stray)
					}
				}
			}

			sent := 0

			for _, a := range att {
				if a.Host == "idp:1" {
					if auth.name != "oidc" && weak.name != "oidc" {
						rt.Fatalf("token fetched without OIDC")
					}

					continue
				}

				sent++

				h := a.Header.Get("Authorization")
				if len(a.Header.Values("Authorization")) > 1 {
					rt.Fatalf("several Authorization headers: %q", a.Header.Values("Authorization"))
				}

				ok := auth.header(h)
				if user != "" && a.Host == "s1:1" && auth.name == "none" && h == "Basic "+base64.StdEncoding.EncodeToString([]byte("eve:x")) {
					ok = true
				}

				if !ok && auth.name == "none" && weak.name != "none" {
					ok = weak.header(h)
				}

				if !ok {
					rt.Fatalf("%s to %s carried Authorization %q; options %+v", op, a.Host, h, kinds)
				}

				failed = failed || a.Host == "s2:1"
			}

			if (auth.name == "oidc") && w.idpDown {
				if sent > 0 || err == nil {
					rt.Fatalf("%s without a token: sent %d requests, err %v", op, sent, err)
				}

				c.Label("idp down")

				continue
			}

			if weak.name == "oidc" && w.idpDown {
				continue
			}

			if err != nil && op != "delete" && op != "get" && op != "item" && op != "can" {
				rt.Fatalf("%s: %v", op, err)
			}

			if sent == 0 {
				rt.Fatalf("%s sent nothing", op)
			}

			if netIdx >= 0 && w.before[netIdx].Jar != nil && op == "get" {
				// the caller's jar is used by every later request
				again := call(bg, cl, "get", "k", nil)
				_ = again

				for _, a := range use.take() {
					if a.Host == "s1:1" && !strings.Contains(a.Header.Get("Cookie"), "sid=42") {
						rt.Fatalf("the caller's cookie jar is not used: %v", a.Header)
					}
				}
			}
		}

		// what the client logs names no secret
		for _, o := range kinds {
			if s := o.a; o.name == "bearer" && len(s) >= 7 && strings.Contains(w.logs.String(), s) && s != "Bearer x" {
				rt.Fatalf("bearer token %q was logged:\n%s", s, w.logs.String())
			}

			if s := o.b; (o.name == "basic" || o.name == "oidc") && len(s) >= 7 && s != o.a && strings.Contains(w.logs.String(), s) {
				rt.Fatalf("secret %q was logged:\n%s", s, w.logs.String())
			}
		}

		if strings.Contains(w.logs.String(), "tok-") {
			rt.Fatalf("an access token was logged:\n%s", w.logs.String())
		}

		if kinds = append(kinds, optKind{}); auth.name == "oidc" && !w.idpDown {
			logged := false
			for _, o := range kinds {
				logged = logged || o.name == "log"
			}

			// every rotation of the token leaves a line, whatever the order of the options
			if n := strings.Count(w.logs.String(), "oidc token rotated"); logged && n != w.oidc || !logged && n > 0 {
				rt.Fatalf("%d tokens were issued, %d rotations logged (logger given: %v)", w.oidc, n, logged)
			}
		}

		for i, hc := range w.clients {
			b := w.before[i]
			if hc.Transport != b.Transport || hc.Timeout != b.Timeout || hc.Jar != b.Jar || hc.CheckRedirect != nil {
				rt.Fatalf("the caller's http.Client %d was modified: %+v", i, hc)
			}
		}

		c.NT(auth.name != "none" && netIdx >= 0 && failed)
		c.LabelIf(failed, "failover")
		c.Label("auth " + auth.name)
	})
}

// TestC12Deadline: the caller's Timeout, or the documented default of 10 s,
// bounds each request whatever the options.
func TestC12Deadline(t *testing.T) {
	rule := "option lists as above against a server, and an identity provider, that never answers, in virtual time; non-trivial = an HTTP client with a timeout and an auth option"
	vh.Run(t, "deadline", rule, 300, func(rt *rapid.T, c *vh.Case) {
		kinds := []optKind{}
		for range rapid.IntRange(0, 5).Draw(rt, "n") {
			o := genOpt(rt)
			if o.invalid() {
				continue
			}

			kinds = append(kinds, o)
			c.Log("%s %d", o.name, o.net)
		}

		touts := []time.Duration{time.Duration(rapid.IntRange(1, 100).Draw(rt, "t0")) * time.Second, time.Duration(rapid.IntRange(1, 100).Draw(rt, "t1")) * time.Second}
		if rapid.IntRange(0, 3).Draw(rt, "unlimited") == 0 {
			touts[0] = 0
		}

		// the caller's own deadline, which alone counts without a timeout
		own := time.Duration(rapid.SampledFrom([]int{0, 1, 30, 300}).Draw(rt, "own")) * time.Second
		if touts[0] == 0 {
			own = max(own, time.Second)
		}

		c.Log("%v own %v", touts, own)

		fail := ""

		vh.Bubble(t, func() {
			release := make(chan struct{})
			hang := hangNet{release}
			w := &world{}

			for _, d := range touts {
				w.clients = append(w.clients, &http.Client{Transport: hang, Timeout: d})
			}

			old := http.DefaultTransport
			http.DefaultTransport = hang

			defer func() {
				close(release) // a token request nobody waits for any more ends
				synctest.Wait()

				http.DefaultTransport = old
			}()

			want := 10 * time.Second
			auth := false
			has := false
			opts := []client.Option{}

			for _, o := range kinds {
				opts = append(opts, o.option(w))
				if o.name == "http" {
					if want = touts[o.net]; want == 0 {
						want = 1000 * time.Hour
					}
					has = true
				} else if o.name != "log" {
					auth = true
				}
			}

			c.NT(auth && has)

			cl, err := client.New([]string{"http://s:1"}, opts...)
			if err != nil {
				fail = err.Error()

				return
			}

			ctx, cancel := bg, func() {}
			if own > 0 {
				ctx, cancel = context.WithTimeout(bg, own)
				want = min(want, own)
			}

			defer cancel()

			t0 := time.Now()
			got, done := time.Duration(0), make(chan struct{})

			go func() {
				defer close(done)

				_, err = cl.Get(ctx, "k")
				got = time.Since(t0)
			}()

			select {
			case <-done:
			case <-time.After(1000 * want):
				fail = fmt.Sprintf("request still waits after %v, configured %v", 1000*want, want)

				return
			}

			if err == nil || got != want {
				fail = fmt.Sprintf("request gave up after %v (%v), configured %v", got, err, want)
			}
		})

		if fail != "" {
			rt.Fatalf("%s", fail)
		}
	})
}

type hangNet struct{ release chan struct{} }

func (h hangNet) RoundTrip(r *http.Request) (*http.Response, error) {
	select {
	case <-r.Context().Done():
		return nil, r.Context().Err()
	case <-h.release:
		return nil, errRefused
	}
}

// TestC12Redirect: the caller's redirect policy stays in force under every
// combination of options.
func TestC12Redirect(t *testing.T) {
	rule := "option lists around a caller HTTP client that refuses redirects, against a redirecting endpoint; non-trivial = an auth option after the HTTP client"
	vh.Run(t, "redirect", rule, 200, func(rt *rapid.T, c *vh.Case) {
		net := newNet()
		net.set("s:1", func(*http.Request, []byte) (*http.Response, error) {
			r := rawResp(307, nil, "")
			r.Header.Set("Location", "http://other:1/elsewhere")

			return r, nil
		})
		net.set("idp:1", (&world{ttl: 3600}).idp)

		asked := 0
		hc := &http.Client{Transport: net, CheckRedirect: func(*http.Request, []*http.Request) error { asked++; return http.ErrUseLastResponse }}
		w := &world{clients: []*http.Client{hc, hc}}
		opts := []client.Option{client.WithHTTPClient(hc)}

		for range rapid.IntRange(0, 4).Draw(rt, "n") {
			o := genOpt(rt)
			if o.invalid() {
				continue
			}

			opts = append(opts, o.option(w))
			c.Log("%s", o.name)
			c.NT(o.name != "http" && o.name != "log")
		}

		cl, err := client.New([]string{"http://s:1"}, opts...)
		if err != nil {
			rt.Fatalf("New: %v", err)
		}

		_, err = cl.Get(bg, "k")
		if err == nil || asked == 0 {
			rt.Fatalf("redirect policy asked %d times, err %v", asked, err)
		}

		for _, a := range net.take() {
			if a.Host == "other:1" {
				rt.Fatalf("redirect followed against the caller's policy")
			}
		}
	})
}

// TestC12Recover: an identity provider that hangs for a while does not lock
// the client out after it is back. (Real time: token fetches queue on a mutex,
// which virtual time cannot pass.)
func TestC12Recover(t *testing.T) {
	rule := "OIDC over a client with a timeout of 5-40 ms; the identity provider hangs for 1-4 calls, some concurrent, then answers; non-trivial = at least two calls during the outage"
	vh.Run(t, "recover", rule, 25, func(rt *rapid.T, c *vh.Case) {
		tout := time.Duration(rapid.IntRange(5, 40).Draw(rt, "timeout")) * time.Millisecond
		calls := rapid.IntRange(1, 4).Draw(rt, "calls")
		together := rapid.Bool().Draw(rt, "together")
		c.Log("timeout %v calls %d together %v", tout, calls, together)
		c.NT(calls > 1)

		net, w := newNet(), &world{ttl: 3600}
		ref := newRef()
		ref.put("k", []byte("v"), 0)
		net.set("s:1", ref.serve)

		var hung atomic.Bool

		hung.Store(true)

		end := make(chan struct{})
		defer close(end)

		net.set("idp:1", func(r *http.Request, b []byte) (*http.Response, error) {
			if !hung.Load() {
				return w.idp(r, b)
			}

			select {
			case <-r.Context().Done():
				return nil, r.Context().Err()
			case <-end:
				return nil, errRefused
			}
		})

		cl, err := client.New([]string{"http://s:1"}, client.WithHTTPClient(&http.Client{Transport: net, Timeout: tout}), optKind{name: "oidc", a: "id", b: "secret"}.option(w))
		if err != nil {
			rt.Fatalf("New: %v", err)
		}

		var (
			wg sync.WaitGroup
			ok atomic.Int32
		)

		one := func() {
			if _, err := cl.Get(bg, "k"); err == nil {
				ok.Add(1)
			}
		}

		vh.Within(rt, 20*time.Second, "calls during the outage", func() {
			for range calls {
				if together {
					wg.Go(one)
				} else {
					one()
				}
			}

			wg.Wait()
		})

		if ok.Load() > 0 {
			rt.Fatalf("a call without a token succeeded")
		}

		hung.Store(false)

		if !vh.Eventually(20*time.Second, func() bool {
			v, err := cl.Get(bg, "k")

			return err == nil && string(v) == "v"
		}) {
			_, err := cl.Get(bg, "k")
			rt.Fatalf("20s after the identity provider is back, calls with a timeout of %v still fail: %v", tout, err)
		}
	})
}
