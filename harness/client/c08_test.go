package client_test

import (
	"context"
	"crypto/x509"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	stdnet "net"
	"net/http"
	"os"
	"slices"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/hyp3rd/hypercache/pkg/client"
	"verif.local/vh"
)

// epKind is how one endpoint answers.
type epKind struct {
	name    string
	status  int    // 0: transport failure
	code    string // canonical envelope when not empty
	msg     string
	details string
	raw     string // non-canonical body
}

var codesByStatus = map[int][]string{
	400: {"BAD_REQUEST", ""}, 402: {""}, 406: {""}, 408: {"TIMEOUT", ""}, 410: {""}, 412: {""}, 421: {""}, 422: {""}, 423: {""}, 425: {""}, 401: {"UNAUTHORIZED", ""}, 403: {"FORBIDDEN", "UNAUTHORIZED_SCOPE", ""},
	404: {"NOT_FOUND", ""}, 405: {""}, 409: {"CONFLICT", ""}, 413: {""}, 429: {"RATE_LIMITED", ""}, 499: {""},
	500: {"INTERNAL", ""}, 501: {""}, 502: {""}, 503: {"DRAINING", "INTERNAL", ""}, 504: {""}, 505: {""}, 507: {""}, 520: {""}, 599: {""},
}

var (
	statuses4xx, statuses5xx []int
	allCodes                 = []string{"BAD_REQUEST", "UNAUTHORIZED", "FORBIDDEN", "NOT_FOUND", "DRAINING", "INTERNAL", "not_found", "X"}
)

func init() {
	for s := range codesByStatus {
		if s < 500 {
			statuses4xx = append(statuses4xx, s)
		} else {
			statuses5xx = append(statuses5xx, s)
		}
	}

	slices.Sort(statuses4xx)
	slices.Sort(statuses5xx)
}

// the ways a request can fail without an answer
var lost = map[string]error{
	"refused": errRefused, "eof": io.EOF, "cut": io.ErrUnexpectedEOF, "malformed": errors.New("malformed HTTP response \"x\""),
	"timeout": &stdnet.OpError{Op: "dial", Net: "tcp", Err: os.ErrDeadlineExceeded}, "dns": &stdnet.DNSError{Err: "no such host", Name: "h", IsNotFound: true},
	"reset": &stdnet.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, "cert": x509.UnknownAuthorityError{}, "slow": context.DeadlineExceeded,
}

func genBody(rt *rapid.T, k *epKind) {
	k.code = rapid.SampledFrom(codesByStatus[k.status]).Draw(rt, "code")
	if rapid.IntRange(0, 5).Draw(rt, "odd") == 0 {
		k.code = rapid.SampledFrom(allCodes).Draw(rt, "oddcode")
		if k.status < 500 && (k.code == "DRAINING" || k.code == "INTERNAL") {
			k.code = "X" // retryable or not, by whom one asks
		}
	}

	if k.code != "" {
		k.msg = rapid.String().Draw(rt, "msg")
		k.details = rapid.OneOf(rapid.Just(""), rapid.String()).Draw(rt, "details")

		if rapid.IntRange(0, 15).Draw(rt, "long") == 0 {
			k.details = strings.Repeat("d", rapid.SampledFrom([]int{2000, 5000, 70000, 2 << 20}).Draw(rt, "dn")) + k.details
		}

		if rapid.IntRange(0, 15).Draw(rt, "long message") == 0 {
			k.msg = strings.Repeat("m", rapid.SampledFrom([]int{255, 257, 600, 5000, 70000}).Draw(rt, "mn")) + k.msg
		}

		return
	}

	switch rapid.IntRange(0, 4).Draw(rt, "raw") {
	case 0:
		k.raw = ""
	case 1:
		k.raw = "<html>" + strings.Repeat("x", rapid.IntRange(240, 270).Draw(rt, "n"))
	case 2:
		k.raw = `{"code":"","error":"x"}`
	case 3:
		k.raw = `{"message":"oops"}`
	case 4:
		k.raw = rapid.StringMatching(`[a-z{}"\[\] ]{0,300}`).Draw(rt, "text")
	}

	var probe struct{ Code string }
	if json.Unmarshal([]byte(k.raw), &probe) == nil && probe.Code != "" {
		k.raw = ""
	}
}

func genKind(rt *rapid.T) epKind {
	switch rapid.IntRange(0, 9).Draw(rt, "kind") {
	case 0, 1, 2:
		return epKind{name: "ok"}
	case 3, 4:
		return epKind{name: "down", code: rapid.SampledFrom([]string{"refused", "refused", "refused", "eof", "cut", "malformed", "timeout", "dns", "reset", "cert", "slow"}).Draw(rt, "how")}
	case 5:
		return epKind{name: "draining", status: 503, code: "DRAINING", msg: "node is draining; redirect to a peer"}
	case 6, 7:
		k := epKind{name: "5xx", status: rapid.OneOf(rapid.Just(500), rapid.SampledFrom(statuses5xx)).Draw(rt, "s")}
		genBody(rt, &k)

		return k
	case 8:
		k := epKind{name: "4xx", status: rapid.OneOf(rapid.SampledFrom([]int{400, 401, 403, 404}), rapid.SampledFrom(statuses4xx)).Draw(rt, "s")}
		genBody(rt, &k)

		return k
	default:
		return epKind{name: "badurl"}
	}
}

func (k epKind) respond() (*http.Response, error) {
	switch {
	case k.name == "down":
		return nil, lost[k.code]
	case k.code != "":
		return envErr(k.status, k.code, k.msg, k.details), nil
	}

	return rawResp(k.status, []byte(k.raw), "text/html"), nil
}

// wantStatus checks a StatusError against the response that caused it.
func wantStatus(rt *rapid.T, err error, k epKind) {
	var se *client.StatusError
	if !errors.As(err, &se) {
		rt.Fatalf("error %v of a %d response is no StatusError", err, k.status)
	}

	want := client.StatusError{HTTPStatus: k.status, Code: k.code, Message: k.msg, Details: k.details}
	if k.code == "" {
		want.Message = k.raw
		if len(k.raw) > 256 {
			want.Message = k.raw[:256]
		}
	}

	if se.HTTPStatus != want.HTTPStatus || se.Code != want.Code || se.Details != want.Details {
		rt.Fatalf("StatusError %+v, response was %+v", *se, want)
	}

	// JSON cannot carry invalid UTF-8; rapid's strings are valid
	if k.code != "" && se.Message != want.Message {
		rt.Fatalf("StatusError message %q, response said %q", se.Message, want.Message)
	}

	if k.code == "" && (!strings.HasPrefix(se.Message, want.Message) || len(k.raw) <= 256 && se.Message != k.raw || len(se.Message) > 300) {
		rt.Fatalf("StatusError message %q does not show the body %q", se.Message, k.raw)
	}

	// the rendered error lets an operator see what the server said
	for _, part := range []string{fmt.Sprint(se.HTTPStatus), se.Code, se.Message, se.Details} {
		if !strings.Contains(se.Error(), part) || !strings.Contains(err.Error(), part) {
			rt.Fatalf("error text %q leaves out %q", err, part)
		}
	}

	checkSentinels(rt, err, k)
}

func checkSentinels(rt *rapid.T, err error, k epKind) {
	for _, s := range []struct {
		target error
		want   bool
	}{
		{client.ErrNotFound, k.status == 404 || k.code == "NOT_FOUND"},
		{client.ErrUnauthorized, k.status == 401 || k.code == "UNAUTHORIZED"},
		{client.ErrForbidden, k.status == 403},
		{client.ErrDraining, k.status == 503 || k.code == "DRAINING"},
		{client.ErrBadRequest, k.status == 400 || k.code == "BAD_REQUEST"},
		{client.ErrInternal, (k.status >= 500 && k.status != 503) || k.code == "INTERNAL"},
	} {
		if got := errors.Is(err, s.target); got != s.want {
			rt.Fatalf("errors.Is(%v, %v) = %v for status %d code %q", err, s.target, got, k.status, k.code)
		}
	}
}

// opNames are the client calls exercised; each does one request.
var opNames = []string{"get", "item", "set", "delete", "me", "can", "bset", "bget", "bdel", "refresh"}

// call runs one operation and returns a value-independent error.
func call(ctx context.Context, c *client.Client, op, key string, val []byte) error {
	var err error

	switch op {
	case "get":
		_, err = c.Get(ctx, key)
	case "item":
		_, err = c.GetItem(ctx, key)
	case "set":
		err = c.Set(ctx, key, val, time.Minute)
	case "delete":
		err = c.Delete(ctx, key)
	case "me":
		_, err = c.Identity(ctx)
	case "can":
		_, err = c.Can(ctx, "cache.read")
	case "bset":
		_, err = c.BatchSet(ctx, []client.BatchSetItem{{Key: key, Value: val}})
	case "bget":
		_, err = c.BatchGet(ctx, []string{key})
	case "bdel":
		_, err = c.BatchDelete(ctx, []string{key})
	case "refresh":
		err = c.RefreshTopology(ctx)
	}

	return err
}

func TestC08Failover(t *testing.T) {
	rule := "1-6 endpoints, each healthy, refusing connections, draining, 5xx, 4xx (canonical or foreign bodies) or with an unusable URL; one client call of a random kind, repeated, sometimes with a cancelled context; non-trivial = more than one endpoint and at least one of them not healthy"
	vh.Run(t, "failover", rule, 1500, func(rt *rapid.T, c *vh.Case) {
		net := newNet()
		ref := newRef()
		ref.put("k", []byte("v"), 0)

		n := rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 6), rapid.IntRange(1, 40)).Draw(rt, "n")
		few := rapid.IntRange(0, 3).Draw(rt, "few") == 0 // hardly any healthy one
		kinds := map[string]epKind{}
		seeds := []string{}
		bad := false

		for i := range n {
			k := genKind(rt)
			if few && k.name == "ok" && i%7 != 3 {
				k = epKind{name: "down", code: "refused"}
			}

			host := fmt.Sprintf("h%d:80", i)
			seed := "http://" + host

			if k.name == "badurl" {
				host = fmt.Sprintf("b%d", i)
				seed = "http://" + host + ":no port"
			}

			kinds[host] = k
			bad = bad || k.name != "ok"
			seeds = append(seeds, seed+rapid.SampledFrom([]string{"", "", "/"}).Draw(rt, "slash"))

			net.set(host, func(r *http.Request, b []byte) (*http.Response, error) {
				if k.name == "ok" {
					if r.URL.Path == "/cluster/members" {
						return jsonResp(200, map[string]any{"members": []any{}}), nil
					}

					return ref.serve(r, b)
				}

				return k.respond()
			})
			c.Log("%s=%s/%d/%s", host, k.name, k.status, k.code)
		}

		cl, err := client.New(seeds, client.WithHTTPClient(&http.Client{Transport: net}))
		if err != nil {
			rt.Fatalf("New: %v", err)
		}
		defer cl.Close()

		op := rapid.SampledFrom(opNames).Draw(rt, "op")
		val := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, "val")
		cancelled := rapid.IntRange(0, 9).Draw(rt, "cancel") == 0
		c.Log("%s cancelled=%v", op, cancelled)
		c.NT(n > 1 && bad)
		c.Label(op)

		for range rapid.IntRange(1, 4).Draw(rt, "reps") {
			ref.put("k", []byte("v"), 0)

			ctx := bg

			if cancelled {
				var cancel context.CancelFunc

				ctx, cancel = context.WithCancel(bg)
				cancel()
			}

			err := call(ctx, cl, op, "k", val)
			att := net.take()

			if cancelled {
				if !errors.Is(err, context.Canceled) {
					// an unusable URL fails before the context is looked at
					for _, k := range kinds {
						if k.name == "badurl" {
							err = context.Canceled
						}
					}
				}

				if !errors.Is(err, context.Canceled) {
					rt.Fatalf("cancelled call returned %v", err)
				}

				c.Label("cancelled")

				continue
			}

			judge(rt, c, op, kinds, att, err)
		}
	})
}

func judge(rt *rapid.T, c *vh.Case, op string, kinds map[string]epKind, att []attempt, err error) {
	seen := map[string]bool{}

	for i, a := range att {
		if seen[a.Host] {
			rt.Fatalf("%s: endpoint %s tried twice: %v", op, a.Host, att)
		}

		seen[a.Host] = true

		if d := att[0].same(a); d != "" {
			rt.Fatalf("%s: attempt %d differs: %s", op, i, d)
		}

		k := kinds[a.Host]
		if (k.name == "ok" || k.name == "4xx") && i != len(att)-1 {
			rt.Fatalf("%s: went on after a definitive answer (%s) from %s", op, k.name, a.Host)
		}
	}

	healthy := 0
	allDrain := true

	for h, k := range kinds {
		if k.name == "ok" {
			healthy++
		}

		if k.name != "draining" {
			allDrain = false
		}

		_ = h
	}

	var last epKind
	if len(att) > 0 {
		last = kinds[att[len(att)-1].Host]
	}

	switch {
	case last.name == "ok":
		if err != nil {
			rt.Fatalf("%s: healthy endpoint answered, call failed: %v", op, err)
		}

		c.LabelIf(len(att) > 1, "failed over to success")
	case last.name == "4xx":
		if err == nil {
			rt.Fatalf("%s: %d answer reported as success", op, last.status)
		}

		if errors.Is(err, client.ErrAllEndpointsFailed) {
			rt.Fatalf("%s: a definitive %d was reported as all endpoints failing: %v", op, last.status, err)
		}

		wantStatus(rt, err, last)
		c.Label("definitive 4xx")
	default:
		if err == nil {
			rt.Fatalf("%s: success without a healthy endpoint", op)
		}

		if healthy > 0 {
			rt.Fatalf("%s: %d healthy endpoints, tried %d, failed: %v", op, healthy, len(att), err)
		}

		for h, k := range kinds {
			if k.name == "4xx" {
				rt.Fatalf("%s: endpoint %s never asked", op, h)
			}

			if k.name != "badurl" && !seen[h] {
				rt.Fatalf("%s: endpoint %s never tried: %v", op, h, att)
			}
		}

		if !errors.Is(err, client.ErrAllEndpointsFailed) {
			rt.Fatalf("%s: exhausted failover returned %v", op, err)
		}

		if allDrain && !errors.Is(err, client.ErrDraining) {
			rt.Fatalf("%s: every endpoint drains, got %v", op, err)
		}

		var se *client.StatusError
		if errors.As(err, &se) {
			ok := false

			for _, k := range kinds {
				ok = ok || (k.status == se.HTTPStatus && k.code == se.Code)
			}

			if !ok {
				rt.Fatalf("%s: reported status %d %q that no endpoint gave", op, se.HTTPStatus, se.Code)
			}
		} else {
			none := true

			for _, k := range kinds {
				if k.name == "down" || k.name == "badurl" {
					none = false
				}
			}

			if none {
				rt.Fatalf("%s: every endpoint answered with a status, error keeps none: %v", op, err)
			}
		}

		// the reported cause is the last answer seen
		if len(att) == len(kinds) && last.status != 0 {
			wantStatus(rt, err, last)
		}

		if len(att) == len(kinds) && last.name == "down" && !errors.Is(err, lost[last.code]) {
			rt.Fatalf("%s: the last endpoint was lost to %v, reported %v", op, lost[last.code], err)
		}

		c.Label("exhausted")
	}
}

// TestC08Sentinels: the sentinel mapping over every status and code, wrapped
// or not.
func TestC08Sentinels(t *testing.T) {
	rule := "StatusError with any status 0-599 and any code, wrapped 0-2 times; non-trivial = a sentinel matches"
	codes := []string{"", "NOT_FOUND", "UNAUTHORIZED", "FORBIDDEN", "DRAINING", "BAD_REQUEST", "INTERNAL", "OTHER"}

	vh.Run(t, "sentinels", rule, 1000, func(rt *rapid.T, c *vh.Case) {
		k := epKind{status: rapid.OneOf(rapid.SampledFrom([]int{0, 400, 401, 403, 404, 500, 502, 503}), rapid.IntRange(0, 599)).Draw(rt, "status"), code: rapid.SampledFrom(codes).Draw(rt, "code")}
		c.Log("%d %s", k.status, k.code)

		var err error = &client.StatusError{HTTPStatus: k.status, Code: k.code, Message: "m"}
		for range rapid.IntRange(0, 2).Draw(rt, "wrap") {
			err = fmt.Errorf("ctx: %w", err)
		}

		checkSentinels(rt, err, k)

		for _, s := range []error{client.ErrAllEndpointsFailed, client.ErrNoEndpoints, errRefused} {
			if errors.Is(err, s) {
				rt.Fatalf("%v matches %v", err, s)
			}
		}

		c.NT(k.status >= 400 || k.code != "")
	})
}

// TestC08Seeds: construction keeps exactly the usable seeds, copied.
func TestC08Seeds(t *testing.T) {
	rule := "New with 0-4 seeds that may be blank or padded; non-trivial = a blank or padded seed"
	vh.Run(t, "seeds", rule, 300, func(rt *rapid.T, c *vh.Case) {
		raw := rapid.SliceOfN(rapid.SampledFrom([]string{"", " ", "/", "http://a:1", " http://b:2/ ", "https://c//", "\thttp://d:3"}), 0, 4).Draw(rt, "seeds")
		want := []string{}
		odd := false

		for _, s := range raw {
			u := strings.TrimRight(strings.TrimSpace(s), "/")
			odd = odd || u != s

			if u != "" {
				want = append(want, u)
			}
		}

		c.Log("%q", raw)
		c.NT(odd)

		in := append([]string{}, raw...)
		cl, err := client.New(in)

		if len(want) == 0 {
			if !errors.Is(err, client.ErrNoEndpoints) {
				rt.Fatalf("New(%q) = %v", raw, err)
			}

			return
		}

		if err != nil {
			rt.Fatalf("New(%q): %v", raw, err)
		}

		for i := range in {
			in[i] = "http://changed"
		}

		if got := cl.Endpoints(); fmt.Sprint(got) != fmt.Sprint(want) {
			rt.Fatalf("endpoints %q, want %q", got, want)
		}
	})
}

// TestC08Spread: no endpoint is left out or overloaded by the random choice.
func TestC08Spread(t *testing.T) {
	rule := "250 calls per endpoint over 2-6 endpoints of which some (the same throughout) refuse; every healthy endpoint serves between 1/2 and 2 times its share, and every endpoint is the first choice between 1/2 and 2 times as often as on average; non-trivial = at least two healthy endpoints"
	vh.Run(t, "spread", rule, 15, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 6).Draw(rt, "n")
		down := rapid.IntRange(0, n-1).Draw(rt, "down")
		op := rapid.SampledFrom([]string{"get", "set", "bget", "me"}).Draw(rt, "op")
		net, ref := newNet(), newRef()
		ref.put("k", []byte("v"), 0)

		seeds := []string{}

		for i := range n {
			seeds = append(seeds, fmt.Sprintf("http://h%d:1", i))

			if i >= down {
				net.set(fmt.Sprintf("h%d:1", i), ref.serve)
			}
		}

		seeds = rapid.Permutation(seeds).Draw(rt, "order")
		c.Log("n=%d down=%d %s", n, down, op)
		c.NT(n-down >= 2)

		cl, err := client.New(seeds, client.WithHTTPClient(&http.Client{Transport: net}))
		if err != nil {
			rt.Fatalf("New: %v", err)
		}

		first, served := map[string]int{}, map[string]int{}

		for range 250 * n {
			if err := call(bg, cl, op, "k", []byte("v")); err != nil {
				rt.Fatalf("%s: %v", op, err)
			}

			att := net.take()
			first[att[0].Host]++
			served[att[len(att)-1].Host]++
		}

		for i := range n {
			h := fmt.Sprintf("h%d:1", i)

			if first[h] < 125 || first[h] > 500 {
				rt.Fatalf("endpoint %s was the first choice of %d of %d calls: %v", h, first[h], 250*n, first)
			}

			if mean := float64(250*n) / float64(n-down); i >= down && (float64(served[h]) < mean/2 || float64(served[h]) > 2*mean) {
				rt.Fatalf("endpoint %s served %d of %d calls: %v", h, served[h], 250*n, served)
			}
		}
	})
}

// TestC08LargeBody: a retried request carries the whole body again.
func TestC08LargeBody(t *testing.T) {
	rule := "Set or BatchSet of up to 5 MB over 2-4 endpoints of which all but one refuse or fail after reading; non-trivial = a body above 1 MB that was sent twice"
	vh.Run(t, "large body", rule, 20, func(rt *rapid.T, c *vh.Case) {
		net, ref := newNet(), newRef()
		n := rapid.IntRange(2, 4).Draw(rt, "n")
		size := rapid.SampledFrom([]int{0, 1, 511, 512, 4096, 32768, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 20}).Draw(rt, "size")
		val := make([]byte, size)

		for i := range val {
			val[i] = byte(i ^ i>>8 ^ i>>16)
		}

		seeds := []string{"http://ok:1"}
		net.set("ok:1", ref.serve)

		for i := range n - 1 {
			seeds = append(seeds, fmt.Sprintf("http://h%d:1", i))
			net.set(fmt.Sprintf("h%d:1", i), func(*http.Request, []byte) (*http.Response, error) { return envErr(503, "DRAINING", "x", ""), nil })
		}

		cl, err := client.New(seeds, client.WithHTTPClient(&http.Client{Transport: net}))
		if err != nil {
			rt.Fatalf("New: %v", err)
		}

		most := 0

		for range 4 {
			if rapid.Bool().Draw(rt, "batch") {
				_, err = cl.BatchSet(bg, []client.BatchSetItem{{Key: "k", Value: val}})
			} else {
				err = cl.Set(bg, "k", val, 0)
			}

			if err != nil {
				rt.Fatalf("%v", err)
			}

			att := net.take()
			most = max(most, len(att))

			for i, a := range att {
				if d := att[0].same(a); d != "" {
					rt.Fatalf("attempt %d differs from the first: %.200s", i, d)
				}
			}

			if got := ref.items["k"].Value; string(got) != string(val) {
				rt.Fatalf("%d bytes were sent, %d stored after %d attempts", len(val), len(got), len(att))
			}
		}

		c.Log("n=%d size=%d attempts=%d", n, size, most)
		c.NT(size > 1<<20 && most > 1)
	})
}
