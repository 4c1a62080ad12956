package dist_test

import (
	"bufio"
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

const mib = 1 << 20

// blob is n bytes of text that does not compress to much less than half.
var blob = func() func(n int) string {
	raw := make([]byte, 12*mib)
	_, _ = rand.Read(raw)
	text := hex.EncodeToString(raw)

	return func(n int) string { return text[:n] }
}()

func TestC38Sizes(t *testing.T) {
	vh.Run(t, "sizes", "a node with a request limit and its peers' response limit each 1-20 MiB or the default of 16 MiB, values up to 1 MiB beyond either, set over HTTP and read back: what fits passes whole, what does not is refused; non-trivial: a limit above 4 MiB", 4, func(rt *rapid.T, c *vh.Case) {
		limit := rapid.SampledFrom([]int{0, 1, 5, 8, 20}).Draw(rt, "limitMiB") * mib
		respLimit := rapid.SampledFrom([]int{0, 1, 5, 8, 20}).Draw(rt, "respLimitMiB") * mib
		limits := backend.DistHTTPLimits{BodyLimit: limit, ResponseLimit: int64(respLimit), ReadTimeout: 30 * time.Second, WriteTimeout: 30 * time.Second, ClientTimeout: time.Minute}

		web := newHTTPClu(rt, 1, 1, backend.DistHTTPAuth{}, limits)
		defer web.stop()

		if limit == 0 {
			limit = 16 * mib
		}

		if respLimit == 0 {
			respLimit = 16 * mib
		}

		c.Log("request limit %d MiB, response limit %d MiB", limit/mib, respLimit/mib)
		c.NT(limit > 4*mib)

		tr := backend.NewDistHTTPTransportWithLimits(limits, func(string) (string, bool) { return "http://" + web.addr[0], true })

		for _, size := range []int{limit - 1<<16, limit + 1<<10} {
			v := blob(size)
			err := tr.ForwardSet(bg, "n0", &cache.Item{Key: fmt.Sprint(size), Value: v, Version: 1, Origin: "x"}, false)
			it, ok := web.nodes[0].Get(bg, fmt.Sprint(size))

			if fits := size < limit; (err == nil) != fits || ok != fits || (ok && norm(it.Value) != norm(v)) {
				rt.Fatalf("set of %d bytes: %v, held %v\n%s", size, err, ok, c.Desc())
			}
		}

		for _, size := range []int{respLimit - 1<<16, respLimit + 1<<10} {
			v, key := blob(size), fmt.Sprint("get", size)
			if err := web.nodes[0].Set(bg, &cache.Item{Key: key, Value: v}); err != nil {
				rt.Fatalf("set: %v", err)
			}

			it, ok, err := tr.ForwardGet(bg, "n0", key)
			if fits := size < respLimit; (err == nil) != fits || ok != fits || (ok && norm(it.Value) != norm(v)) {
				rt.Fatalf("get of %d bytes: %v, found %v\n%s", size, err, ok, c.Desc())
			}
		}
	})
}

func TestC38Timeouts(t *testing.T) {
	vh.Run(t, "timeouts", "two nodes, one with a short read and one with a short idle timeout, their other timeouts long or short at random, and connections that stall in mid-request or between two; transports with a short, long or default client timeout whose peer answers late: the timeout configured for it and no other ends it; non-trivial: all", 3, func(rt *rapid.T, c *vh.Case) {
		const short, long = 150 * time.Millisecond, 20 * time.Second

		either := rapid.SampledFrom([]time.Duration{short, long})
		limits := []backend.DistHTTPLimits{
			{ReadTimeout: short, IdleTimeout: long, WriteTimeout: either.Draw(rt, "write"), ClientTimeout: short},
			{ReadTimeout: long, IdleTimeout: short, WriteTimeout: either.Draw(rt, "write"), ClientTimeout: long},
		}

		c.Log("%+v", limits)
		c.NT(true)

		var (
			wg     sync.WaitGroup
			closed [2][2]bool // node, connection
			errs   [2]error
		)

		for n, l := range limits {
			web := newHTTPClu(rt, 1, 1, backend.DistHTTPAuth{}, l)
			defer web.stop()

			for i, req := range []string{"GET /health HTTP/1.1\r\nHost: x\r\n", "GET /health HTTP/1.1\r\nHost: x\r\n\r\n"} {
				wg.Go(func() { closed[n][i] = cutOff(web.addr[0], req, i == 1) })
			}
		}

		// A peer that takes its time.
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			rt.Fatalf("listen: %v", err)
		}

		late := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			select {
			case <-r.Context().Done():
			case <-time.After(700 * time.Millisecond):
			}

			fmt.Fprint(w, "ok")
		})}
		go late.Serve(ln)
		defer late.Close()

		url := func(string) (string, bool) { return "http://" + ln.Addr().String(), true }
		for i, l := range limits {
			errs[i] = backend.NewDistHTTPTransportWithLimits(l, url).Health(bg, "x")
		}

		usual := backend.NewDistHTTPTransport(0, url).Health(bg, "x")

		wg.Wait()

		if errs[0] == nil || errs[1] != nil || usual != nil {
			rt.Fatalf("an answer after 700ms: client timeout %v: %v, %v: %v, default: %v\n%s", short, errs[0], long, errs[1], usual, c.Desc())
		}

		if want := [2][2]bool{{true, false}, {false, true}}; closed != want {
			rt.Fatalf("cut off after 2s (node with a short read timeout: in a request, idle; with a short idle timeout): %v, want %v\n%s", closed, want, c.Desc())
		}
	})
}

// cutOff makes a request and reports whether the server closes the connection
// in the 2s after it: far more than the short timeout, less than the long one.
func cutOff(addr, req string, complete bool) bool {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return false
	}
	defer conn.Close()

	_, _ = conn.Write([]byte(req))
	r := bufio.NewReader(conn)

	if complete {
		resp, err := http.ReadResponse(r, nil)
		if err != nil {
			return false
		}

		_, _ = io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
	}

	_ = conn.SetReadDeadline(time.Now().Add(2 * time.Second))

	for {
		if _, err = r.ReadByte(); err != nil {
			ne, isNet := err.(net.Error)

			return !isNet || !ne.Timeout()
		}
	}
}
