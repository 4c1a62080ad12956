package rest_test

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verif.local/vh"
)

var bg = context.Background()

type failer interface {
	Fatalf(format string, args ...any)
	Helper()
}

func serverBinary(t failer) string {
	p := filepath.Join(os.Getenv("VH_BIN"), "hypercache-server")
	if _, err := os.Stat(p); err != nil {
		t.Fatalf("harness: no server binary: %v", err)
	}

	return p
}

func freeAddr() string { return vh.FreeAddr() }

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()

	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}

	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()

	return l.b.String()
}

// proc is one hypercache-server process.
type proc struct {
	id, api, mgmt, dist string
	scheme              string
	env                 []string
	cmd                 *exec.Cmd
	out                 *lockedBuf
	done                chan struct{}
	err                 error
}

func newProc(id string, env ...string) *proc {
	return &proc{id: id, api: freeAddr(), mgmt: freeAddr(), dist: freeAddr(), scheme: "http", env: env}
}

func (p *proc) start(t failer) {
	t.Helper()

	p.out = &lockedBuf{}
	p.done = make(chan struct{})
	p.cmd = exec.Command(serverBinary(t))
	p.cmd.Env = append([]string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("TMPDIR"), "GOMAXPROCS=4",
		"HYPERCACHE_NODE_ID=" + p.id,
		"HYPERCACHE_API_ADDR=" + p.api, "HYPERCACHE_MGMT_ADDR=" + p.mgmt, "HYPERCACHE_DIST_ADDR=" + p.dist,
	}, p.env...)
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}

	if err := p.cmd.Start(); err != nil {
		t.Fatalf("harness: start: %v", err)
	}

	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
}

func (p *proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// up waits until the process serves or exits.
func (p *proc) up(cl *http.Client) bool {
	end := time.Now().Add(20 * time.Second)

	for time.Now().Before(end) && !p.exited() {
		ok := true

		for _, u := range []string{p.scheme + "://" + p.api + "/healthz", "http://" + p.mgmt + "/health"} {
			resp, err := cl.Get(u)
			if err != nil {
				ok = false

				break
			}

			_, _ = io.Copy(io.Discard, resp.Body)
			_ = resp.Body.Close()
			ok = ok && resp.StatusCode == 200
		}

		if ok {
			return true
		}

		time.Sleep(10 * time.Millisecond)
	}

	return false
}

func (p *proc) kill() {
	if p.cmd != nil && p.cmd.Process != nil {
		_ = p.cmd.Process.Kill()
		<-p.done
	}
}

// term asks for a graceful stop and reports the exit error.
func (p *proc) term(d time.Duration) (error, bool) {
	_ = p.cmd.Process.Signal(syscall.SIGTERM)

	select {
	case <-p.done:
		return p.err, true
	case <-time.After(d):
		return nil, false
	}
}

// resp is a whole response.
type resp struct {
	status int
	header http.Header
	body   []byte
}

func (r resp) String() string {
	b := string(r.body)
	if len(b) > 300 {
		b = b[:300] + "..."
	}

	return fmt.Sprintf("%d %q", r.status, b)
}

func (r resp) json(t failer, into any) {
	t.Helper()

	if ct := r.header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		t.Fatalf("response has content type %q: %v", ct, r)
	}

	if err := json.Unmarshal(r.body, into); err != nil {
		t.Fatalf("response is not JSON: %v: %v", err, r)
	}
}

type apiErr struct {
	Error string `json:"error"`
	Code  string `json:"code"`
}

// code checks that the response is an error envelope with the status, and
// returns its code.
func (r resp) code(t failer, status int, what string) string {
	t.Helper()

	if r.status != status {
		t.Fatalf("%s: answered %v, want status %d", what, r, status)
	}

	var e apiErr

	r.json(t, &e)

	if e.Error == "" || e.Code == "" {
		t.Fatalf("%s: error response without error or code: %v", what, r)
	}

	return e.Code
}

type caller struct {
	cl   *http.Client
	auth string // Authorization header of requests that set none
}

func newCaller() *caller {
	return &caller{cl: &http.Client{
		Transport: &http.Transport{MaxIdleConnsPerHost: 8},
		Timeout:   15 * time.Second,
		CheckRedirect: func(*http.Request, []*http.Request) error {
			return http.ErrUseLastResponse
		},
	}}
}

func (c *caller) do(t failer, method, url string, body []byte, hdr ...string) resp {
	t.Helper()

	r, err := c.try(method, url, body, hdr...)
	if err != nil {
		t.Fatalf("%s %s: %v", method, url, err)
	}

	return r
}

func (c *caller) try(method, url string, body []byte, hdr ...string) (resp, error) {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}

	req, err := http.NewRequestWithContext(bg, method, url, rd)
	if err != nil {
		return resp{}, fmt.Errorf("harness: %w", err)
	}

	if c.auth != "" {
		req.Header.Set("Authorization", c.auth)
	}

	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}

	r, err := c.cl.Do(req)
	if err != nil {
		return resp{}, err
	}

	defer r.Body.Close()

	b, err := io.ReadAll(r.Body)
	if err != nil {
		return resp{}, err
	}

	return resp{r.StatusCode, r.Header, b}, nil
}

// group is a running cluster.
type group struct {
	nodes []*proc
	c     *caller
}

func startGroup(t failer, n, repl int, env ...string) *group {
	t.Helper()

	return startSeeded(t, n, repl, "id@addr", env...)
}

// startSeeded starts a cluster whose members know each other by ID and
// address, by address only, or some so and some so.
func startSeeded(t failer, n, repl int, form string, env ...string) *group {
	t.Helper()

	for try := 1; ; try++ {
		g, why := tryGroup(t, n, repl, form, env...)
		if why == "" {
			return g
		}

		if try == 3 || !strings.HasPrefix(why, "harness") { // not for want of a port
			t.Fatalf("%s", why)
		}
	}
}

func tryGroup(t failer, n, repl int, form string, env ...string) (*group, string) {
	t.Helper()

	g := &group{c: newCaller()}

	for _, e := range env {
		if tok, ok := strings.CutPrefix(e, "HYPERCACHE_AUTH_TOKEN="); ok {
			g.c.auth = "Bearer " + tok
		}
	}

	var seeds []string

	for i := range n {
		p := newProc(fmt.Sprintf("node-%d", i+1))

		if form == "id@addr" || form == "mixed" && i%2 == 0 {
			seeds = append(seeds, p.id+"@"+p.dist)
		} else {
			seeds = append(seeds, p.dist)
		}

		g.nodes = append(g.nodes, p)
	}

	for _, p := range g.nodes {
		p.env = append([]string{
			"HYPERCACHE_SEEDS=" + strings.Join(seeds, ","),
			fmt.Sprintf("HYPERCACHE_REPLICATION=%d", repl),
			"HYPERCACHE_HEARTBEAT=250ms", "HYPERCACHE_GOSSIP_INTERVAL=100ms", "HYPERCACHE_LOG_LEVEL=warn",
		}, env...)
		p.start(t)
	}

	for _, p := range g.nodes {
		if !p.up(g.c.cl) {
			out := p.out.String()
			g.stop()

			return nil, fmt.Sprintf("harness: %s does not serve: %s", p.id, out)
		}
	}

	if !g.settled(len(g.nodes)) {
		sees := g.sees()
		g.stop()

		return nil, fmt.Sprintf("cluster of %d nodes does not form: %v", n, sees)
	}

	return g, ""
}

func (g *group) stop() {
	for _, p := range g.nodes {
		p.kill()
	}

	g.c.cl.CloseIdleConnections()
}

// sees returns, per live node, the members it reports.
func (g *group) sees() map[string][]string {
	out := map[string][]string{}

	for _, p := range g.nodes {
		if p.exited() {
			continue
		}

		r, err := g.c.try("GET", "http://"+p.mgmt+"/cluster/members", nil)
		if err != nil {
			out[p.id] = []string{err.Error()}

			continue
		}

		var body struct {
			Members []struct {
				ID, State, Address string
			}
		}

		_ = json.Unmarshal(r.body, &body)

		for _, m := range body.Members {
			out[p.id] = append(out[p.id], m.ID+" "+m.State)
		}
	}

	return out
}

// settled waits until every live node reports n alive members and the nodes
// agree on owners of a few keys.
func (g *group) settled(n int) bool {
	return eventually(20*time.Second, func() bool {
		for _, ms := range g.sees() {
			alive := map[string]bool{}

			for _, m := range ms {
				if id, ok := strings.CutSuffix(m, " alive"); ok && strings.HasPrefix(id, "node-") {
					alive[id] = true
				}
			}

			if len(alive) != n || len(ms) != n {
				return false
			}
		}

		for i := range 8 {
			want := ""

			for _, p := range g.nodes {
				if p.exited() {
					continue
				}

				r, err := g.c.try("GET", fmt.Sprintf("http://%s/v1/owners/probe-%d", p.api, i), nil)
				if err != nil {
					return false
				}

				var o struct{ Owners []string }
				_ = json.Unmarshal(r.body, &o)

				if s := strings.Join(o.Owners, ","); want == "" {
					want = s
				} else if want != s {
					return false
				}
			}
		}

		return true
	})
}

func eventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)

	for {
		if f() {
			return true
		}

		if time.Now().After(end) {
			return false
		}

		time.Sleep(20 * time.Millisecond)
	}
}

func TestMain(m *testing.M) {
	os.Exit(m.Run())
}

func jsonBody(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	return b
}
