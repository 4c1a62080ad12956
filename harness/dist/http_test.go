package dist_test

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/goccy/go-json"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

func freeAddr() string { return vh.FreeAddr() }

// httpClu is a cluster of nodes with their own HTTP servers and transports.
type httpClu struct {
	clu

	addr []string
}

// newHTTPClu starts n nodes; nodes in dead are in the membership only, at an
// address that refuses connections.
func newHTTPClu(rt *rapid.T, n, rf int, auth backend.DistHTTPAuth, limits backend.DistHTTPLimits, opts ...backend.DistMemoryOption) *httpClu {
	cl := &httpClu{clu: clu{ring: cluster.NewRing(cluster.WithReplication(rf)), down: map[[2]int]bool{}}}
	cl.ms = cluster.NewMembership(cl.ring)

	for i := range n {
		id := fmt.Sprintf("n%d", i)

		for try := 0; ; try++ {
			addr := freeAddr()
			o := append([]backend.DistMemoryOption{
				backend.WithDistMembership(cl.ms, cluster.NewNode(id, addr)), backend.WithDistNode(id, addr),
				backend.WithDistHTTPAuth(auth), backend.WithDistHTTPLimits(limits),
			}, opts...)

			b, err := backend.NewDistMemory(bg, o...)
			if err != nil {
				rt.Fatalf("NewDistMemory: %v", err)
			}

			dm := b.(*backend.DistMemory)
			if answers(addr) {
				cl.nodes, cl.addr = append(cl.nodes, dm), append(cl.addr, addr)

				break
			}

			_ = dm.Stop(bg)
			cl.ms.Remove(cluster.NodeID(id))

			if try > 20 {
				rt.Fatalf("no HTTP listener comes up")
			}
		}
	}

	return cl
}

func answers(addr string) bool {
	for range 100 {
		if resp, err := http.Get("http://" + addr + "/health"); err == nil {
			resp.Body.Close()

			return true
		}

		time.Sleep(2 * time.Millisecond)
	}

	return false
}

// call makes a raw request and returns status and body.
func call(rt *rapid.T, method, url string, hdr map[string]string, body []byte) (int, []byte) {
	req, err := http.NewRequest(method, url, bytes.NewReader(body))
	if err != nil {
		rt.Fatalf("request %s: %v", url, err)
	}

	for k, v := range hdr {
		req.Header.Set(k, v)
	}

	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		rt.Fatalf("%s %s: %v", method, url, err)
	}
	defer resp.Body.Close()

	b, err := io.ReadAll(resp.Body)
	if err != nil {
		rt.Fatalf("%s %s: body: %v", method, url, err)
	}

	return resp.StatusCode, b
}

// norm is a value's JSON form: what a JSON transport can carry.
func norm(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("!%v", err)
	}

	var x any
	if json.Unmarshal(b, &x) != nil {
		return string(b)
	}

	b, _ = json.Marshal(x)

	return string(b)
}

func normAll(m map[string]state) map[string]state {
	out := map[string]state{}
	for k, s := range m {
		if s.has {
			s.val = norm(s.val)
		}

		out[k] = s
	}

	return out
}
