package dist_test

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

// clu is a cluster of nodes in one process, sharing one membership (a settled
// view). Every node has its own in-process transport, so that each directed
// link can be cut by taking the target out of the sender's transport.
type clu struct {
	ring  *cluster.Ring
	ms    *cluster.Membership
	nodes []*backend.DistMemory
	tr    []*backend.InProcessTransport
	down  map[[2]int]bool
}

func newClu(rt *rapid.T, n, rf int, opts ...backend.DistMemoryOption) *clu {
	cl := &clu{ring: cluster.NewRing(cluster.WithReplication(rf)), down: map[[2]int]bool{}}
	cl.ms = cluster.NewMembership(cl.ring)

	for i := range n {
		cl.add(rt, i, opts...)
	}

	return cl
}

func (cl *clu) add(rt *rapid.T, i int, opts ...backend.DistMemoryOption) *backend.DistMemory {
	id := fmt.Sprintf("n%d", i)
	tr := backend.NewInProcessTransport()
	o := append([]backend.DistMemoryOption{
		backend.WithDistMembership(cl.ms, cluster.NewNode(id, id+":0")),
		backend.WithDistTransport(tr),
	}, opts...)

	b, err := backend.NewDistMemory(bg, o...)
	if err != nil {
		rt.Fatalf("NewDistMemory: %v", err)
	}

	dm := b.(*backend.DistMemory)

	for j, other := range cl.nodes {
		if other == nil {
			continue
		}

		tr.Register(other)
		cl.tr[j].Register(dm)
	}

	tr.Register(dm)

	cl.nodes = append(cl.nodes, dm)
	cl.tr = append(cl.tr, tr)

	return dm
}

func (cl *clu) stop() {
	for _, n := range cl.nodes {
		if n != nil {
			_ = n.Stop(bg)
		}
	}
}

func (cl *clu) id(i int) string { return string(cl.nodes[i].LocalNodeID()) }

func (cl *clu) index(id cluster.NodeID) int {
	return slices.IndexFunc(cl.nodes, func(n *backend.DistMemory) bool { return n != nil && n.LocalNodeID() == id })
}

// cut or heal the link from -> to.
func (cl *clu) link(from, to int, up bool) {
	cl.down[[2]int{from, to}] = !up
	if up {
		cl.tr[from].Register(cl.nodes[to])
	} else {
		cl.tr[from].Unregister(cl.id(to))
	}
}

func (cl *clu) isolate(i int, up bool) {
	for j := range cl.nodes {
		if j != i && cl.nodes[j] != nil {
			cl.link(i, j, up)
			cl.link(j, i, up)
		}
	}
}

func (cl *clu) owners(key string) []int {
	var out []int

	for _, id := range cl.nodes[0].DebugOwners(key) {
		out = append(out, cl.index(id))
	}

	return out
}

// state is what a node holds for a key.
type state struct {
	has     bool
	val     any
	ver     uint64
	origin  string
	deleted bool
}

func (s state) String() string {
	switch {
	case s.has && s.deleted:
		return fmt.Sprintf("BOTH %v v%d %s", s.val, s.ver, s.origin)
	case s.has:
		return fmt.Sprintf("%v v%d@%s", s.val, s.ver, s.origin)
	case s.deleted:
		return fmt.Sprintf("deleted v%d@%s", s.ver, s.origin)
	}

	return "-"
}

// contents reads everything a node holds, items and deletes.
func contents(dm *backend.DistMemory) map[string]state {
	out := map[string]state{}
	items, err := dm.List(bg)
	if err != nil {
		panic(err)
	}

	for _, it := range items {
		out[it.Key] = state{has: true, val: it.Value, ver: it.Version, origin: it.Origin}
	}

	for _, ts := range dm.BuildMerkleTree().Tombstones {
		s := out[ts.Key]
		s.deleted = true

		if !s.has {
			s.ver, s.origin = ts.Version, ts.Origin
		}

		out[ts.Key] = s
	}

	return out
}

// less orders states by age: version, then a delete over an item, then the
// smaller origin.
func older(a, b state) bool {
	if !a.has && !a.deleted {
		return b.has || b.deleted
	}

	if !b.has && !b.deleted {
		return false
	}

	if a.ver != b.ver {
		return a.ver < b.ver
	}

	if a.deleted != b.deleted {
		return b.deleted
	}

	if a.deleted {
		return false
	}

	return a.origin > b.origin
}

func dump(m map[string]state) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, " %q:%v", k, m[k])
	}

	return b.String()
}

func sameVal(a, b any) bool { return reflect.DeepEqual(a, b) }

var keyGen = rapid.OneOf(
	rapid.StringMatching(`[a-e]`),
	rapid.StringMatching(`[a-z]{1,3}[/:. -]?[0-9]{0,2}`),
	rapid.SampledFrom([]string{"ключ", "a/b?c=d&e", "k%20", "日本", " spaced ", "k\x00z", "UPPER", "k*[?"}),
)

func valGen(n int) *rapid.Generator[any] {
	return rapid.Custom(func(t *rapid.T) any {
		switch rapid.IntRange(0, 3).Draw(t, "vkind") {
		case 0:
			return []byte(fmt.Sprintf("bytes-%d", n))
		case 1:
			return n
		case 2:
			return map[string]any{"n": float64(n)}
		}

		return fmt.Sprintf("v%d", n)
	})
}

func mkItem(k string, v any) *cache.Item { return &cache.Item{Key: k, Value: v} }

func levels() *rapid.Generator[backend.ConsistencyLevel] {
	return rapid.SampledFrom([]backend.ConsistencyLevel{backend.ConsistencyOne, backend.ConsistencyQuorum, backend.ConsistencyAll})
}

func vhWithin(rt *rapid.T, what string, f func()) { vh.Within(rt, 30*time.Second, what, f) }

// flaky is a transport whose peers can be down, in the way HTTP peers are: by
// an arbitrary error. It records the writes that got through.
type flaky struct {
	*backend.InProcessTransport

	mu   sync.Mutex
	down map[string]bool
	got  []string

	answer time.Duration // how long a delivered write's answer takes
}

var errDown = errors.New("connection refused")

func newFlaky(tr *backend.InProcessTransport) *flaky {
	return &flaky{InProcessTransport: tr, down: map[string]bool{}}
}

func (f *flaky) setDown(id string, down bool) {
	f.mu.Lock()
	defer f.mu.Unlock()

	f.down[id] = down
}

func (f *flaky) isDown(id string) bool {
	f.mu.Lock()
	defer f.mu.Unlock()

	return f.down[id]
}

func (f *flaky) ForwardSet(ctx context.Context, id string, item *cache.Item, replicate bool) error {
	if f.isDown(id) {
		return errDown
	}

	err := f.InProcessTransport.ForwardSet(ctx, id, item, replicate)

	if f.answer > 0 {
		time.Sleep(f.answer)
	}

	f.mu.Lock()
	defer f.mu.Unlock()

	f.got = append(f.got, fmt.Sprintf("%s %q=%v v%d", id, item.Key, item.Value, item.Version))

	return err
}

func (f *flaky) take() []string {
	f.mu.Lock()
	defer f.mu.Unlock()

	got := f.got
	f.got = nil

	return got
}
