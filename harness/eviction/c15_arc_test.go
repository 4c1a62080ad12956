package eviction_test

import (
	"fmt"
	"slices"
	"testing"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/eviction"
)

// arcModel is the Adaptive Replacement Cache of Megiddo and Modha over plain
// lists, most recent first: t1 holds keys used once, t2 keys used again, b1
// and b2 the keys last evicted from either, p the size t1 aims at. A key evicted
// from a cache that is not full is remembered too, within the same bounds.
type arcModel struct {
	cap, p         int
	t1, t2, b1, b2 []string
}

func without(l []string, k string) ([]string, bool) {
	i := slices.Index(l, k)
	if i < 0 {
		return l, false
	}

	return slices.Delete(slices.Clone(l), i, i+1), true
}

func ahead(l []string, k string) []string { return append([]string{k}, l...) }

func last(l []string) ([]string, string) { return l[:len(l)-1], l[len(l)-1] }

func (m *arcModel) size() int { return len(m.t1) + len(m.t2) }

func (m *arcModel) get(k string) bool {
	var in1, in2 bool

	m.t1, in1 = without(m.t1, k)
	m.t2, in2 = without(m.t2, k)

	if in1 || in2 {
		m.t2 = ahead(m.t2, k)
	}

	return in1 || in2
}

func (m *arcModel) del(k string) {
	for _, l := range []*[]string{&m.t1, &m.t2, &m.b1, &m.b2} {
		*l, _ = without(*l, k)
	}
}

// replace evicts from t1 while it is longer than its target, else from t2.
func (m *arcModel) replace(inB2 bool) string {
	var k string

	if len(m.t1) > 0 && (len(m.t2) == 0 || len(m.t1) > m.p || (inB2 && len(m.t1) == m.p)) {
		m.t1, k = last(m.t1)
		m.b1 = ahead(m.b1, k)
	} else {
		m.t2, k = last(m.t2)
		m.b2 = ahead(m.b2, k)
	}

	for len(m.b1) > 0 && len(m.t1)+len(m.b1) > m.cap {
		m.b1, _ = last(m.b1)
	}

	for len(m.b2) > 0 && m.size()+len(m.b1)+len(m.b2) > 2*m.cap {
		m.b2, _ = last(m.b2)
	}

	return k
}

func (m *arcModel) set(k string) {
	if m.cap == 0 || m.get(k) {
		return
	}

	full := m.size() >= m.cap

	switch {
	case slices.Contains(m.b1, k):
		m.p = min(m.cap, m.p+max(1, len(m.b2)/len(m.b1)))
		m.b1, _ = without(m.b1, k)

		if full {
			m.replace(false)
		}

		m.t2 = ahead(m.t2, k)
	case slices.Contains(m.b2, k):
		m.p = max(0, m.p-max(1, len(m.b1)/len(m.b2)))

		if full {
			m.replace(true)
		}

		m.b2, _ = without(m.b2, k)
		m.t2 = ahead(m.t2, k)
	default:
		if full {
			m.room()
		}

		m.t1 = ahead(m.t1, k)
	}
}

func (m *arcModel) room() {
	var k string

	switch {
	case len(m.t1) == m.cap:
		m.t1, k = last(m.t1)
		m.b1 = ahead(m.b1, k)
	case len(m.t1)+len(m.b1) >= m.cap:
		m.b1, _ = last(m.b1)
		m.replace(false)
	default:
		if len(m.b2) > 0 && m.size()+len(m.b1)+len(m.b2) >= 2*m.cap {
			m.b2, _ = last(m.b2)
		}

		m.replace(false)
	}
}

func (m *arcModel) evict() (string, bool) {
	if m.size() == 0 {
		return "", false
	}

	return m.replace(false), true
}

// TestC15ARC compares a cache and the model after every few operations, by
// what is evicted next.
func TestC15ARC(t *testing.T) {
	vh.Run(t, "arc", "histories of 5-120 sets, gets, deletes and evictions over arc at capacities 1-8 with up to three times as many keys; each victim, and the full eviction order after the history, is that of a reference ARC with ghost lists; non-trivial: a set of a key remembered from either ghost list, and the target moved", 4000, func(rt *rapid.T, c *vh.Case) {
		capacity := rapid.IntRange(1, 8).Draw(rt, "capacity")
		nkeys := rapid.IntRange(2, 3*capacity+1).Draw(rt, "keys")

		a, err := eviction.NewARCAlgorithm(capacity)
		if err != nil {
			rt.Fatalf("%v", err)
		}

		m := &arcModel{cap: capacity}
		kinds := rapid.SampledFrom([][]string{
			{"set", "set", "get"}, {"set", "set", "set", "get", "evict"}, {"set", "set", "set", "set", "get", "get", "del", "evict"}, {"set", "get", "get"},
		}).Draw(rt, "mix")

		var ghost1, ghost2, moved bool

		for i := range rapid.IntRange(5, 120).Draw(rt, "n") {
			o := op{kind: rapid.SampledFrom(kinds).Draw(rt, "op"), key: fmt.Sprint("k", rapid.IntRange(0, nkeys-1).Draw(rt, "key")), val: i}
			c.Log("%s %s", o.kind, o.key)

			switch p := m.p; o.kind {
			case "set":
				ghost1 = ghost1 || slices.Contains(m.b1, o.key)
				ghost2 = ghost2 || slices.Contains(m.b2, o.key)

				o.apply(a)
				m.set(o.key)

				moved = moved || m.p != p
			case "get":
				if _, got := o.apply(a); got != m.get(o.key) {
					rt.Fatalf("get %s: found %v, the reference says otherwise\n%s", o.key, got, c.Desc())
				}
			case "del":
				o.apply(a)
				m.del(o.key)
			case "evict":
				compareVictim(rt, c, a, m)
			}
		}

		c.Log("drain %v %v, target %d", m.t1, m.t2, m.p)
		c.LabelIf(ghost1, "b1 hit")
		c.LabelIf(ghost2, "b2 hit")
		c.NT((ghost1 || ghost2) && moved)

		for m.size() > 0 {
			compareVictim(rt, c, a, m)
		}

		compareVictim(rt, c, a, m)
	})
}

func compareVictim(rt *rapid.T, c *vh.Case, a eviction.IAlgorithm, m *arcModel) {
	want, some := m.evict()
	if got, ok := a.Evict(); got != want || ok != some {
		rt.Fatalf("evicted %q (%v), ARC prescribes %q (%v)\n%s", got, ok, want, some, c.Desc())
	}
}
