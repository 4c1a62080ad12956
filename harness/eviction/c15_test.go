package eviction_test

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif.local/vh"
)

// model is a reference policy for one partition.
type model interface {
	set(k string)
	get(k string)
	del(k string)
	victim() (string, bool) // without removing
	evict() (string, bool)
}

// lruModel: order[0] is the most recently used key.
type lruModel struct {
	cap   int
	order []string
}

func (m *lruModel) idx(k string) int {
	for i, o := range m.order {
		if o == k {
			return i
		}
	}

	return -1
}

func (m *lruModel) del(k string) {
	if i := m.idx(k); i >= 0 {
		m.order = append(m.order[:i:i], m.order[i+1:]...)
	}
}

func (m *lruModel) front(k string) { m.order = append([]string{k}, m.order...) }

func (m *lruModel) get(k string) {
	if m.idx(k) >= 0 {
		m.del(k)
		m.front(k)
	}
}

func (m *lruModel) set(k string) {
	if m.cap == 0 {
		return
	}

	if m.idx(k) < 0 && len(m.order) == m.cap {
		m.evict()
	}

	m.del(k)
	m.front(k)
}

func (m *lruModel) victim() (string, bool) {
	if len(m.order) == 0 {
		return "", false
	}

	return m.order[len(m.order)-1], true
}

func (m *lruModel) evict() (string, bool) {
	k, ok := m.victim()
	m.del(k)

	return k, ok
}

// lfuModel: lowest use count first, least recently used among equals.
type lfuModel struct {
	cap   int
	count map[string]int
	last  map[string]int
	seq   int
}

func newLFU(c int) *lfuModel {
	return &lfuModel{cap: c, count: map[string]int{}, last: map[string]int{}}
}

func (m *lfuModel) use(k string) {
	m.seq++
	m.count[k]++
	m.last[k] = m.seq
}

func (m *lfuModel) get(k string) {
	if m.count[k] > 0 {
		m.use(k)
	}
}

func (m *lfuModel) del(k string) {
	delete(m.count, k)
	delete(m.last, k)
}

func (m *lfuModel) set(k string) {
	if m.cap == 0 {
		return
	}

	if m.count[k] == 0 && len(m.count) == m.cap {
		m.evict()
	}

	m.use(k)
}

func (m *lfuModel) victim() (string, bool) {
	best, ok := "", false

	for k, n := range m.count {
		if !ok || n < m.count[best] || (n == m.count[best] && m.last[k] < m.last[best]) {
			best, ok = k, true
		}
	}

	return best, ok
}

func (m *lfuModel) evict() (string, bool) {
	k, ok := m.victim()
	m.del(k)

	return k, ok
}

// clockModel: slots under a hand; a key has one chance when inserted and one
// more per use; the hand takes a chance from each key it passes and evicts
// the first key it finds without one. A new key goes to the first free slot
// from the hand, or replaces the victim.
type clockModel struct {
	slots  []string
	used   []bool
	chance []int
	hand   int
}

func newClock(c int) *clockModel {
	return &clockModel{slots: make([]string, c), used: make([]bool, c), chance: make([]int, c)}
}

func (m *clockModel) step() { m.hand = (m.hand + 1) % len(m.slots) }

func (m *clockModel) at(k string) int {
	for i := range m.slots {
		if m.used[i] && m.slots[i] == k {
			return i
		}
	}

	return -1
}

func (m *clockModel) get(k string) {
	if i := m.at(k); i >= 0 {
		m.chance[i]++
	}
}

func (m *clockModel) del(k string) {
	if i := m.at(k); i >= 0 {
		m.used[i] = false
	}
}

func (m *clockModel) set(k string) {
	if len(m.slots) == 0 {
		return
	}

	if m.at(k) >= 0 {
		m.get(k)

		return
	}

	free := -1

	for d := range m.slots {
		if i := (m.hand + d) % len(m.slots); !m.used[i] {
			free = i

			break
		}
	}

	if free >= 0 {
		m.hand = free
	} else {
		m.evict()
	}

	m.slots[m.hand], m.used[m.hand], m.chance[m.hand] = k, true, 1
	m.step()
}

func (m *clockModel) victim() (string, bool) { return "", false }

func (m *clockModel) evict() (string, bool) {
	any := false
	for _, u := range m.used {
		any = any || u
	}

	if !any {
		return "", false
	}

	for {
		if m.used[m.hand] {
			if m.chance[m.hand] == 0 {
				m.used[m.hand] = false

				return m.slots[m.hand], true
			}

			m.chance[m.hand]--
		}

		m.step()
	}
}

func newModel(name string, c int) model {
	switch name {
	case "lru":
		return &lruModel{cap: c}
	case "lfu":
		return newLFU(c)
	}

	return newClock(c)
}

// TestC15Victims: every explicit eviction, and the full eviction order at the
// end, is the reference policy's.
func TestC15Victims(t *testing.T) {
	rule := "histories of 1-60 operations over lru, lfu, clock and cawolfu, plain and sharded, at capacities 0-20, then a full drain; each victim is compared with the reference policy of its partition; non-trivial = two keys or more at an eviction and a Get or overwrite before it"
	vh.Run(t, "victims", rule, 2500, func(rt *rapid.T, c *vh.Case) {
		p := genPolicy(rt, []string{"lru", "lfu", "clock", "cawolfu"})
		ops := genOps(rt, p, 60)
		name, _, _ := strings.Cut(p.name, "/")
		c.Log("%s", p.name)
		c.Label(name)

		a, err := p.make()
		if err != nil {
			rt.Fatalf("%v", err)
		}

		// cawolfu is named and documented as frequency-based; the recorded
		// finding is that it goes by recency. Either is followed, nothing else.
		cands := map[string][]model{name: make([]model, p.n)}
		if name == "cawolfu" {
			cands = map[string][]model{"lfu": make([]model, p.n), "lru": make([]model, p.n)}
		}

		for n, ms := range cands {
			for i := range ms {
				ms[i] = newModel(n, p.cap)
			}
		}

		used := false
		live := map[string]bool{}

		check := func(i int, got any, ok bool) {
			k, _ := got.(string)
			why := []string{}

			for n, ms := range cands {
				bad := ""

				if !ok {
					for _, m := range ms {
						if w, some := m.evict(); some {
							bad = fmt.Sprintf("nothing evicted, %s prescribes %q", n, w)
						}
					}
				} else if want, some := ms[p.part(k)].evict(); !some || want != k {
					bad = fmt.Sprintf("evicted %q, %s prescribes %q (%v)", k, n, want, some)
				}

				if bad != "" {
					why = append(why, bad)
					delete(cands, n)
				}
			}

			if len(cands) == 0 {
				rt.Fatalf("%s: step %d %s", p.name, i, strings.Join(why, "; "))
			}

			if name == "cawolfu" && cands["lfu"] == nil {
				vh.Known(rt, "cawolfu-recency", "%s: step %d %s", p.name, i, strings.Join(why, "; "))
			}

			if ok {
				c.NT(used && len(live) > 1)
				delete(live, k)
			}
		}

		for i, o := range ops {
			c.Log("%s %s", o.kind, o.key)

			got, ok := o.apply(a)
			switch o.kind {
			case "set":
				used = used || live[o.key]
				live[o.key] = true

				for _, ms := range cands {
					ms[p.part(o.key)].set(o.key)
				}
			case "get":
				used = used || live[o.key]

				for _, ms := range cands {
					ms[p.part(o.key)].get(o.key)
				}
			case "del":
				delete(live, o.key)
				for _, ms := range cands {
					ms[p.part(o.key)].del(o.key)
				}
			case "evict":
				check(i, got, ok)
			}
		}

		for i := len(ops); ; i++ {
			k, ok := a.Evict()
			check(i, k, ok)

			if !ok {
				break
			}
		}
	})
}

// TestC15Counts: use counts of every magnitude keep their order.
func TestC15Counts(t *testing.T) {
	rule := "lfu, plain and sharded, 2-8 keys used 1 to 70000 times each in a drawn order, some overwritten, then a full drain against the reference policy; non-trivial = two keys used more than 200 times"
	vh.Run(t, "counts", rule, 120, func(rt *rapid.T, c *vh.Case) {
		p := genPolicy(rt, []string{"lfu"})
		if p.cap == 0 {
			return
		}

		a, err := p.make()
		if err != nil {
			rt.Fatalf("%v", err)
		}

		ms := make([]model, p.n)
		for i := range ms {
			ms[i] = newModel("lfu", p.cap)
		}

		c.Log("%s cap %d", p.name, p.cap)

		heavy := 0
		keys := rapid.Permutation([]string{"a", "b", "c", "d", "e", "f", "g", "h"}).Draw(rt, "keys")[:rapid.IntRange(2, 8).Draw(rt, "n")]
		live := map[string]bool{}

		for _, k := range keys { // only as many as fit, so that nothing is evicted yet
			part := 0
			for l := range live {
				if p.part(l) == p.part(k) {
					part++
				}
			}

			if part < p.cap && len(live) < p.cap {
				a.Set(k, k)
				ms[p.part(k)].set(k)
				live[k] = true
			}
		}

		base := rapid.SampledFrom([]int{0, 3, 14, 30, 126, 250, 510, 1020, 65533}).Draw(rt, "base")

		for _, k := range rapid.Permutation(keys).Draw(rt, "order") {
			if !live[k] {
				continue
			}

			n := base + rapid.IntRange(0, 6).Draw(rt, "uses")
			c.Log("%s %d times", k, n)

			if n > 200 {
				heavy++
			}

			for range n {
				a.Get(k)
				ms[p.part(k)].get(k)
			}

			if rapid.IntRange(0, 3).Draw(rt, "overwrite") == 0 {
				a.Set(k, k)
				ms[p.part(k)].set(k)
			}
		}

		c.NT(heavy > 1)

		for {
			k, ok := a.Evict()
			if !ok {
				break
			}

			if want, some := ms[p.part(k)].evict(); !some || want != k {
				rt.Fatalf("%s: evicted %q, lfu prescribes %q (%v)", p.name, k, want, some)
			}

			delete(live, k)
		}

		if len(live) > 0 {
			rt.Fatalf("%s: never evicted %v", p.name, live)
		}
	})
}
