package dist_test

import (
	"errors"
	"fmt"
	"net/url"
	"path"
	"slices"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/goccy/go-json"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

var listKey = rapid.OneOf(
	rapid.StringMatching(`[ab]{1,3}`),
	rapid.StringMatching(`(user|session):[0-9]{1,2}(/[ab])?`),
	rapid.StringMatching(`(user:|session:|a|b|u)[a-z]{30,120}`),
	rapid.SampledFrom([]string{"a*b", "a?b", "[ab]", "a[b", "日本", "日", "a b", "a+b", "a%2Ab", "UPPER", "upper", "a\\b", "é"}),
)

var listPattern = rapid.OneOf(
	rapid.Just(""),
	rapid.StringMatching(`[ab]{1,2}`),
	rapid.SampledFrom([]string{"user:", "user:*", "session:?", "session:??", "*", "*/*", "user:*/a", "[ab]", "[a-b]*", "[^a]*", "a\\*b", "a?b", "?", "日*", "日", "u", "A", "a+", "a%", "a b*", "é*", "user:1"}),
	rapid.SampledFrom([]string{"[", "a[", "[]a]", "[a-", "*[", "[^", "a\\", "*\\"}),
)

// matcher is the documented rule: empty all, glob characters path.Match, else
// a prefix. ok is false for an invalid glob.
func matcher(pattern string) (func(string) bool, bool) {
	if !strings.ContainsAny(pattern, "*?[") {
		return func(k string) bool { return strings.HasPrefix(k, pattern) }, true
	}

	if _, err := path.Match(pattern, ""); err != nil {
		return nil, false
	}

	return func(k string) bool {
		ok, _ := path.Match(pattern, k)

		return ok
	}, true
}

// checkListing compares a listing with the matching keys of the reachable
// nodes.
func checkListing(rt *rapid.T, c *vh.Case, got backend.ListKeysResult, want []string, most int, missing []string) {
	if !sort.StringsAreSorted(got.Keys) || len(slices.Compact(slices.Clone(got.Keys))) != len(got.Keys) {
		rt.Fatalf("not sorted or with duplicates: %q\n%s", got.Keys, c.Desc())
	}

	if most <= 0 {
		most = 10000
	}

	if len(want) <= most {
		if !slices.Equal(got.Keys, want) {
			rt.Fatalf("listed %q, want %q\n%s", got.Keys, want, c.Desc())
		}

		if got.Truncated {
			rt.Fatalf("all %d keys listed with room for %d, but marked truncated\n%s", len(want), most, c.Desc())
		}
	} else {
		if len(got.Keys) != most || !got.Truncated {
			rt.Fatalf("%d keys, truncated %v, want the %d asked for of %d\n%s", len(got.Keys), got.Truncated, most, len(want), c.Desc())
		}

		for _, k := range got.Keys {
			if !slices.Contains(want, k) {
				rt.Fatalf("listed %q, not one of %q\n%s", k, want, c.Desc())
			}
		}
	}

	sort.Strings(got.PartialNodes)

	if !slices.Equal(got.PartialNodes, missing) {
		rt.Fatalf("named %q as missing, want %q\n%s", got.PartialNodes, missing, c.Desc())
	}
}

// listing is what a listing through node from has to find.
func listing(cl *clu, from int, match func(string) bool, reachable func(j int) bool) ([]string, []string) {
	set := map[string]bool{}
	missing := []string{}

	for j, nd := range cl.nodes {
		if n := member(cl, j); n == nil || n.State != cluster.NodeAlive {
			continue
		}

		if j != from && !reachable(j) {
			missing = append(missing, cl.id(j))

			continue
		}

		for k, s := range contents(nd) {
			if s.has && match(k) {
				set[k] = true
			}
		}
	}

	want := make([]string, 0, len(set))
	for k := range set {
		want = append(want, k)
	}

	sort.Strings(want)
	sort.Strings(missing)

	return want, missing
}

// bulks are numbers of further keys, now and then beyond what a listing has
// room for.
var bulks = append(slices.Repeat([]int{0}, 84), 10050, 300, 300, 600, 600, 1100)

// addBulk sets n keys through random nodes.
func addBulk(rt *rapid.T, cl *clu, n int) {
	for i := range n {
		if err := cl.nodes[i%len(cl.nodes)].Set(bg, mkItem(fmt.Sprint("user:", i), i)); err != nil {
			rt.Fatalf("set: %v", err)
		}
	}
}

func member(cl *clu, j int) *cluster.Node {
	for _, n := range cl.ms.List() {
		if string(n.ID) == cl.id(j) {
			return n
		}
	}

	return nil
}

func TestC28(t *testing.T) {
	vh.Run(t, "fan-out", "1-7 nodes, replication 1-3, 0-60 keys (now and then hundreds or more than the default maximum), short and long, sets and removes also while links are cut, members marked suspect; ListKeys through every node with prefixes, globs, invalid globs and maxima around the number of matches against the union of what the alive, reachable nodes hold; non-trivial: matches on two nodes or more, an unreachable node or a truncated listing", 1200, func(rt *rapid.T, c *vh.Case) {
		n, rf := rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 7)).Draw(rt, "nodes"), rapid.IntRange(1, 3).Draw(rt, "rf")
		cl := newClu(rt, n, rf, backend.WithDistShardCount(rapid.SampledFrom([]int{1, 4, 32}).Draw(rt, "shards")))
		defer cl.stop()

		keys := rapid.SliceOfNDistinct(listKey, 0, 40, rapid.ID[string]).Draw(rt, "keys")
		for i, k := range keys {
			if err := cl.nodes[i%n].Set(bg, mkItem(k, i)); err != nil {
				rt.Fatalf("set %q: %v", k, err)
			}
		}

		for i := range keys {
			if rapid.IntRange(0, 5).Draw(rt, "rm") == 0 {
				_ = cl.nodes[i%n].Remove(bg, keys[i])
			}
		}

		bulk := rapid.SampledFrom(bulks).Draw(rt, "bulk")
		addBulk(rt, cl, bulk)

		if n > 1 {
			if rapid.IntRange(0, 4).Draw(rt, "isolate") == 0 {
				cl.isolate(rapid.IntRange(0, n-1).Draw(rt, "whom"), false)
			}

			for range rapid.IntRange(0, 3).Draw(rt, "cuts") {
				i, j := rapid.IntRange(0, n-1).Draw(rt, "from"), rapid.IntRange(0, n-1).Draw(rt, "to")
				if i != j {
					cl.link(i, j, false)
					c.Log("cut %d->%d", i, j)
				}
			}

			if rapid.IntRange(0, 3).Draw(rt, "suspect") == 0 {
				j := rapid.IntRange(0, n-1).Draw(rt, "whom")
				cl.ms.Mark(cluster.NodeID(cl.id(j)), rapid.SampledFrom([]cluster.NodeState{cluster.NodeSuspect, cluster.NodeDead}).Draw(rt, "state"))
				c.Log("%d is %v", j, member(&*cl, j).State)
			}
		}

		spread, truncated, partial := false, false, false

		for range rapid.IntRange(1, 6).Draw(rt, "queries") {
			from, pattern := rapid.IntRange(0, n-1).Draw(rt, "via"), listPattern.Draw(rt, "pattern")

			match, valid := matcher(pattern)
			if !valid {
				c.Log("n%d %q invalid", from, pattern)

				if res, err := cl.nodes[from].ListKeys(bg, pattern, 0); !errors.Is(err, path.ErrBadPattern) || len(res.Keys) > 0 {
					rt.Fatalf("pattern %q: %v, %v\n%s", pattern, res, err, c.Desc())
				}

				continue
			}

			want, missing := listing(cl, from, match, func(j int) bool { return !cl.down[[2]int{from, j}] })
			most := rapid.SampledFrom([]int{0, -1, 1, len(want) - 1, len(want), len(want) + 1, len(want) / 2, 1000, 0}).Draw(rt, "max")
			c.Log("n%d %q max %d: %d match", from, pattern, most, len(want))

			got, err := cl.nodes[from].ListKeys(bg, pattern, most)
			if err != nil {
				rt.Fatalf("%v\n%s", err, c.Desc())
			}

			checkListing(rt, c, got, want, most, missing)

			spread = spread || (len(want) > 1 && n > 1)
			truncated = truncated || got.Truncated
			partial = partial || len(missing) > 0
		}

		c.LabelIf(bulk > 0, "many keys")
		c.LabelIf(truncated, "truncated")
		c.LabelIf(partial, "unreachable")
		c.NT(spread && (partial || truncated))
	})
}

func TestC28HTTP(t *testing.T) {
	vh.Run(t, "http", "1-3 nodes with HTTP servers, 0-60 keys, 1-2000 shards, and possibly a member that refuses connections; ListKeys and paging through /internal/keys with and without limits against what the nodes hold; non-trivial: several pages and matches on two nodes", 60, func(rt *rapid.T, c *vh.Case) {
		n, rf := rapid.IntRange(1, 3).Draw(rt, "nodes"), rapid.IntRange(1, 2).Draw(rt, "rf")
		shards := rapid.SampledFrom([]int{1, 2, 8, 8, 64, 1100}).Draw(rt, "shards")
		cl := newHTTPClu(rt, n, rf, backend.DistHTTPAuth{}, backend.DistHTTPLimits{}, backend.WithDistShardCount(shards))
		defer cl.stop()

		for i, k := range rapid.SliceOfNDistinct(listKey, 0, 60, rapid.ID[string]).Draw(rt, "keys") {
			if err := cl.nodes[i%n].Set(bg, mkItem(k, i)); err != nil {
				rt.Fatalf("set %q: %v", k, err)
			}
		}

		var dead []string
		if rapid.IntRange(0, 2).Draw(rt, "dead") == 0 {
			cl.ms.Upsert(cluster.NewNode("gone", "127.0.0.1:1"))

			dead = []string{"gone"}
		}

		c.Log("%d nodes rf %d, %d shards", n, rf, shards)

		spread := false

		for range rapid.IntRange(1, 4).Draw(rt, "queries") {
			from, pattern := rapid.IntRange(0, n-1).Draw(rt, "via"), listPattern.Draw(rt, "pattern")

			match, valid := matcher(pattern)
			if !valid {
				if status, _ := call(rt, "GET", "http://"+cl.addr[from]+"/internal/keys?"+url.Values{"q": {pattern}}.Encode(), nil, nil); status != 400 {
					rt.Fatalf("pattern %q: status %d", pattern, status)
				}

				continue
			}

			want, missing := listing(&cl.clu, from, match, func(int) bool { return true })
			most := rapid.SampledFrom([]int{0, 1, len(want) - 1, len(want), len(want) + 1}).Draw(rt, "max")
			c.Log("n%d %q max %d: %d match", from, pattern, most, len(want))

			got, err := cl.nodes[from].ListKeys(bg, pattern, most)
			if err != nil {
				rt.Fatalf("%v\n%s", err, c.Desc())
			}

			checkListing(rt, c, got, want, most, append(missing, dead...))

			// One node's own keys, page by page.
			limit := rapid.SampledFrom([]int{0, 0, 1, 3, 100}).Draw(rt, "limit")
			paged, pages := walk(rt, c, cl.addr[from], pattern, limit)

			var own []string
			for k, s := range contents(cl.nodes[from]) {
				if s.has && match(k) {
					own = append(own, k)
				}
			}

			sort.Strings(own)
			sort.Strings(paged)

			if !slices.Equal(own, paged) {
				rt.Fatalf("paging with limit %d found %q, node holds %q\n%s", limit, paged, own, c.Desc())
			}

			spread = spread || (len(want) > 1 && n > 1 && pages > 1)
		}

		c.LabelIf(len(dead) > 0, "unreachable")
		c.LabelIf(shards > 1024, "many shards")
		c.NT(spread)
	})
}

func TestC28HTTPMany(t *testing.T) {
	vh.Run(t, "http, many keys", "2 nodes with HTTP servers, 2500-12000 keys in 1-64 shards; every listing against what the nodes hold; non-trivial: all", 5, func(rt *rapid.T, c *vh.Case) {
		shards := rapid.SampledFrom([]int{2, 8, 64}).Draw(rt, "shards")
		cl := newHTTPClu(rt, 2, 1, backend.DistHTTPAuth{}, backend.DistHTTPLimits{}, backend.WithDistShardCount(shards))
		defer cl.stop()

		n := rapid.SampledFrom([]int{2500, 4000, 5200, 9500, 12000}).Draw(rt, "keys")
		addBulk(rt, &cl.clu, n)
		c.Log("%d keys, %d shards", n, shards)
		c.NT(true)

		for i, pattern := range []string{"", "user:", "user:*", "user:1"} {
			match, _ := matcher(pattern)
			want, _ := listing(&cl.clu, i%2, match, func(int) bool { return true })
			most := rapid.SampledFrom([]int{0, len(want), len(want) - 1, 1500}).Draw(rt, "max")

			got, err := cl.nodes[i%2].ListKeys(bg, pattern, most)
			if err != nil {
				rt.Fatalf("%v\n%s", err, c.Desc())
			}

			checkListing(rt, c, got, want, most, nil)
		}
	})
}

// walk follows the cursor of /internal/keys; a truncated page is asked for
// again with a larger limit, as documented.
func walk(rt *rapid.T, c *vh.Case, addr, pattern string, limit int) ([]string, int) {
	var out []string

	cursor, pages := "", 0

	for lim := limit; ; pages++ {
		q := url.Values{}
		if cursor != "" {
			q.Set("cursor", cursor)
		}

		if pattern != "" {
			q.Set("q", pattern)
		}

		if lim > 0 {
			q.Set("limit", fmt.Sprint(lim))
		}

		status, body := call(rt, "GET", "http://"+addr+"/internal/keys?"+q.Encode(), nil, nil)

		var page struct {
			Keys      []string `json:"keys"`
			Next      string   `json:"next_cursor"`
			Truncated bool     `json:"truncated"`
		}

		if err := json.Unmarshal(body, &page); status != 200 || err != nil {
			rt.Fatalf("page %s: %d %s\n%s", q.Encode(), status, body, c.Desc())
		}

		if lim > 0 && len(page.Keys) > lim {
			rt.Fatalf("page of %d for limit %d\n%s", len(page.Keys), lim, c.Desc())
		}

		if page.Truncated {
			if lim == 0 || len(page.Keys) != lim || (page.Next != cursor && !(cursor == "" && page.Next == "0")) {
				rt.Fatalf("truncated page of %d for limit %d, cursor %q then %q\n%s", len(page.Keys), lim, cursor, page.Next, c.Desc())
			}

			lim *= 2

			continue
		}

		out, lim = append(out, page.Keys...), limit
		if page.Next == "" {
			return out, pages + 1
		}

		if pages > 5000 {
			rt.Fatalf("paging does not end\n%s", c.Desc())
		}

		cursor = page.Next
	}
}
