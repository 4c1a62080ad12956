// Package vh is the shared harness library of /verif: it drives rapid
// properties, counts what was generated, and writes the per-run
// statistics from which the evidence file is made.
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

const maxSamples = 6

// Stats is what one sub-check (one Run call) reports.
type Stats struct {
	Sub         string            `json:"sub"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"nontrivial"`
	Distinct    int               `json:"distinct_nontrivial"`
	Labels      map[string]int    `json:"labels"`
	Samples     []string          `json:"samples"`
	Known       map[string]int    `json:"known,omitempty"`
	KnownWhat   map[string]string `json:"known_what,omitempty"`
	Failed      bool              `json:"failed"`

	mu   sync.Mutex
	seen map[uint64]struct{}
}

// Case collects facts about the case being executed.
type Case struct {
	st         *Stats
	nontrivial bool
	key        strings.Builder
	log        strings.Builder
	labels     map[string]bool
	known      map[string]string
}

// NT marks the current case as non-trivial (when cond holds).
func (c *Case) NT(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Log appends one step to the case description (also its identity).
func (c *Case) Log(format string, args ...any) {
	if c.log.Len() < 1<<16 {
		fmt.Fprintf(&c.log, format, args...)
		c.log.WriteString("; ")
	}
}

// Label counts a class the case belongs to.
func (c *Case) Label(l string) { c.labels[l] = true }

// LabelIf counts a class when cond holds.
func (c *Case) LabelIf(cond bool, l string) {
	if cond {
		c.labels[l] = true
	}
}

// Desc returns the log so far.
func (c *Case) Desc() string { return c.log.String() }

var (
	outMu sync.Mutex
	outs  []*Stats
)

// Scale multiplies case counts: 1 in the quick tier.
func Scale() float64 {
	if v := os.Getenv("VH_SCALE"); v != "" {
		if f, err := strconv.ParseFloat(v, 64); err == nil && f > 0 {
			return f
		}
	}

	return 1
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Run checks prop on n*Scale() generated cases. rule says how cases are
// made and what makes one non-trivial.
func Run(t *testing.T, sub, rule string, n int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()

	st := &Stats{Sub: sub, Rule: rule, Labels: map[string]int{}, Known: map[string]int{}, KnownWhat: map[string]string{}, seen: map[uint64]struct{}{}}

	outMu.Lock()
	outs = append(outs, st)
	outMu.Unlock()

	cnt := int(math.Ceil(float64(n) * Scale()))
	if f := flag.Lookup("rapid.checks"); f != nil {
		_ = f.Value.Set(strconv.Itoa(cnt))
	}

	defer func() {
		st.Failed = t.Failed()
		flush()
	}()

	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{st: st, labels: map[string]bool{}, known: map[string]string{}}
		ok := false

		defer func() {
			if !ok {
				return
			}

			st.mu.Lock()
			defer st.mu.Unlock()

			st.Evaluations++

			for l := range c.labels {
				st.Labels[l]++
			}

			if c.nontrivial {
				st.Nontrivial++

				h := fnv.New64a()
				_, _ = h.Write([]byte(c.log.String()))
				sum := h.Sum64()

				if _, dup := st.seen[sum]; !dup {
					st.seen[sum] = struct{}{}
					st.Distinct++

					// keep samples at spread positions of the run
					if len(st.Samples) < maxSamples && (st.Distinct == 1 || st.Distinct&(st.Distinct-1) == 0) {
						s := c.log.String()
						if len(s) > 1500 {
							s = s[:1500] + "..."
						}

						st.Samples = append(st.Samples, s)
					}
				}
			}
		}()

		prop(rt, c)

		ok = true
	})
}

func flush() {
	dir := os.Getenv("VH_OUT")
	if dir == "" {
		return
	}

	outMu.Lock()
	defer outMu.Unlock()

	sort.SliceStable(outs, func(i, j int) bool { return outs[i].Sub < outs[j].Sub })

	b, err := json.MarshalIndent(outs, "", " ")
	if err != nil {
		panic(err)
	}

	name := fmt.Sprintf("stats-%d.json", os.Getpid())
	if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
		panic(err)
	}
}
