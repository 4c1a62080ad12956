package stats_test

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

var names = []constants.Stat{constants.StatIncr, constants.StatDecr, constants.StatTiming, constants.StatGauge, constants.StatHistogram, "incr ", "Incr", "", "x.y"}

func record(c stats.ICollector, kind string, s constants.Stat, v int64) int64 {
	switch kind {
	case "incr":
		c.Incr(s, v)
	case "decr":
		c.Decr(s, v)

		return -v
	case "timing":
		c.Timing(s, v)
	case "gauge":
		c.Gauge(s, v)
	default:
		c.Histogram(s, v)
	}

	return v
}

func near(a, b, scale float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(scale, math.Max(math.Abs(a), math.Abs(b)))
}

func extent(vals []int64) float64 {
	m := 0.0
	for _, v := range vals {
		m = math.Max(m, math.Abs(float64(v)))
	}

	return m
}

// compare checks one statistic against everything recorded for it.
func compare(all []int64, window int, st *stats.Stat) error {
	var sum int64

	lo, hi := int64(math.MaxInt64), int64(math.MinInt64)

	for _, v := range all {
		sum += v
		lo, hi = min(lo, v), max(hi, v)
	}

	if st.Count != len(all) || st.Sum != sum || st.Min != lo || st.Max != hi {
		return fmt.Errorf("count/sum/min/max are %d/%d/%d/%d, recorded %d/%d/%d/%d", st.Count, st.Sum, st.Min, st.Max, len(all), sum, lo, hi)
	}

	scale := extent(all)

	if mean := float64(sum) / float64(len(all)); !near(st.Mean, mean, scale*1e-3) {
		return fmt.Errorf("mean is %v, recorded %v", st.Mean, mean)
	}

	w := slices.Clone(all[max(0, len(all)-window):])
	slices.Sort(w)

	got := slices.Clone(st.Values)
	slices.Sort(got)

	if !slices.Equal(w, got) {
		return fmt.Errorf("values are %v, the last %d recorded are %v", got, window, w)
	}

	if med := medianRef(w); !near(st.Median, med, scale*1e-6) {
		return fmt.Errorf("median is %v, that of %v is %v", st.Median, w, med)
	}

	if vr, slack := varianceRef(w); math.Abs(st.Variance-vr) > slack {
		return fmt.Errorf("variance is %v, that of %v is %v (±%v)", st.Variance, w, vr, slack)
	}

	return nil
}

// varianceRef computes the variance exactly, and what the roundings of a
// float64 computation that subtracts the mean first may add to it. (Summing
// squares instead loses everything for values far from 0.)
func varianceRef(w []int64) (vr, slack float64) {
	n := big.NewInt(int64(len(w)))
	sum, squares := new(big.Int), new(big.Int)

	for _, v := range w {
		b := big.NewInt(v)
		sum.Add(sum, b)
		squares.Add(squares, b.Mul(b, b))
	}

	// (n*Σv² - (Σv)²) / n²
	squares.Mul(squares, n)
	squares.Sub(squares, sum.Mul(sum, sum))
	vr, _ = new(big.Rat).SetFrac(squares, n.Mul(n, n)).Float64()

	d := 0.0
	for _, v := range w {
		d = math.Max(d, math.Abs(float64(v)))
	}

	d *= 4 * float64(len(w)+4) * 0x1p-52

	return vr, 1e-9*vr + 4*math.Sqrt(vr)*d + 4*d*d + 1e-9
}

func medianRef(w []int64) float64 {
	n := len(w)
	if n == 0 {
		return 0
	}

	if n%2 == 1 {
		return float64(w[n/2])
	}

	return float64(w[n/2-1])/2 + float64(w[n/2])/2
}

func TestC05Model(t *testing.T) {
	vh.Run(t, "model", "random recording histories of all five kinds over 9 statistic names and windows of 1..400 samples, aggregates and order statistics compared with the recorded lists after random prefixes, earlier snapshots re-read at the end; values from tiny to 2^62, also close together far from 0; non-trivial: some statistic outgrows its window and >=2 statistics are used", 700, func(rt *rapid.T, c *vh.Case) {
		window := rapid.OneOf(rapid.IntRange(1, 64), rapid.IntRange(1, 64), rapid.IntRange(100, 400)).Draw(rt, "window")

		var col *stats.HistogramStatsCollector

		switch rapid.IntRange(0, 9).Draw(rt, "ctor") {
		case 0:
			window = stats.DefaultSampleCapacity
			col = stats.NewHistogramStatsCollector()
		case 1:
			col = stats.NewHistogramStatsCollectorWithCapacity(-window)
			window = stats.DefaultSampleCapacity
		default:
			col = stats.NewHistogramStatsCollectorWithCapacity(window)
		}

		all := map[constants.Stat][]int64{}
		sums := map[constants.Stat]float64{}
		nStats := rapid.IntRange(1, 4).Draw(rt, "nstats")
		huge := rapid.IntRange(0, 3).Draw(rt, "big") == 0

		val := rapid.Int64Range(-50, 50)
		if huge {
			val = rapid.OneOf(rapid.Int64Range(-(1<<62), 1<<62), rapid.Int64Range(1<<61, 1<<62), rapid.SampledFrom([]int64{math.MaxInt64, -math.MaxInt64, 0}))
		}

		if far := rapid.IntRange(0, 4).Draw(rt, "far"); far == 0 && !huge { // close together, far from 0: timestamps, say
			at := rapid.SampledFrom([]int64{1_700_000_000, 1_700_000_000_000, -1_700_000_000, 1 << 40, 1 << 50}).Draw(rt, "at")
			val = rapid.Int64Range(at, at+rapid.Int64Range(1, 1_000_000).Draw(rt, "spread"))
		}

		type snap struct {
			s    stats.Stats
			name constants.Stat
			copy []int64
		}

		var snaps []snap

		c.Log("window=%d", window)

		steps := rapid.IntRange(1, 150).Draw(rt, "steps")
		pad := 0 // values recorded alongside, so that the window holds hundreds

		if window > 64 && window < 1000 {
			pad = rapid.IntRange(0, 9).Draw(rt, "pad")
		}

		for i := range steps {
			s := names[rapid.IntRange(0, nStats-1).Draw(rt, "s")]
			kind := rapid.SampledFrom([]string{"incr", "decr", "timing", "gauge", "hist"}).Draw(rt, "kind")
			v := val.Draw(rt, "v")

			d := float64(v)
			if kind == "decr" {
				d = -d
			}

			// keep the true sum inside int64
			if math.Abs(sums[s]+d) > float64(1<<62) {
				continue
			}

			sums[s] += d
			all[s] = append(all[s], record(col, kind, s, v))
			c.Log("%s %s %d", kind, s, v)

			for j := range pad {
				p := v + int64(j*7919)%1000 - 500
				if kind == "decr" {
					p = -v + int64(j*7919)%1000 - 500
				}

				if math.Abs(sums[s]+float64(p)) > float64(1<<62) || v > 1<<61 || v < -1<<61 {
					continue
				}

				sums[s] += float64(p)
				all[s] = append(all[s], record(col, "hist", s, p))
			}

			if rapid.IntRange(0, 19).Draw(rt, "look") > 0 && i != steps-1 {
				continue
			}

			got := col.GetStats()
			if len(got) != len(all) {
				rt.Fatalf("statistics for %d names, recorded %d", len(got), len(all))
			}

			for name, vals := range all {
				st := got[name.String()]
				if st == nil {
					rt.Fatalf("no statistic %q", name)
				}

				if err := compare(vals, window, st); err != nil {
					rt.Fatalf("statistic %q: %v", name, err)
				}

				var exact float64
				for _, v := range vals {
					exact += float64(v)
				}

				if m := col.Mean(name); !near(m, exact/float64(len(vals)), extent(vals)*1e-3) {
					rt.Fatalf("Mean(%q) = %v, want %v", name, m, exact/float64(len(vals)))
				}

				w := slices.Clone(vals[max(0, len(vals)-window):])
				slices.Sort(w)

				if m := col.Median(name); !near(m, medianRef(w), extent(vals)*1e-6) {
					rt.Fatalf("Median(%q) = %v, want %v", name, m, medianRef(w))
				}

				for _, p := range []float64{-1, 0, 0.5, 0.9, 0.95, 0.99, 0.995, 0.999, 1, 2, rapid.Float64Range(0, 1).Draw(rt, "p")} {
					pv := col.Percentile(name, p)
					below, upto, member := 0, 0, false

					for _, v := range w {
						f := float64(v)
						member = member || f == pv

						if f < pv {
							below++
						}

						if f <= pv {
							upto++
						}
					}

					q := math.Min(math.Max(p, 0), 1) * float64(len(w))

					if !member || float64(below) > q+1e-9 || float64(upto) < q-1e-9 {
						rt.Fatalf("Percentile(%q, %v) = %v of the window %v", name, p, pv, w)
					}
				}

				if len(snaps) < 10 {
					snaps = append(snaps, snap{got, name, slices.Clone(st.Values)})
				}
			}
		}

		over := 0

		for _, vals := range all {
			if len(vals) > window {
				over++
			}
		}

		for _, s := range snaps {
			if !slices.Equal(s.s[s.name.String()].Values, s.copy) {
				rt.Fatalf("a snapshot of %q changed from %v to %v", s.name, s.copy, s.s[s.name.String()].Values)
			}
			// a caller may overwrite a snapshot
			for i := range s.copy {
				s.s[s.name.String()].Values[i] = 12345678
			}
		}

		if steps > 0 {
			got := col.GetStats()
			for name, vals := range all {
				if err := compare(vals, window, got[name.String()]); err != nil {
					rt.Fatalf("after overwriting snapshots, %q: %v", name, err)
				}
			}
		}

		if v := col.Median("never"); v != 0 {
			rt.Fatalf("median of nothing is %v", v)
		}

		if _, ok := col.GetStats()["never"]; ok {
			rt.Fatalf("asking for a median created a statistic")
		}

		c.NT(over > 0 && len(all) >= 2)
		c.LabelIf(huge, "large values")
	})
}

func TestC05Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "2..8 goroutines record random values to shared and private statistics while a reader takes snapshots; final count, sum, min, max are exact and window values were all recorded; non-trivial: >=3 writers on a shared statistic", 120, func(rt *rapid.T, c *vh.Case) {
		window := rapid.IntRange(1, 32).Draw(rt, "window")
		col := stats.NewHistogramStatsCollectorWithCapacity(window)
		w := rapid.IntRange(2, 8).Draw(rt, "w")
		plans := make([][]int64, w)

		for i := range w {
			plans[i] = rapid.SliceOfN(rapid.Int64Range(-1000, 1000), 10, 60).Draw(rt, "plan")
		}

		rep := rapid.IntRange(1, 20).Draw(rt, "rep")
		c.Log("window=%d w=%d rep=%d %v", window, w, rep, plans[0])

		shared := map[int64]int{}

		var (
			n        int
			sum      int64
			lo, hi   = int64(math.MaxInt64), int64(math.MinInt64)
			wg, rdWG sync.WaitGroup
		)

		stop := make(chan struct{})
		start := make(chan struct{})

		rdWG.Go(func() {
			for {
				select {
				case <-stop:
					return
				default:
					col.GetStats()
					col.Percentile("s", 0.5)
				}
			}
		})

		for i := range w {
			for _, v := range plans[i] {
				n += rep
				sum += v * int64(rep)
				lo, hi = min(lo, v), max(hi, v)
				shared[v] += rep
			}

			wg.Go(func() {
				<-start

				own := constants.Stat(fmt.Sprintf("own%d", i))

				for range rep {
					for _, v := range plans[i] {
						col.Incr("s", v)
						col.Decr(own, v)
					}
				}
			})
		}

		close(start)
		wg.Wait()
		close(stop)
		rdWG.Wait()

		got := col.GetStats()
		s := got["s"]

		if s == nil || s.Count != n || s.Sum != sum || s.Min != lo || s.Max != hi {
			rt.Fatalf("shared statistic is %+v, recorded count %d sum %d min %d max %d", s, n, sum, lo, hi)
		}

		if len(s.Values) > window {
			rt.Fatalf("%d values in a window of %d", len(s.Values), window)
		}

		for _, v := range s.Values {
			if shared[v] == 0 {
				rt.Fatalf("value %d was never recorded", v)
			}
		}

		for i := range w {
			o := got[fmt.Sprintf("own%d", i)]

			var (
				cnt int
				sm  int64
			)

			for _, v := range plans[i] {
				cnt += rep
				sm -= v * int64(rep)
			}

			if o == nil || o.Count != cnt || o.Sum != sm {
				rt.Fatalf("private statistic %d is %+v, recorded count %d sum %d", i, o, cnt, sm)
			}
		}

		c.NT(w >= 3)
	})
}

func TestC05Registry(t *testing.T) {
	vh.Run(t, "registry", "collectors by name: default ones are independent of each other, unknown and empty names fail, registered constructors and their errors are used as given; non-trivial: an overridden name", 200, func(rt *rapid.T, c *vh.Case) {
		a, err := stats.NewCollector("default")
		if err != nil {
			rt.Fatalf("default collector: %v", err)
		}

		b, err := stats.NewCollector("default")
		if err != nil {
			rt.Fatalf("default collector: %v", err)
		}

		v := rapid.Int64Range(1, 100).Draw(rt, "v")
		a.Incr("s", v)

		if len(b.GetStats()) != 0 || a.GetStats()["s"].Sum != v {
			rt.Fatalf("collectors share statistics")
		}

		name := rapid.SampledFrom([]string{"default", "other", "Default"}).Draw(rt, "name")
		c.Log("%s %d", name, v)

		if _, err := stats.NewCollector("nope"); !errors.Is(err, sentinel.ErrStatsCollectorNotFound) {
			rt.Fatalf("unknown collector: %v", err)
		}

		if _, err := stats.NewCollector(""); !errors.Is(err, sentinel.ErrParamCannotBeEmpty) {
			rt.Fatalf("empty collector name: %v", err)
		}

		reg := stats.NewCollectorRegistry()
		if rapid.Bool().Draw(rt, "empty") {
			reg = stats.NewEmptyCollectorRegistry()

			if _, err := reg.NewCollector("default"); !errors.Is(err, sentinel.ErrStatsCollectorNotFound) {
				rt.Fatalf("empty registry: %v", err)
			}
		}

		boom := errors.New("boom")
		fail := rapid.Bool().Draw(rt, "fail")
		reg.Register(name, func() (stats.ICollector, error) {
			if fail {
				return nil, boom
			}

			return a, nil
		})

		got, err := reg.NewCollector(name)
		if fail && !errors.Is(err, boom) || !fail && (err != nil || got != a) {
			rt.Fatalf("registered collector: %v %v", got, err)
		}

		c.NT(name == "default")
	})
}

func TestC05Extremes(t *testing.T) {
	vh.Run(t, "extremes", "2..8 goroutines released together record interleaved falling, rising or zig-zag staircases to a statistic nobody used before, 300 such races per case; each race must end with exact count, sum, min and max; non-trivial: the extremes fall to different writers", 40, func(rt *rapid.T, c *vh.Case) {
		w := rapid.IntRange(2, 8).Draw(rt, "w")
		steps := rapid.IntRange(1, 12).Draw(rt, "steps")
		shape := rapid.IntRange(0, 2).Draw(rt, "shape")
		base := rapid.Int64Range(-1000, 1000).Draw(rt, "base")
		perm := rapid.Permutation(upTo(w)).Draw(rt, "perm")
		spin := rapid.IntRange(0, 40).Draw(rt, "spin")
		c.Log("w=%d steps=%d shape=%d base=%d perm=%v", w, steps, shape, base, perm)

		const rounds = 300

		value := func(g, k int) int64 {
			switch shape {
			case 0:
				return base + int64((steps-1-k)*w+perm[g])
			case 1:
				return base + int64(k*w+perm[g])
			default:
				v := int64(k*w + perm[g] + 1)
				if k%2 == 0 {
					v = -v
				}

				return base + v
			}
		}

		var (
			sum    int64
			lo, hi = int64(math.MaxInt64), int64(math.MinInt64)
		)

		for g := range w {
			for k := range steps {
				v := value(g, k)
				sum += v
				lo, hi = min(lo, v), max(hi, v)
			}
		}

		col := stats.NewHistogramStatsCollectorWithCapacity(4)
		names := make([]constants.Stat, rounds)

		for i := range names {
			names[i] = constants.Stat(fmt.Sprintf("s%d", i))
		}

		var (
			wg      sync.WaitGroup
			arrived atomic.Int64
			sink    atomic.Int64
		)

		for g := range w {
			wg.Go(func() {
				for r := range rounds {
					// every writer enters round r together
					arrived.Add(1)

					for n := 0; arrived.Load() < int64((r+1)*w); n++ {
						if n > 200 {
							runtime.Gosched()
						}
					}

					for n := range spin * g % 41 {
						sink.Add(int64(n))
					}

					for k := range steps {
						col.Gauge(names[r], value(g, k))
					}
				}
			})
		}

		wg.Wait()

		got := col.GetStats()

		for _, name := range names {
			s := got[name.String()]
			if s == nil || s.Count != w*steps || s.Sum != sum || s.Min != lo || s.Max != hi {
				rt.Fatalf("statistic %s is %+v, recorded count %d sum %d min %d max %d", name, s, w*steps, sum, lo, hi)
			}
		}

		c.NT(w*steps > 2)
	})
}

func upTo(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}

	return out
}
