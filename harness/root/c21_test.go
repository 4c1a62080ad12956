package root_test

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache"
)

// poolProbe counts the runs of every job and how many run at once.
type poolProbe struct {
	runs    []atomic.Int32
	running atomic.Int32
	high    atomic.Int32
}

func (p *poolProbe) job(i int, d time.Duration, fail bool, also func()) hypercache.JobFunc {
	return func() error {
		n := p.running.Add(1)
		for {
			h := p.high.Load()
			if n <= h || p.high.CompareAndSwap(h, n) {
				break
			}
		}

		if d > 0 {
			time.Sleep(d)
		}

		if also != nil {
			also()
		}

		p.runs[i].Add(1)
		p.running.Add(-1)

		if fail {
			return errors.New("job failed")
		}

		return nil
	}
}

// TestC21Model drives the pool in virtual time, where a deadlock is an error.
func TestC21Model(t *testing.T) {
	vh.Run(t, "model", "pools of 1..6 workers under histories of enqueues (jobs of different lengths, some failing, error channel read or not), resizes up and down including to zero, sleeps, and 1..3 overlapping shutdowns with late enqueues; in virtual time, so a stall is detected; every accepted job must run exactly once before shutdown returns, never more at a time than configured, and with enough workers the backlog finishes in the optimal time; non-trivial: >=8 jobs, a resize and a failing job", 10000, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			workers := rapid.IntRange(1, 6).Draw(rt, "workers")
			readErrs := rapid.Bool().Draw(rt, "readErrs")
			c.Log("workers=%d readErrs=%v", workers, readErrs)

			pool := hypercache.NewWorkerPool(workers)
			p := &poolProbe{runs: make([]atomic.Int32, 400)}
			size, most, jobs := workers, workers, 0

			var resized, failed bool

			if readErrs {
				go func() {
					for range pool.Errors() { //nolint:revive
					}
				}()
			}

			enqueue := func() int {
				i := jobs
				jobs++

				d := rapid.SampledFrom([]time.Duration{0, 0, time.Millisecond, time.Second}).Draw(rt, "len")
				fail := rapid.IntRange(0, 2).Draw(rt, "fail") == 0
				failed = failed || fail

				pool.Enqueue(p.job(i, d, fail, nil))

				return i
			}

			settle := func() { // all jobs accepted so far are done, if anyone works
				if size == 0 {
					return
				}

				time.Sleep(time.Duration(jobs+1) * time.Second)
				synctest.Wait()

				for i := range jobs {
					if n := p.runs[i].Load(); n != 1 {
						rt.Fatalf("job %d ran %d times although the pool of %d had time for all", i, n, size)
					}
				}

				if h := int(p.high.Load()); h > most {
					rt.Fatalf("%d jobs ran at once, at most %d workers were configured", h, most)
				}
			}

			backlog := 0 // jobs waiting while nobody works

			steps := rapid.IntRange(1, 30).Draw(rt, "steps")
			for range steps {
				switch op := rapid.SampledFrom([]string{"enqueue", "enqueue", "burst", "resize", "sleep", "settle", "parallel"}).Draw(rt, "op"); op {
				case "enqueue":
					if size == 0 {
						if backlog++; backlog > workers { // the buffer is as large as the initial pool
							continue
						}
					}

					c.Log("enqueue %d", enqueue())
				case "burst":
					if size == 0 {
						continue
					}

					for range rapid.IntRange(2, 10).Draw(rt, "n") {
						c.Log("enqueue %d", enqueue())
					}
				case "resize":
					settle() // so that the bound on running jobs is exact

					n := rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 5, 9, size}).Draw(rt, "n")
					c.Log("resize %d", n)
					pool.Resize(n)
					time.Sleep(time.Millisecond)
					synctest.Wait()

					if n >= 0 {
						resized = resized || n != size
						size, most = n, max(n, 1)

						if p.high.Store(0); n > 0 {
							backlog = 0
						}
					}
				case "parallel": // exactly size jobs can run at the same time
					if size == 0 {
						continue
					}

					settle()

					start := time.Now()

					for range size {
						i := jobs
						jobs++

						pool.Enqueue(p.job(i, time.Minute, false, nil))
					}

					time.Sleep(time.Minute - time.Since(start) + time.Second)
					synctest.Wait()

					for i := jobs - size; i < jobs; i++ {
						if p.runs[i].Load() != 1 {
							rt.Fatalf("a pool of %d workers did not run %d jobs in parallel", size, size)
						}
					}
				case "sleep":
					time.Sleep(rapid.SampledFrom([]time.Duration{time.Millisecond, time.Second, time.Minute}).Draw(rt, "d"))
				case "settle":
					settle()
				}
			}

			// overlapping shutdowns, enqueues and resizes
			stops := rapid.IntRange(1, 3).Draw(rt, "stops")
			accepted := jobs

			var (
				wg   sync.WaitGroup
				left atomic.Int32
			)

			left.Store(-1)

			for range stops {
				wg.Go(func() {
					pool.Shutdown()

					for i := range accepted {
						if p.runs[i].Load() != 1 {
							left.Store(int32(i))
						}
					}
				})
			}

			late := rapid.SampledFrom([]int{-1, 0, 1, 4}).Draw(rt, "late")
			if late >= 0 {
				most = max(most, late)

				wg.Go(func() { pool.Resize(late) })
			}

			wg.Wait()

			if l := left.Load(); l >= 0 {
				rt.Fatalf("a shutdown returned although job %d had run %d times", l, p.runs[l].Load())
			}

			ran := false

			pool.Enqueue(func() error { ran = true; return nil })
			pool.Resize(rapid.SampledFrom([]int{0, 1, 8}).Draw(rt, "resize"))
			pool.Shutdown()
			time.Sleep(time.Second)
			synctest.Wait()

			if ran {
				rt.Fatalf("a job offered after the shutdown ran")
			}

			for i := range jobs {
				if n := p.runs[i].Load(); n != 1 {
					rt.Fatalf("job %d ran %d times", i, n)
				}
			}

			if h := int(p.high.Load()); h > most {
				rt.Fatalf("%d jobs ran at once, at most %d workers were configured", h, most)
			}

			c.NT(jobs >= 8 && resized && failed)
		})
	})
}

func TestC21Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "2..8 goroutines enqueue (partly failing, partly re-enqueueing) jobs while others resize and shut the pool down; no job runs twice, every job enqueued before the shutdown began has run when it returns, and nothing hangs; non-trivial: >=50 jobs ran", 250, func(rt *rapid.T, c *vh.Case) {
		workers := rapid.IntRange(1, 5).Draw(rt, "workers")
		n := rapid.IntRange(2, 8).Draw(rt, "n")
		per := rapid.IntRange(1, 60).Draw(rt, "per")
		sizes := rapid.SliceOfN(rapid.IntRange(0, 6), 0, 6).Draw(rt, "sizes")
		stops := rapid.IntRange(1, 2).Draw(rt, "stops")
		failEvery := rapid.IntRange(1, 4).Draw(rt, "failEvery")
		slow := time.Duration(rapid.IntRange(0, 30).Draw(rt, "slow")) * time.Microsecond
		early := rapid.Bool().Draw(rt, "early") // shut down while others enqueue
		c.Log("workers=%d n=%d per=%d sizes=%v stops=%d failEvery=%d slow=%v early=%v", workers, n, per, sizes, stops, failEvery, slow, early)

		sizes = append(sizes, 1)
		most := workers

		for _, s := range sizes {
			most = max(most, s)
		}

		pool := hypercache.NewWorkerPool(workers)
		p := &poolProbe{runs: make([]atomic.Int32, n*per)}
		enqueued := make([]atomic.Bool, n*per)

		var fail string

		vh.Within(rt, 30*time.Second, "pool operations", func() {
			var wg, rz sync.WaitGroup

			rz.Go(func() {
				for _, s := range sizes {
					pool.Resize(s)
				}
			})

			for g := range n {
				wg.Go(func() {
					for i := range per {
						id := g*per + i
						pool.Enqueue(p.job(id, slow, id%failEvery == 0, nil))
						enqueued[id].Store(true)
					}
				})
			}

			if !early {
				wg.Wait()
			}

			was := make([]bool, n*per)
			for i := range was {
				was[i] = enqueued[i].Load()
			}

			var (
				sg sync.WaitGroup
				mu sync.Mutex
			)

			for range stops {
				sg.Go(func() {
					pool.Shutdown()

					for i, w := range was {
						if w && p.runs[i].Load() != 1 {
							mu.Lock()

							fail = fmt.Sprintf("job %d had run %d times when a shutdown begun after it was accepted returned", i, p.runs[i].Load())

							mu.Unlock()
						}
					}
				})
			}

			sg.Wait()
			wg.Wait()
			rz.Wait()
		})

		if fail != "" {
			rt.Fatalf("%s", fail)
		}

		before := make([]int32, n*per)
		total := 0

		for i := range before {
			before[i] = p.runs[i].Load()
			total += int(before[i])

			if before[i] > 1 {
				rt.Fatalf("job %d ran %d times", i, before[i])
			}
		}

		time.Sleep(100 * time.Microsecond)

		for i := range before {
			if p.runs[i].Load() != before[i] {
				rt.Fatalf("job %d ran after the shutdown had returned", i)
			}
		}

		if h := int(p.high.Load()); h > most {
			rt.Fatalf("%d jobs ran at once, at most %d workers were ever configured", h, most)
		}

		c.NT(total >= 50)
	})
}
