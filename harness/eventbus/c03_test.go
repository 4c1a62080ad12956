package eventbus_test

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/eventbus"
)

type sub struct {
	ch     <-chan eventbus.Event
	unsub  func()
	cancel context.CancelFunc
	want   []uint64 // queued, not yet received
	closed bool
}

// stampOf is the publisher's own time of an event, past or future.
func stampOf(v uint64) time.Time {
	if v%4 == 0 {
		return time.Date(2400, 1, 1, 0, 0, int(v), 0, time.UTC)
	}

	return time.Unix(int64(v), 123456789)
}

// payloadOf and typeOf leave runs of versions with nothing to tell them apart.
func payloadOf(v uint64) string {
	if v%11 > 6 {
		return "same"
	}

	return fmt.Sprintf("p%d", v)
}

func typeOf(v uint64) string {
	if v%11 > 6 {
		return "t"
	}

	return fmt.Sprintf("t%d", v%3)
}

// expiring is a context that ends like one whose deadline has passed, at a
// moment of the caller's choice.
type expiring struct {
	context.Context
	done chan struct{}
	once *sync.Once
}

func (e expiring) Done() <-chan struct{} { return e.done }

func (e expiring) Err() error {
	select {
	case <-e.done:
		return context.DeadlineExceeded
	default:
		return nil
	}
}

func genCtx(rt *rapid.T) (context.Context, context.CancelFunc) {
	switch rapid.IntRange(0, 3).Draw(rt, "ctx") {
	case 0:
		e := expiring{context.Background(), make(chan struct{}), &sync.Once{}}

		return e, func() { e.once.Do(func() { close(e.done) }) }
	case 1:
		ctx, cancel := context.WithCancelCause(context.Background())

		return ctx, func() { cancel(fmt.Errorf("connection lost")) }
	case 2:
		parent, cancel := context.WithCancel(context.Background())
		ctx, c2 := context.WithTimeout(parent, 1000*time.Hour)

		return ctx, func() { cancel(); c2() }
	}

	return context.WithCancel(context.Background())
}

// Sequential histories against a queue model, with the bus's goroutines
// brought to rest after every step.
func TestC03Model(t *testing.T) {
	vh.Run(t, "model", "random subscribe/publish/receive/unsubscribe/cancel histories with up to 6 subscribers against a model of bounded queues, at rest after each step; non-trivial: >=2 subscribers, a full buffer forces an event out and a subscription ends while others go on", 600, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			b := eventbus.New()

			var subs []*sub

			defer func() {
				for _, s := range subs {
					s.cancel()
				}

				synctest.Wait()
			}()

			var (
				last, dropped uint64
				ended, maxSub int
				pubN          int
			)

			live := func() int {
				n := 0

				for _, s := range subs {
					if !s.closed {
						n++
					}
				}

				return n
			}

			recv := func(s *sub) {
				select {
				case e, ok := <-s.ch:
					switch {
					case ok && len(s.want) == 0:
						rt.Fatalf("received event %d, nothing was due", e.Version)
					case !ok && len(s.want) > 0:
						rt.Fatalf("stream ended while event %d was still queued", s.want[0])
					case !ok && !s.closed:
						rt.Fatalf("stream of a live subscription ended")
					case ok:
						if e.Version != s.want[0] {
							rt.Fatalf("received event %d, next one due is %d", e.Version, s.want[0])
						}

						if e.Type != typeOf(e.Version) || e.Payload != payloadOf(e.Version) {
							rt.Fatalf("event %d arrived as %q/%v", e.Version, e.Type, e.Payload)
						}

						if e.Timestamp.IsZero() || e.Version%2 == 0 && !e.Timestamp.Equal(stampOf(e.Version)) {
							rt.Fatalf("event %d has timestamp %v", e.Version, e.Timestamp)
						}

						s.want = s.want[1:]
					}
				default:
					if len(s.want) > 0 {
						rt.Fatalf("event %d is due but nothing is there to receive", s.want[0])
					}

					if s.closed {
						rt.Fatalf("the stream of an ended subscription is still open")
					}
				}
			}

			for range rapid.IntRange(1, 80).Draw(rt, "steps") {
				op := rapid.SampledFrom([]string{"sub", "pub", "pub", "burst", "recv", "recv", "unsub", "cancel", "both"}).Draw(rt, "op")

				var s *sub
				if len(subs) > 0 {
					s = subs[rapid.IntRange(0, len(subs)-1).Draw(rt, "which")]
				}

				switch op {
				case "sub":
					if live() >= 6 {
						continue
					}

					ctx, cancel := genCtx(rt)
					dead := rapid.IntRange(0, 12).Draw(rt, "dead") == 0

					if dead { // the context is over before the subscription begins
						cancel()
					}

					ch, un := b.Subscribe(ctx)
					subs = append(subs, &sub{ch: ch, unsub: un, cancel: cancel, closed: dead})

					if dead {
						ended++

						synctest.Wait()
					}
				case "pub", "burst":
					n := 1
					if op == "burst" {
						n = rapid.IntRange(2, 25).Draw(rt, "n")
					}

					for range n {
						next := last + 1
						ev := eventbus.Event{Type: typeOf(next), Payload: payloadOf(next), Version: 77}

						if next%2 == 0 {
							ev.Timestamp = stampOf(next)
						}

						v := b.Publish(ev)
						if v != next {
							rt.Fatalf("publication %d got version %d", next, v)
						}

						last = v
						pubN++

						for _, s := range subs {
							if s.closed {
								continue
							}

							if len(s.want) < cap(s.ch) {
								s.want = append(s.want, v)
							} else {
								dropped++
							}
						}
					}
				case "recv":
					if s == nil {
						continue
					}

					for range rapid.IntRange(1, 20).Draw(rt, "k") {
						recv(s)
					}
				default:
					if s == nil {
						continue
					}

					if op != "cancel" {
						s.unsub()
					}

					if op != "unsub" {
						s.cancel()
						synctest.Wait()
					}

					if !s.closed {
						ended++
					}

					s.closed = true
				}

				synctest.Wait()
				c.Log("%s(%d)", op, len(subs))

				maxSub = max(maxSub, live())

				if got := b.SubscriberCount(); got != live() {
					rt.Fatalf("SubscriberCount %d, %d subscriptions are live", got, live())
				}

				if got := b.Dropped(); got != dropped {
					rt.Fatalf("Dropped %d, %d events were forced out", got, dropped)
				}
			}

			for _, s := range subs {
				for len(s.want) > 0 {
					recv(s)
				}

				recv(s)
			}

			c.NT(maxSub >= 2 && dropped > 0 && ended > 0 && pubN > 0)
			c.LabelIf(dropped > 0, "drops")
		})
	})
}

// Concurrent publishers, receivers, joiners and leavers.
func TestC03Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "2..6 publishers and 1..5 subscribers run concurrently, some subscribers read slowly or leave midway; per subscriber versions strictly increase and continue without gap but for counted drops; non-trivial: >=2 publishers, >=2 subscribers, >=100 events", 150, func(rt *rapid.T, c *vh.Case) {
		b := eventbus.New()
		pubs := rapid.IntRange(2, 6).Draw(rt, "pubs")
		per := rapid.IntRange(10, 120).Draw(rt, "per")
		nsub := rapid.IntRange(1, 5).Draw(rt, "subs")
		leavers := rapid.IntRange(0, 2).Draw(rt, "leavers")
		slow := rapid.IntRange(0, nsub).Draw(rt, "slow")
		c.Log("pubs=%d per=%d subs=%d slow=%d leavers=%d", pubs, per, nsub, slow, leavers)

		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()

		var recvWG, pubWG, leaveWG sync.WaitGroup

		got := make([][]eventbus.Event, nsub)
		uns := make([]func(), nsub)

		for i := range nsub {
			ch, un := b.Subscribe(ctx)
			uns[i] = un

			recvWG.Go(func() {
				for e := range ch {
					got[i] = append(got[i], e)

					if i < slow && len(got[i])%16 == 0 {
						time.Sleep(50 * time.Microsecond)
					}
				}
			})
		}

		var mu sync.Mutex

		versions := map[uint64]string{}
		badOrder := ""
		start := make(chan struct{})

		for p := range pubs {
			pubWG.Go(func() {
				<-start

				prev := uint64(0)

				for k := range per {
					id := fmt.Sprintf("%d/%d", p, k)
					v := b.Publish(eventbus.Event{Type: "x", Payload: id})

					mu.Lock()
					if v <= prev {
						badOrder = fmt.Sprintf("publisher %d got version %d after %d", p, v, prev)
					}

					if o, dup := versions[v]; dup {
						badOrder = fmt.Sprintf("version %d was given to %s and %s", v, o, id)
					}

					versions[v] = id
					mu.Unlock()

					prev = v
				}
			})
		}

		// subscriptions that come and go must not disturb the others; they
		// read everything they were given up to their end
		lv := make([][]eventbus.Event, leavers)

		for i := range leavers {
			leaveWG.Go(func() {
				<-start

				lctx, lcancel := context.WithCancel(ctx)
				ch, un := b.Subscribe(lctx)

				for k := range 5 {
					e, ok := <-ch
					if !ok {
						break
					}

					lv[i] = append(lv[i], e)
					_ = k
				}

				if i%2 == 0 {
					un()
				}

				lcancel()

				for e := range ch {
					lv[i] = append(lv[i], e)
				}
			})
		}

		close(start)

		vh.Within(rt, 30*time.Second, "publishing", pubWG.Wait)

		// end all streams
		dropped := b.Dropped()

		for _, u := range uns {
			u()
		}

		vh.Within(rt, 30*time.Second, "draining", recvWG.Wait)
		cancel()
		vh.Within(rt, 30*time.Second, "leaving", leaveWG.Wait)

		if badOrder != "" {
			rt.Fatalf("%s", badOrder)
		}

		total := uint64(pubs * per)
		if uint64(len(versions)) != total {
			rt.Fatalf("%d publications have %d versions", total, len(versions))
		}

		missing := uint64(0)

		check := func(name string, evs []eventbus.Event, gaps bool) {
			prev := uint64(0)

			for _, e := range evs {
				if e.Version <= prev {
					rt.Fatalf("%s received version %d after %d", name, e.Version, prev)
				}

				if versions[e.Version] != e.Payload {
					rt.Fatalf("%s received %v as version %d, it was published as %v", name, e.Payload, e.Version, versions[e.Version])
				}

				prev = e.Version
			}

			if gaps {
				missing += total - uint64(len(evs))
			}
		}

		for i := range nsub {
			check(fmt.Sprintf("subscriber %d", i), got[i], true)
		}

		for i := range leavers {
			check(fmt.Sprintf("leaver %d", i), lv[i], false)
		}

		if leavers == 0 && missing != dropped || missing > dropped {
			rt.Fatalf("subscribers missed %d events, %d drops are counted", missing, dropped)
		}

		if b.SubscriberCount() != 0 && !vh.Eventually(5*time.Second, func() bool { return b.SubscriberCount() == 0 }) {
			rt.Fatalf("%d subscriptions remain after all ended", b.SubscriberCount())
		}

		c.NT(pubs >= 2 && nsub >= 2 && total >= 100)
	})
}

// TestC03Many: subscribers by the hundred, and many come and go.
func TestC03Many(t *testing.T) {
	vh.Run(t, "many", "20..900 subscribers at a time, after 0..700 others came and went, some ending between publications: each live one gets every event in order, each ended one a closed stream; non-trivial: >=100 subscribers", 25, func(rt *rapid.T, c *vh.Case) {
		vh.Bubble(t, func() {
			b := eventbus.New()
			n := rapid.SampledFrom([]int{20, 70, 130, 300, 900}).Draw(rt, "subs")
			before := rapid.SampledFrom([]int{0, 100, 260, 700}).Draw(rt, "before")
			c.Log("%d subscribers after %d", n, before)
			c.NT(n >= 100)

			ctx, cancel := context.WithCancel(context.Background())
			subs := make([]*sub, 0, n)

			add := func() *sub {
				ch, un := b.Subscribe(ctx)

				return &sub{ch: ch, unsub: un}
			}

			for i := range n {
				subs = append(subs, add())

				for range before / n {
					add().unsub()
				}

				if i == 0 {
					for range before {
						add().unsub()
					}
				}
			}

			published := uint64(0)

			for range rapid.IntRange(1, 4).Draw(rt, "rounds") {
				for range rapid.IntRange(1, 6).Draw(rt, "events") {
					published++
					if v := b.Publish(eventbus.Event{Type: typeOf(published), Payload: payloadOf(published)}); v != published {
						rt.Fatalf("publication %d got version %d", published, v)
					}

					for _, s := range subs {
						if !s.closed && len(s.want) < cap(s.ch) {
							s.want = append(s.want, published)
						}
					}
				}

				for i, s := range subs {
					if (uint64(i)+published)%5 == 0 {
						continue // reads later
					}

					for len(s.want) > 0 {
						select {
						case e, ok := <-s.ch:
							if !ok || e.Version != s.want[0] {
								rt.Fatalf("subscriber %d of %d got event %d (%v), due is %d", i, n, e.Version, ok, s.want[0])
							}

							s.want = s.want[1:]
						default:
							rt.Fatalf("subscriber %d of %d: event %d is due but not there", i, n, s.want[0])
						}
					}
				}

				end := rapid.IntRange(0, n-1).Draw(rt, "end")
				subs[end].unsub()
				subs[end].closed = true

				live := 0

				for _, s := range subs {
					if !s.closed {
						live++
					}
				}

				if got := b.SubscriberCount(); got != live {
					rt.Fatalf("SubscriberCount %d, %d subscriptions are live", got, live)
				}
			}

			cancel()
			synctest.Wait()

			for i, s := range subs {
				for e := range s.ch {
					if len(s.want) == 0 || e.Version != s.want[0] {
						rt.Fatalf("subscriber %d got event %d at the end, due are %v", i, e.Version, s.want)
					}

					s.want = s.want[1:]
				}

				if len(s.want) > 0 {
					rt.Fatalf("subscriber %d never got %v", i, s.want)
				}
			}

			if got := b.SubscriberCount(); got != 0 {
				rt.Fatalf("SubscriberCount %d at the end", got)
			}
		})
	})
}
