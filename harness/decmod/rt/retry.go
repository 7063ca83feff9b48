package rt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
	"testing"
	"time"
)

// Retry is the monitor of the retry decorator.
func Retry(t *testing.T) {
	for _, ifc := range Ifaces("retry") {
		mk := ifc.B["retry"].(func(any, int, time.Duration) any)
		for _, m := range ifc.Methods() {
			for k := 0; k < N(14, 150); k++ {
				r := Rand("retry"+ifc.Key+ifc.Where+m.Name, k)
				id := ifc.ID("retry", m)
				f := &Fab{R: r}
				n := []int{-1, 0, 1, 2, 3, 5, 14}[r.Intn(7)]
				d := []time.Duration{time.Millisecond, time.Second, 7 * time.Minute, 3}[r.Intn(4)]
				fails := r.Intn(n + 4 + b2i(n < 0))
				slow := r.Intn(3) == 0
				cancelAt := time.Duration(-1)
				if m.Ctx && r.Intn(3) == 0 && d > 3 {
					cancelAt = time.Duration(r.Intn(4))*d + d/2
				}
				pre := m.Ctx && cancelAt < 0 && r.Intn(6) == 0
				desc := fmt.Sprintf("retryCount=%d interval=%v failures=%d slow=%v cancelAt=%v cancelledBefore=%v", n, d, fails, slow, cancelAt, pre)
				dead := Bubble(t, func() {
					log := &Log{}
					var want [][]any
					_ = want
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					ctx, _ = MarkedCtx(ctx)
					if pre {
						cancel()
					}
					impl := &Impl{}
					impl.On = func(c *Call) {
						i := log.Add(c)
						if slow {
							time.Sleep(time.Duration(Rand(id, k*100+i).Int63n(int64(3*d) + 1)))
						}
						var err error
						if i < fails {
							err = failure(Rand(id+"err", k*100+i).Intn(12))
						}
						c.SetResults(m.Res(&Fab{R: Rand(id+"res", k*100+i)}, err))
						c.End = time.Now()
					}
					dec := mk(ifc.New(impl), n, d)
					args := m.Args(f, ctx)
					start := time.Now()
					if cancelAt >= 0 {
						time.AfterFunc(cancelAt, cancel)
					}
					o := Invoke(dec, m, args)
					calls := log.Calls()
					Count("attempts", len(calls))
					if o.Panicked || o.Exited {
						Viol(id, "%s: the decorator panicked: %v\n%s", desc, o.Panic, o.Stack)
						return
					}
					if len(calls) == 0 {
						Viol(id, "%s: the base was not called", desc)
						return
					}
					for i, c := range calls {
						if c.Method != m.Name {
							Viol(id, "%s: attempt %d calls %s", desc, i, c.Method)
						}
						if s := SameArgs(c.Args, args); s != "" {
							Viol(id, "%s: attempt %d: %s", desc, i, s)
						}
						if i > 0 {
							if !m.Err {
								Viol(id, "%s: a method without an error is called again", desc)
							}
							if AsErr(calls[i-1].Results[len(calls[i-1].Results)-1]) == nil {
								Viol(id, "%s: attempt %d follows a successful one", desc, i)
							}
							if lo := calls[0].End.Add(time.Duration(i) * d); c.Begin.Before(lo) {
								Viol(id, "%s: attempt %d starts %v after the first one failed, before %d intervals", desc, i, c.Begin.Sub(calls[0].End), i)
							}
							if hi := calls[i-1].End.Add(d); c.Begin.After(hi) {
								Viol(id, "%s: attempt %d starts %v after the previous one", desc, i, c.Begin.Sub(calls[i-1].End))
							}
						}
					}
					last := calls[len(calls)-1]
					if s := SameAll(o.Results, last.Results, "result"); s != "" {
						Viol(id, "%s: the results are not those of the last attempt: %s", desc, s)
					}
					max := 1
					if m.Err {
						max = min(fails, nonneg(n)) + 1
					}
					switch {
					case !m.Err || n < 1 || fails == 0:
						if len(calls) != max {
							Viol(id, "%s: %d attempts instead of %d", desc, len(calls), max)
						}
						if !o.At.Equal(last.End) {
							Viol(id, "%s: returned %v after the last attempt", desc, o.At.Sub(last.End))
						}
					case cancelAt < 0 && !pre:
						if len(calls) != max {
							Viol(id, "%s: %d attempts instead of %d", desc, len(calls), max)
						}
						if !o.At.Equal(last.End) {
							Viol(id, "%s: returned %v after the last attempt", desc, o.At.Sub(last.End))
						}
						Count("retried", 1)
					case pre:
						// cancelled before the call: it must not wait for the intervals
						if !slow && (len(calls) != 1 || !o.At.Equal(last.End)) {
							Viol(id, "%s: %d attempts, returned after %v with a cancelled context", desc, len(calls), o.At.Sub(start))
						}
						if len(calls) > max {
							Viol(id, "%s: %d attempts, at most %d", desc, len(calls), max)
						}
						Count("cancelled_before", 1)
					default:
						if len(calls) > max {
							Viol(id, "%s: %d attempts, at most %d", desc, len(calls), max)
						}
						if !slow {
							exp := min(max, int(cancelAt/d)+1)
							if len(calls) != exp {
								Viol(id, "%s: %d attempts instead of %d", desc, len(calls), exp)
							}
							if exp < max && o.At.Sub(start) != cancelAt {
								Viol(id, "%s: returned at %v instead of at the cancellation", desc, o.At.Sub(start))
							}
						} else if len(calls) < max && o.At.Before(start.Add(cancelAt)) {
							Viol(id, "%s: gave up at %v, before the context was cancelled", desc, o.At.Sub(start))
						} else if at := start.Add(cancelAt); o.At.After(at) && o.At.After(last.End) {
							Viol(id, "%s: returned %v after the cancellation", desc, o.At.Sub(at))
						}
						Count("cancelled_during", 1)
					}
					Eval(id + desc)
					if len(calls) > 2 {
						Sample("%s (%s) %s: %d attempts, returned after %v", id, m.Sig(), desc, len(calls), o.At.Sub(start))
					}
				})
				if dead != "" {
					Viol(id, "%s: goroutines are left blocked: %s", desc, dead)
				}
			}
		}
		// shared by several goroutines: the attempts of the calls are independent
		ms := ifc.Pick(func(m Meth) bool { return m.Err })
		if len(ms) == 0 {
			continue
		}
		dead := Bubble(t, func() {
			var mu sync.Mutex
			attempts := map[int]int{}
			plan := map[int]int{}
			impl := &Impl{On: func(c *Call) {
				g := 0
				if c.Ctx != nil {
					g = Mark(c.Ctx)
				} else {
					return
				}
				mu.Lock()
				attempts[g]++
				a, p := attempts[g], plan[g]
				mu.Unlock()
				var err error
				if a <= p {
					err = NewErr()
				}
				for i := range c.Results {
					if i == len(c.Results)-1 && err != nil {
						c.Results[i].Set(valueOfErr(err))
					}
				}
			}}
			dec := mk(ifc.New(impl), 4, time.Second)
			var wg sync.WaitGroup
			for g := 0; g < 12; g++ {
				m := ms[g%len(ms)]
				if !m.Ctx {
					continue
				}
				ctx, mark := MarkedCtx(context.Background())
				p := g % 7
				mu.Lock()
				plan[mark] = p
				mu.Unlock()
				args := m.Args(&Fab{R: Rand("retryconc", g)}, ctx)
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(g) * 100 * time.Millisecond)
					o := Invoke(dec, m, args)
					mu.Lock()
					got := attempts[mark]
					mu.Unlock()
					if want := min(p, 4) + 1; got != want {
						Viol(ifc.ID("retry", m), "concurrent call with %d failures and 4 retries: %d attempts instead of %d", p, got, want)
					}
					if (o.Err() != nil) != (p > 4) {
						Viol(ifc.ID("retry", m), "concurrent call with %d failures and 4 retries: error %v", p, o.Err())
					}
					Count("concurrent_calls", 1)
				}()
			}
			wg.Wait()
		})
		if dead != "" {
			Viol("retry/"+ifc.Key, "concurrent calls: %s", dead)
		}
	}
}

// failure is the error of an attempt; some are those of contexts and timeouts
// of the implementation's own.
func failure(n int) error {
	switch n {
	case 0:
		return context.DeadlineExceeded
	case 1:
		return context.Canceled
	case 2:
		return fmt.Errorf("attempt %d: %w", Uniq(), context.DeadlineExceeded)
	case 3:
		return fmt.Errorf("attempt %d: %w", Uniq(), context.Canceled)
	case 4:
		return io.EOF
	case 5:
		return errors.Join(NewErr(), os.ErrDeadlineExceeded)
	}
	return FailErr()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func nonneg(n int) int {
	if n < 0 {
		return 0
	}
	return n
}
