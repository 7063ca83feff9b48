package rt

import (
	"context"
	"fmt"
	"math"
	"sort"
	"sync"
	"testing"
	"time"
)

// RateLimit is the monitor of the ratelimit decorator.
func RateLimit(t *testing.T) {
	for _, ifc := range Ifaces("ratelimit") {
		mk := ifc.B["ratelimit"].(func(any, int, float64) any)
		for k := 0; k < N(16, 200); k++ {
			rlBacklog(t, ifc, mk, k)
			rlRandom(t, ifc, mk, k)
			rlCancel(t, ifc, mk, k)
		}
	}
}

func rlParams(k int, r interface{ Intn(int) int }) (burst int, rps float64, delay time.Duration) {
	burst = []int{0, 1, 2, 5, 8}[r.Intn(5)]
	rps = []float64{1, 10, 0.25, 3, 1000, 7.5}[r.Intn(6)]
	return burst, rps, time.Duration(float64(time.Second) / rps)
}

// rlBacklog: everything is pending from the start, the admissions are known.
func rlBacklog(t *testing.T, ifc *Iface, mk func(any, int, float64) any, k int) {
	r := Rand("rl1"+ifc.Key+ifc.Where, k)
	id := "ratelimit/" + ifc.Key
	burst, rps, delay := rlParams(k, r)
	ms := ifc.Methods()
	n := burst + 6
	Bubble(t, func() {
		log := &Log{}
		impl := &Impl{On: func(c *Call) { log.Add(c) }}
		start := time.Now()
		dec := mk(ifc.New(impl), burst, rps)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			m := ms[r.Intn(len(ms))]
			args := m.Args(&Fab{R: r}, context.Background())
			wg.Add(1)
			go func() {
				defer wg.Done()
				if o := Invoke(dec, m, args); o.Panicked {
					Viol(id, "panic: %v\n%s", o.Panic, o.Stack)
				}
			}()
		}
		wg.Wait()
		calls := log.Calls()
		if len(calls) != n {
			Viol(id, "burst=%d rps=%v: %d calls reached the base instead of %d", burst, rps, len(calls), n)
			return
		}
		for i, c := range calls {
			want := time.Duration(0)
			if i >= burst {
				want = time.Duration(i-burst+1) * delay
			}
			if got := c.Begin.Sub(start); absd(got-want) > time.Microsecond {
				Viol(id, "burst=%d rps=%v, %d calls pending from the start: admission %d at %v instead of %v", burst, rps, n, i, got, want)
				return
			}
		}
		Count("admissions", n)
		Eval(fmt.Sprintf("%s backlog %d %v", id, burst, rps))
		Sample("%s burst=%d rps=%v: %d pending calls admitted on schedule, the last one at %v", id, burst, rps, n, calls[n-1].Begin.Sub(start))
	})
}

func absd(d time.Duration) time.Duration {
	if d < 0 {
		return -d
	}
	return d
}

// rlRandom: random arrivals; no window has too many admissions (the burst, what
// the rate gives with a tick at each end, and the two ticks under way to the
// bucket when it was full) and nothing waits
// longer than it has to.
func rlRandom(t *testing.T, ifc *Iface, mk func(any, int, float64) any, k int) {
	r := Rand("rl2"+ifc.Key+ifc.Where, k)
	id := "ratelimit/" + ifc.Key
	burst, rps, delay := rlParams(k, r)
	ms := ifc.Methods()
	Bubble(t, func() {
		log := &Log{}
		impl := &Impl{On: func(c *Call) { log.Add(c) }}
		dec := mk(ifc.New(impl), burst, rps)
		var wg sync.WaitGroup
		type call struct{ arrived, admitted time.Time }
		var mu sync.Mutex
		var done []call
		n := 0
		for g := 0; g < 12; g++ {
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Int63n(int64(delay) * int64(2*burst+4))))
			} else {
				time.Sleep(time.Duration(r.Int63n(int64(delay))))
			}
			for b := r.Intn(burst + 3); b >= 0; b-- {
				m := ms[r.Intn(len(ms))]
				args := m.Args(&Fab{R: r}, context.Background())
				wg.Add(1)
				n++
				arr := time.Now()
				go func() {
					defer wg.Done()
					o := Invoke(dec, m, args)
					mu.Lock()
					done = append(done, call{arr, o.At})
					mu.Unlock()
				}()
			}
		}
		wg.Wait()
		if got := len(log.Calls()); got != n {
			Viol(id, "burst=%d rps=%v: %d calls reached the base instead of %d", burst, rps, got, n)
			return
		}
		sort.Slice(done, func(a, b int) bool { return done[a].admitted.Before(done[b].admitted) })
		for i := range done {
			for j := i + 1; j < len(done); j++ {
				w := done[j].admitted.Sub(done[i].admitted)
				limit := burst + 3 + int(math.Floor(float64(w)/float64(delay)+1e-6))
				if j-i+1 > limit {
					Viol(id, "burst=%d rps=%v: %d calls are admitted within %v, at most %d expected", burst, rps, j-i+1, w, limit)
					return
				}
			}
		}
		// with b calls pending, each waits at most b intervals
		for _, c := range done {
			pending := 0
			for _, o := range done {
				if !o.arrived.After(c.admitted) && !o.admitted.Before(c.arrived) {
					pending++
				}
			}
			if w := c.admitted.Sub(c.arrived); w > time.Duration(pending+1)*delay+time.Microsecond {
				Viol(id, "burst=%d rps=%v: a call waits %v with %d calls around", burst, rps, w, pending)
				return
			}
		}
		// after a long pause at least the burst is available at once
		time.Sleep(time.Duration(burst+3) * delay)
		start := time.Now()
		before := len(log.Calls())
		for b := 0; b < burst; b++ {
			m := ms[r.Intn(len(ms))]
			args := m.Args(&Fab{R: r}, context.Background())
			Invoke(dec, m, args)
		}
		if e := time.Since(start); e > time.Microsecond {
			Viol(id, "burst=%d rps=%v: %d calls after a pause of %v take %v", burst, rps, burst, time.Duration(burst+3)*delay, e)
		}
		if got := len(log.Calls()) - before; got != burst {
			Viol(id, "burst=%d rps=%v: %d of %d calls reach the base", burst, rps, got, burst)
		}
		Count("admissions", n+burst)
		Count("arrival_patterns", 1)
		Eval(fmt.Sprintf("%s random %d", id, k))
	})
}

// rlCancel: waiting calls end with their context and take nothing from the others.
func rlCancel(t *testing.T, ifc *Iface, mk func(any, int, float64) any, k int) {
	ms := ifc.Pick(func(m Meth) bool { return m.Ctx && m.Err })
	if len(ms) == 0 {
		return
	}
	r := Rand("rl3"+ifc.Key+ifc.Where, k)
	id := "ratelimit/" + ifc.Key
	burst, rps, delay := rlParams(k, r)
	Bubble(t, func() {
		log := &Log{}
		impl := &Impl{On: func(c *Call) { log.Add(c) }}
		start := time.Now()
		dec := mk(ifc.New(impl), burst, rps)
		var wg sync.WaitGroup
		kept := 4
		for i := 0; i < burst; i++ { // use up the burst
			m := ms[r.Intn(len(ms))]
			Invoke(dec, m, m.Args(&Fab{R: r}, context.Background()))
		}
		for i := 0; i < 4; i++ { // these give up before the next admission
			m := ms[r.Intn(len(ms))]
			var ctx context.Context
			var cancel context.CancelFunc
			wantErr := context.Canceled
			at := delay / time.Duration(2+i)
			if i%2 == 0 {
				ctx, cancel = context.WithTimeout(context.Background(), at)
				wantErr = context.DeadlineExceeded
			} else {
				ctx, cancel = context.WithCancel(context.Background())
				time.AfterFunc(at, cancel)
			}
			args := m.Args(&Fab{R: r}, ctx)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer cancel()
				o := Invoke(dec, m, args)
				if err := o.Err(); err != wantErr {
					Viol(id, "burst=%d rps=%v: a call whose context ended while it waited returns the error %v instead of %v", burst, rps, err, wantErr)
				}
				if o.At.Sub(start) != at {
					Viol(id, "burst=%d rps=%v: a call whose context ended at %v returns at %v", burst, rps, at, o.At.Sub(start))
				}
				if !o.Panicked {
					if s := ZeroExceptErr(m, o.Results); s != "" {
						Viol(id, "a cancelled call: %s", s)
					}
				}
				Count("cancelled_calls", 1)
			}()
		}
		Settle()
		for i := 0; i < kept; i++ {
			m := ms[r.Intn(len(ms))]
			args := m.Args(&Fab{R: r}, context.Background())
			wg.Add(1)
			go func() {
				defer wg.Done()
				Invoke(dec, m, args)
			}()
		}
		wg.Wait()
		calls := log.Calls()
		if len(calls) != burst+kept {
			Viol(id, "burst=%d rps=%v: %d calls reached the base instead of %d", burst, rps, len(calls), burst+kept)
			return
		}
		for i := 0; i < kept; i++ {
			if got, want := calls[burst+i].Begin.Sub(start), time.Duration(i+1)*delay; absd(got-want) > time.Microsecond {
				Viol(id, "burst=%d rps=%v: after 4 cancelled calls the admission %d is at %v instead of %v", burst, rps, i, got, want)
			}
		}
		Eval(fmt.Sprintf("%s cancel %d %v", id, burst, rps))
	})
}
