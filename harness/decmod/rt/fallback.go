package rt

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

// Fallback is the monitor of the fallback decorator.
func Fallback(t *testing.T) {
	for _, ifc := range Ifaces("fallback") {
		mk := ifc.B["fallback"].(func(time.Duration, ...any) any)
		for _, m := range ifc.Methods() {
			for k := 0; k < N(24, 300); k++ {
				fallbackRun(t, ifc, m, mk, k)
			}
		}
		fallbackShared(t, ifc, mk)
	}
}

type fbPlan struct {
	dur time.Duration // <0: until the context ends
	err error
	// observed
	begin, end time.Time
	started    int
	rec        *Call
}

func fallbackRun(t *testing.T, ifc *Iface, m Meth, mk func(time.Duration, ...any) any, k int) {
	r := Rand("fallback"+ifc.Key+ifc.Where+m.Name, k)
	id := ifc.ID("fallback", m)
	n := 1 + r.Intn(5)
	d := []time.Duration{time.Second, time.Millisecond}[r.Intn(2)]
	failP := []int{20, 60, 100}[r.Intn(3)]
	plans := make([]*fbPlan, n)
	for i := range plans {
		p := &fbPlan{}
		if m.Err && r.Intn(100) < failP {
			p.err = FailErr()
		}
		p.dur = time.Duration(r.Int63n(int64(3*d))) + time.Duration(i*13+1)
		if r.Intn(4) == 0 {
			p.dur = time.Duration(i*7 + 1) // almost at once
		}
		if m.Ctx && m.Err && r.Intn(8) == 0 {
			p.dur = -1
		}
		plans[i] = p
	}
	cancelAt := time.Duration(-1)
	deadline := false
	if m.Ctx && r.Intn(4) == 0 {
		cancelAt = time.Duration(r.Int63n(int64(4*d))) + 11
		deadline = r.Intn(2) == 0
	}
	desc := fmt.Sprintf("interval=%v cancelAt=%v deadline=%v impls:", d, cancelAt, deadline)
	for _, p := range plans {
		desc += fmt.Sprintf(" [%v fails=%v]", p.dur, p.err != nil)
	}

	dead := Bubble(t, func() {
		var mu sync.Mutex
		var impls []any
		start := time.Now()
		for i := range plans {
			p := plans[i]
			impl := &Impl{ID: i}
			impl.On = func(c *Call) {
				mu.Lock()
				p.started++
				p.begin, p.rec = time.Now(), c
				mu.Unlock()
				if p.dur < 0 {
					<-c.Ctx.Done()
					c.SetResults(m.Res(&Fab{R: rand.New(rand.NewSource(int64(i)))}, c.Ctx.Err()))
				} else {
					time.Sleep(p.dur)
					c.SetResults(m.Res(&Fab{R: rand.New(rand.NewSource(int64(i)))}, p.err))
				}
				var res []reflect.Value
				for _, v := range c.Results {
					x := reflect.New(v.Type()).Elem()
					x.Set(v)
					res = append(res, x)
				}
				mu.Lock()
				c.Results = res
				p.end = time.Now()
				mu.Unlock()
			}
			impls = append(impls, ifc.New(impl))
		}
		dec := mk(d, impls...)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if cancelAt >= 0 && deadline {
			ctx, cancel = context.WithTimeout(ctx, cancelAt)
			defer cancel()
		} else if cancelAt >= 0 {
			time.AfterFunc(cancelAt, cancel)
		}
		ctx, _ = MarkedCtx(ctx)
		args := m.Args(&Fab{R: r}, ctx)

		// the reference: launches at ticks and at failures, the first success wins
		type sim struct {
			at time.Duration
			i  int
		}
		type result struct {
			at     time.Duration
			winner int
			errs   []int
			cancel bool
			hang   bool
		}
		var expLaunch []time.Duration
		exp := func() result {
			var running []sim // end times
			launched := 0
			var fails []int
			launch := func(at time.Duration) {
				if launched < n {
					p := plans[launched]
					if p.dur >= 0 {
						running = append(running, sim{at + p.dur, launched})
					}
					expLaunch = append(expLaunch, at)
					launched++
				}
			}
			launch(0)
			tick := d
			for {
				sort.Slice(running, func(a, b int) bool { return running[a].at < running[b].at })
				next := time.Duration(-1)
				kind := ""
				if launched < n {
					next, kind = tick, "tick"
				}
				if len(running) > 0 && (next < 0 || running[0].at < next) {
					next, kind = running[0].at, "end"
				}
				if cancelAt >= 0 && (next < 0 || cancelAt < next) {
					return result{at: cancelAt, winner: -1, errs: fails, cancel: true}
				}
				if next < 0 {
					return result{hang: true}
				}
				if kind == "tick" {
					tick += d
					launch(next)
					continue
				}
				for tick <= next { // ticks with nothing to launch
					tick += d
				}
				e := running[0]
				running = running[1:]
				if plans[e.i].err == nil {
					return result{at: e.at, winner: e.i, errs: fails}
				}
				fails = append(fails, e.i)
				if len(fails) == n {
					return result{at: e.at, winner: -1, errs: fails}
				}
				launch(e.at)
			}
		}()
		if exp.hang { // the remaining implementations wait for their context, which never ends
			time.AfterFunc(20*d, cancel)
			exp.cancel, exp.winner, exp.at = true, -1, 20*d
			exp.errs = nil
			for i, p := range plans {
				if p.err != nil && p.dur >= 0 {
					exp.errs = append(exp.errs, i)
				}
			}
			sort.Slice(exp.errs, func(a, b int) bool {
				x, y := exp.errs[a], exp.errs[b]
				return expLaunch[x]+plans[x].dur < expLaunch[y]+plans[y].dur
			})
		}

		o := Invoke(dec, m, args)
		took := o.At.Sub(start)
		if o.Panicked {
			Viol(id, "%s: panic %v\n%s", desc, o.Panic, o.Stack)
			return
		}
		mu.Lock()
		var obs []string
		for i, p := range plans {
			if p.started > 0 {
				obs = append(obs, fmt.Sprintf("%d at %v", i, p.begin.Sub(start)))
			}
		}
		mu.Unlock()
		if took != exp.at {
			Viol(id, "%s: returned at %v instead of %v (started: %v)", desc, took, exp.at, obs)
			return
		}
		// launches
		check := func(when string) {
			mu.Lock()
			defer mu.Unlock()
			for i, p := range plans {
				want := -time.Duration(1)
				if i < len(expLaunch) {
					want = expLaunch[i]
				}
				switch {
				case p.started > 1:
					Viol(id, "%s: implementation %d is called %d times", desc, i, p.started)
				case p.started == 0 && want >= 0:
					Viol(id, "%s: implementation %d is not called, it should be at %v (%s)", desc, i, want, when)
				case p.started == 1 && want < 0:
					Viol(id, "%s: implementation %d is called at %v, it should not be (%s)", desc, i, p.begin.Sub(start), when)
				case p.started == 1 && p.begin.Sub(start) != want:
					Viol(id, "%s: implementation %d is called at %v instead of %v", desc, i, p.begin.Sub(start), want)
				}
				if p.started == 1 {
					if s := SameArgs(p.rec.Args, args); s != "" || p.rec.Method != m.Name {
						Viol(id, "%s: implementation %d, %s: %s", desc, i, p.rec.Method, s)
					}
				}
			}
		}
		Settle() // a launch at the very moment of the return is under way
		check("at the return")
		switch {
		case exp.winner >= 0:
			mu.Lock()
			res := plans[exp.winner].rec.Results
			mu.Unlock()
			if s := SameAll(o.Results, res, "result"); s != "" {
				Viol(id, "%s: the results are not those of implementation %d: %s", desc, exp.winner, s)
			}
			Count("successes", 1)
		default:
			err := o.Err()
			if m.Err && err == nil {
				Viol(id, "%s: no error although nothing succeeded", desc)
				return
			}
			if s := ZeroExceptErr(m, o.Results); s != "" {
				Viol(id, "%s: %s although nothing succeeded", desc, s)
			}
			if m.Err {
				text := err.Error()
				pos := 0
				for _, i := range exp.errs {
					k := strings.Index(text[pos:], plans[i].err.Error())
					if k < 0 {
						Viol(id, "%s: the error %q does not name the failure of implementation %d, or not in the order of the failures", desc, text, i)
						break
					}
					pos += k + 1
				}
				want := context.Canceled
				if deadline && cancelAt >= 0 {
					want = context.DeadlineExceeded
				}
				if exp.cancel && !errors.Is(err, want) {
					Viol(id, "%s: the error %q is not %v", desc, text, want)
				}
			}
			if exp.cancel {
				Count("cancelled", 1)
			} else {
				Count("all_failed", 1)
			}
		}
		// the implementations that still work are told to stop
		mu.Lock()
		for i, p := range plans {
			if p.started == 1 && p.rec.Ctx != nil && m.Ctx && p.rec.Ctx.Err() == nil {
				Viol(id, "%s: the context of implementation %d is not cancelled after the return", desc, i)
			}
		}
		mu.Unlock()
		time.Sleep(20 * d)
		check("long after the return")
		Count("launches", len(expLaunch))
		Eval(id + desc)
		if len(exp.errs) > 0 {
			Sample("%s (%s) %s: started %v, failed %v, winner %d, returned at %v", id, m.Sig(), desc, obs, exp.errs, exp.winner, took)
		}
	})
	if dead != "" {
		Viol(id, "%s: the call hangs or goroutines are left blocked: %s", desc, dead)
	}
}

// fallbackShared calls one decorator from several goroutines.
func fallbackShared(t *testing.T, ifc *Iface, mk func(time.Duration, ...any) any) {
	ms := ifc.Pick(func(m Meth) bool { return m.Ctx && m.Err })
	if len(ms) == 0 {
		return
	}
	id := "fallback/" + ifc.Key
	dead := Bubble(t, func() {
		winner := func(mark int) int { return mark % 3 }
		var impls []any
		for i := 0; i < 3; i++ {
			impls = append(impls, ifc.New(&Impl{ID: i, On: func(c *Call) {
				time.Sleep(time.Duration(10+c.Impl.ID) * time.Millisecond)
				if winner(Mark(c.Ctx)) != c.Impl.ID {
					c.Results[len(c.Results)-1].Set(valueOfErr(FailErr()))
				}
			}}))
		}
		dec := mk(time.Second, impls...)
		var wg sync.WaitGroup
		start := time.Now()
		for g := 0; g < 16; g++ {
			m := ms[g%len(ms)]
			ctx, mark := MarkedCtx(context.Background())
			args := m.Args(&Fab{R: Rand("fbs", g)}, ctx)
			wg.Add(1)
			go func() {
				defer wg.Done()
				o := Invoke(dec, m, args)
				want := time.Duration(0)
				for i := 0; i <= winner(mark); i++ {
					want += time.Duration(10+i) * time.Millisecond
				}
				if o.Err() != nil || o.At.Sub(start) != want {
					Viol(id, "concurrent call whose implementation %d succeeds: error %v at %v instead of %v", winner(mark), o.Err(), o.At.Sub(start), want)
				}
				Count("concurrent_calls", 1)
			}()
		}
		wg.Wait()
	})
	if dead != "" {
		Viol(id, "concurrent calls hang: %s", dead)
	}
}
