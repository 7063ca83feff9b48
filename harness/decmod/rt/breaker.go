package rt

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

// cbModel is the reference: it sees the calls in the order they start and
// their outcomes in the order they end.
type cbModel struct {
	max      int
	interval time.Duration
	ignore   []error
	errs     int
	until    time.Time
	open     bool
}

func (m *cbModel) admits(now time.Time) bool { return !m.open || !m.until.After(now) }

func (m *cbModel) finished(now time.Time, err error) {
	ok := err == nil
	for _, e := range m.ignore {
		if err != nil && errors.Is(err, e) {
			ok = true
		}
	}
	if ok {
		m.errs, m.open = 0, false
		return
	}
	m.errs++
	if m.errs >= m.max {
		m.open, m.until = true, now.Add(m.interval)
	}
}

// Breaker is the monitor of the circuitbreaker decorator.
func Breaker(t *testing.T) {
	for _, ifc := range Ifaces("circuitbreaker") {
		mk := ifc.B["circuitbreaker"].(func(any, int, time.Duration, ...error) any)
		if len(ifc.Pick(func(m Meth) bool { return m.Err })) == 0 {
			continue
		}
		for k := 0; k < N(40, 400); k++ {
			breakerRun(t, ifc, mk, k)
		}
	}
}

type cbCall struct {
	m     Meth
	at    time.Duration
	dur   time.Duration
	err   error
	panic bool
	// observed
	reached bool
	o       Outcome
	begin   time.Time
	res     []reflect.Value
	args    []reflect.Value
	rec     *Call
}

func breakerRun(t *testing.T, ifc *Iface, mk func(any, int, time.Duration, ...error) any, k int) {
	r := Rand("cb"+ifc.Key+ifc.Where, k)
	id := "circuitbreaker/" + ifc.Key
	max := []int{1, 2, 3, 5, 0}[r.Intn(5)]
	interval := []time.Duration{time.Second, time.Minute}[r.Intn(2)]
	overlapping := r.Intn(2) == 0
	var ign []error
	for i := r.Intn(3); i > 0; i-- {
		ign = append(ign, NewErr())
	}
	errP := []int{50, 80, 95}[r.Intn(3)] // percentage of failures
	methods := ifc.Methods()
	errMs := ifc.Pick(func(m Meth) bool { return m.Err })
	n := 30
	var calls []*cbCall
	at := time.Duration(0)
	for i := 0; i < n; i++ {
		m := errMs[r.Intn(len(errMs))]
		if r.Intn(6) == 0 {
			m = methods[r.Intn(len(methods))]
		}
		c := &cbCall{m: m}
		switch r.Intn(6) {
		case 0:
			at += interval + time.Duration(r.Intn(5)+1)
		case 1:
			at += interval/2 + time.Duration(r.Intn(1000))
		case 2:
			at += interval - time.Duration(r.Intn(5)+1)
		default:
			at += time.Duration(r.Int63n(int64(interval) / 8))
		}
		c.at = at + time.Duration(i+1) // unique
		if m.Err {
			switch x := r.Intn(100); {
			case x < errP:
				c.err = FailErr()
			case x < errP+(100-errP)/2 && len(ign) > 0:
				c.err = ign[r.Intn(len(ign))]
				if r.Intn(2) == 0 {
					c.err = fmt.Errorf("with context: %w", c.err)
				}
			}
		}
		if overlapping {
			c.dur = time.Duration(r.Int63n(int64(2*interval))) + time.Duration(1000+i)*7919
		}
		calls = append(calls, c)
	}
	trace := func(upTo int) string {
		s := fmt.Sprintf("consecutiveErrors=%d openInterval=%v ignored=%d overlapping=%v:", max, interval, len(ign), overlapping)
		for i, c := range calls {
			if i > upTo {
				break
			}
			s += fmt.Sprintf(" [%d %s at %v for %v err=%v reached=%v]", i, c.m.Name, c.at, c.dur, c.err != nil, c.reached)
		}
		return s
	}
	dead := Bubble(t, func() {
		type ev struct {
			at  time.Time
			c   *cbCall
			end bool
		}
		var mu sync.Mutex
		current := map[int]*cbCall{} // by mark of the context or by sequence
		impl := &Impl{}
		var seq *cbCall // sequential runs
		impl.On = func(c *Call) {
			mu.Lock()
			cc := seq
			if overlapping {
				cc = current[callKey(c)]
			}
			mu.Unlock()
			if cc == nil {
				Bad("a call of %s cannot be attributed", c.Method)
				return
			}
			cc.reached, cc.rec = true, c
			if cc.dur > 0 {
				time.Sleep(cc.dur)
			}
			cc.res = cc.m.Res(&Fab{R: rand.New(rand.NewSource(int64(Uniq())))}, cc.err)
			if overlapping { // which call this is must not depend on the results
				cc.res = cc.m.Res(&Fab{R: rand.New(rand.NewSource(7))}, cc.err)
			}
			c.SetResults(cc.res)
			c.End = time.Now()
		}
		dec := mk(ifc.New(impl), max, interval, ign...)
		start := time.Now()
		var wg sync.WaitGroup
		for i, c := range calls {
			time.Sleep(time.Until(start.Add(c.at)))
			ctx, mark := MarkedCtx(context.Background())
			c.args = c.m.Args(&Fab{R: r}, ctx)
			if overlapping {
				if !c.m.Ctx {
					// only the context tells overlapping calls apart
					c.at = -1
					continue
				}
				mu.Lock()
				current[mark] = c
				mu.Unlock()
				wg.Add(1)
				c.begin = time.Now()
				go func() {
					defer wg.Done()
					c.o = Invoke(dec, c.m, c.args)
				}()
				continue
			}
			_ = i
			seq = c
			c.begin = time.Now()
			c.o = Invoke(dec, c.m, c.args)
		}
		wg.Wait()
		// what the reference says about the same history
		var evs []ev
		for _, c := range calls {
			if c.at < 0 || !c.m.Err {
				continue
			}
			evs = append(evs, ev{c.begin, c, false})
			if c.reached {
				evs = append(evs, ev{c.rec.End, c, true})
			}
		}
		if overlapping {
			sort.SliceStable(evs, func(a, b int) bool { return evs[a].at.Before(evs[b].at) })
		}
		model := &cbModel{max: max, interval: interval, ignore: ign}
		opened := 0
		for _, e := range evs {
			if e.end {
				was := model.open
				model.finished(e.at, e.c.err)
				if model.open && !was {
					opened++
				}
				continue
			}
			if want := model.admits(e.at); want != e.c.reached {
				n := 0
				for i, c := range calls {
					if c == e.c {
						n = i
					}
				}
				Viol(id, "call %d: reached the base: %v, should: %v (consecutive errors %d, open until %v)\n%s", n, e.c.reached, want, model.errs, model.until.Sub(start), trace(n))
				return
			}
		}
		Count("circuit_opened", opened)
		refused := 0
		for i, c := range calls {
			if c.at < 0 {
				continue
			}
			Count("calls", 1)
			if c.o.Panicked {
				Viol(id, "call %d panicked: %v\n%s\n%s", i, c.o.Panic, c.o.Stack, trace(i))
				continue
			}
			if c.reached {
				if s := SameArgs(c.rec.Args, c.args); s != "" {
					Viol(id, "call %d of %s: %s", i, c.m.Name, s)
				}
				if s := SameAll(c.o.Results, c.res, "result"); s != "" {
					Viol(id, "call %d of %s: %s", i, c.m.Name, s)
				}
				if !c.o.At.Equal(c.rec.End) {
					Viol(id, "call %d returned %v after the base", i, c.o.At.Sub(c.rec.End))
				}
				continue
			}
			refused++
			if !c.m.Err {
				Viol(id, "call %d of %s, which returns no error, did not reach the base\n%s", i, c.m.Name, trace(i))
				continue
			}
			if err := c.o.Err(); err == nil || !strings.Contains(err.Error(), "circuit is open") {
				Viol(id, "call %d was refused with the error %v", i, err)
			}
			if s := ZeroExceptErr(c.m, c.o.Results); s != "" {
				Viol(id, "call %d was refused: %s", i, s)
			}
			if !c.o.At.Equal(c.begin) {
				Viol(id, "call %d was refused after %v", i, c.o.At.Sub(c.begin))
			}
		}
		Count("refused", refused)
		Eval(trace(len(calls)))
		if refused > 3 {
			Sample("%s", trace(len(calls)))
		}
	})
	if dead != "" {
		Viol(id, "goroutines are left blocked: %s\n%s", dead, trace(len(calls)))
	}

	// a panicking base does not block the calls that follow
	dead = Bubble(t, func() {
		boom := true
		m := errMs[r.Intn(len(errMs))]
		reached := false
		impl := &Impl{On: func(c *Call) {
			if boom {
				panic("boom")
			}
			reached = true
		}}
		dec := mk(ifc.New(impl), 3, interval)
		args := m.Args(&Fab{R: r}, context.Background())
		o := Invoke(dec, m, args)
		if !o.Panicked || o.Panic != "boom" {
			Viol(id, "the panic of the base does not reach the caller: %v", o.Panic)
		}
		boom = false
		for _, m := range ifc.Methods() {
			reached = false
			Invoke(dec, m, m.Args(&Fab{R: r}, context.Background()))
			if !reached {
				Viol(id, "%s does not reach the base after a panic of it", m.Name)
			}
		}
		Count("panics", 1)
	})
	if dead != "" {
		Viol(id, "calls hang after a panic of the base: %s", dead)
	}
}

func callKey(c *Call) int {
	if c.Ctx != nil {
		return Mark(c.Ctx)
	}
	return 0
}
