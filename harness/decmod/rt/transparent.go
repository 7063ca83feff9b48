package rt

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"testing"
	"time"
)

// Neutral builds a decorator that has no reason to interfere.
type Neutral struct {
	Tmpl  string
	Build func(i *Iface, base any) any
	// NoPanic: the base runs in a goroutine of its own
	NoPanic bool
	// NoError: errors of the base may be dressed up
	NoError bool
	// Real: cannot run with virtual time
	Real bool
}

// Transparent monitors what every decorator owes its users: the base is called
// once with the arguments, the caller gets what it returns.
func Transparent(t *testing.T, ns []Neutral) {
	for _, n := range ns {
		for _, ifc := range Ifaces(n.Tmpl) {
			for _, m := range ifc.Methods() {
				for k := 0; k < N(8, 120); k++ {
					run := func() { n.one(ifc, m, k) }
					if n.Real {
						run()
						continue
					}
					d := Bubble(t, run)
					if d != "" && n.Tmpl != "ratelimit" { // its ticker never ends
						Viol(ifc.ID(n.Tmpl, m), "%s", d)
					}
				}
			}
		}
	}
}

type panicValue struct{ n int }

func (n Neutral) one(ifc *Iface, m Meth, k int) {
	r := Rand("transparent"+n.Tmpl+ifc.Key+ifc.Where+m.Name, k)
	id := ifc.ID(n.Tmpl, m)
	fail := !n.NoError && r.Intn(2) == 0
	how := r.Intn(8)
	if n.NoPanic && how <= 2 { // nor does it have to end before the decorator returns
		how = 7
	}
	boom := &panicValue{Uniq()}
	var calls []*Call
	var mu sync.Mutex
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ctx, _ = MarkedCtx(ctx)
	ctxAlive, ctxEnded := true, true
	base := ifc.New(&Impl{On: func(c *Call) {
		mu.Lock()
		calls = append(calls, c)
		mu.Unlock()
		if c.Ctx != nil && m.Ctx {
			ctxAlive = c.Ctx.Err() == nil
			if how == 2 { // a cancellation reaches the base
				cancel()
				Settled(n.Real)
				ctxEnded = c.Ctx.Err() == context.Canceled
			}
		}
		switch how {
		case 0:
			panic(boom)
		case 1:
			runtime.Goexit()
		}
		var err error
		if fail {
			err = FailErr()
		}
		res := m.Res(&Fab{R: rand.New(rand.NewSource(int64(k)))}, err)
		c.SetResults(res)
		mu.Lock()
		c.Results = res
		mu.Unlock()
	}})
	dec := n.Build(ifc, base)
	if dec == nil {
		Viol(id, "no decorator is made")
		return
	}
	args := m.Args(&Fab{R: r}, ctx)
	var o Outcome
	o.Exited = true
	done := make(chan struct{})
	go func() {
		defer close(done)
		o = Invoke(dec, m, args)
	}()
	<-done
	mu.Lock()
	defer mu.Unlock()
	desc := fmt.Sprintf("error=%v panic=%v exit=%v cancel=%v", fail && m.Err, how == 0, how == 1, how == 2)
	Count("calls", 1)
	Eval(id + ifc.Where + desc)
	if len(calls) != 1 {
		Viol(id, "%s: %d calls reach the base instead of 1", desc, len(calls))
		return
	}
	c := calls[0]
	if c.Method != m.Name {
		Viol(id, "%s: the call reaches %s", desc, c.Method)
		return
	}
	if s := SameArgs(c.Args, args); s != "" {
		Viol(id, "%s: %s", desc, s)
	}
	if m.Ctx && !ctxAlive {
		Viol(id, "%s: the context of the base is cancelled before the call", desc)
	}
	if m.Ctx && how == 2 {
		Count("cancellations", 1)
		if !ctxEnded {
			Viol(id, "%s: the cancellation does not reach the base", desc)
		}
	}
	switch how {
	case 0:
		Count("panics", 1)
		if !o.Panicked || o.Panic != any(boom) {
			Viol(id, "%s: the panic of the base does not reach the caller (panicked %v with %v)", desc, o.Panicked, o.Panic)
		}
		return
	case 1:
		Count("goexits", 1)
		if !o.Exited || o.Panicked {
			Viol(id, "%s: the base ends the goroutine, the decorator goes on", desc)
		}
		return
	}
	if o.Panicked || o.Exited {
		Viol(id, "%s: panic %v\n%s", desc, o.Panic, o.Stack)
		return
	}
	if s := SameAll(o.Results, c.Results, "result"); s != "" {
		Viol(id, "%s: %s", desc, s)
	}
	Sample("%s (%s, %s) %s: %s -> %s", id, m.Sig(), ifc.Where, desc, ShowAll(args), ShowAll(o.Results))
}

// Settled lets a cancellation spread.
func Settled(real bool) {
	if !real {
		time.Sleep(time.Millisecond)
	} else {
		time.Sleep(5 * time.Millisecond)
	}
}

// Shared builds a decorator for the concurrent use of Races.
type Shared struct {
	Tmpl  string
	Build func(i *Iface, bases []any) any
}

// Races uses every decorator from several goroutines in real time, for the race
// detector to watch.
func Races(t *testing.T, ss []Shared) {
	rounds := N(2, 20)
	for _, s := range ss {
		for _, ifc := range Ifaces(s.Tmpl) {
			for k := 0; k < rounds; k++ {
				s.round(ifc, k)
			}
		}
	}
}

func (s Shared) round(ifc *Iface, k int) {
	id := s.Tmpl + "/" + ifc.Key
	ms := ifc.Methods()
	byName := map[string]Meth{}
	for _, m := range ms {
		byName[m.Name] = m
	}
	var mu sync.Mutex
	reached := 0
	var bases []any
	for i := 0; i < 3; i++ {
		bases = append(bases, ifc.New(&Impl{ID: i, On: func(c *Call) {
			n := Uniq()
			mu.Lock()
			reached++
			mu.Unlock()
			var err error
			if n%3 == 0 {
				err = FailErr()
			}
			switch n % 5 {
			case 0:
				runtime.Gosched()
			case 1:
				time.Sleep(time.Duration(n%50) * time.Microsecond)
			}
			c.SetResults(byName[c.Method].Res(&Fab{R: rand.New(rand.NewSource(int64(n)))}, err))
		}}))
	}
	dec := s.Build(ifc, bases)
	if dec == nil {
		Viol(id, "no decorator is made")
		return
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	const G, per = 8, 8
	for g := 0; g < G; g++ {
		r := Rand("race"+s.Tmpl+ifc.Key, k*100+g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < per; i++ {
				m := ms[r.Intn(len(ms))]
				ctx := context.Background()
				var cancel context.CancelFunc = func() {}
				if r.Intn(4) == 0 {
					ctx, cancel = context.WithTimeout(ctx, time.Duration(r.Intn(3000))*time.Microsecond)
				}
				ctx, _ = MarkedCtx(ctx)
				o := Invoke(dec, m, m.Args(&Fab{R: r}, ctx))
				cancel()
				if o.Panicked {
					Viol(id, "concurrent use: panic %v\n%s", o.Panic, o.Stack)
				}
				if len(o.Results) != m.Type.NumOut() {
					Viol(id, "concurrent use: %d results", len(o.Results))
				}
			}
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Minute):
		Bad("%s: concurrent calls did not end in two minutes", id)
		return
	}
	Count("concurrent_calls", G*per)
	Eval(fmt.Sprint(id, ifc.Where, k))
	mu.Lock() // calls that lost a race may still be under way
	total := reached
	mu.Unlock()
	if total == 0 && len(ms) > 0 {
		Bad("%s: nothing reached the base", id)
	}
	Sample("%s (%s): %d calls from %d goroutines, %d reached the implementations, methods %v", id, ifc.Where, G*per, G, total, names(ms))
}

func names(ms []Meth) (out []string) {
	for _, m := range ms {
		out = append(out, m.Name)
	}
	return
}

var _ = reflect.ValueOf
