package rt

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"
)

// FieldNames tells the names a method's parameters (or results) have in the
// maps generated code makes, when the source determines them.
func (m Meth) FieldNames(results bool) ([]string, bool) {
	for _, l := range [][]string{m.Params, m.Results} {
		for _, n := range l {
			if n == "" || n == "_" {
				return nil, false
			}
		}
	}
	l := append([]string(nil), m.Params...)
	if results {
		l = append([]string(nil), m.Results...)
	}
	for i, n := range l {
		switch {
		case !results && i == 0 && m.Ctx:
			l[i] = "ctx"
		case results && i == len(l)-1 && m.Err:
			l[i] = "err"
		case n == "ctx" || n == "err":
			return nil, false // they may be renamed
		}
	}
	return l, true
}

// CheckFields compares a map of parameters or results with their values.
func CheckFields(m Meth, got map[string]any, vals []reflect.Value, results, ignoreFuncs bool) string {
	what := "parameters"
	if results {
		what = "results"
	}
	names, known := m.FieldNames(results)
	n := 0
	var missing []string
	used := map[string]bool{}
	for i, v := range vals {
		x := v
		if v.Kind() == reflect.Interface {
			x = v.Elem()
		}
		if ignoreFuncs && x.IsValid() && (x.Kind() == reflect.Func || x.Kind() == reflect.Pointer && x.Type().Elem().Kind() == reflect.Func) {
			continue
		}
		n++
		eq := func(g any) bool {
			if c, ok := g.(context.Context); ok && i == 0 && m.Ctx && !results {
				w, _ := v.Interface().(context.Context)
				return Mark(c) == Mark(w)
			}
			gv := reflect.ValueOf(g)
			if !gv.IsValid() || !x.IsValid() {
				return gv.IsValid() == x.IsValid()
			}
			return Same(gv, x)
		}
		if known {
			g, ok := got[names[i]]
			if !ok {
				missing = append(missing, names[i])
			} else if !eq(g) {
				return fmt.Sprintf("the %s have %s: %v instead of %s", what, names[i], g, Show(v))
			}
			continue
		}
		found := false
		for k, g := range got {
			if !used[k] && eq(g) {
				used[k], found = true, true
				break
			}
		}
		if !found {
			missing = append(missing, Show(v))
		}
	}
	if len(missing) > 0 {
		return fmt.Sprintf("the %s %v do not have %v", what, got, missing)
	}
	if len(got) != n {
		return fmt.Sprintf("the %s are %v, %d expected", what, got, n)
	}
	return ""
}

// Span is what a tracing backend saw.
type Span struct {
	ID, Parent string
	Tracer     string // when the backend names tracers
	Name       string
	Ended      int
	AfterEnd   int
	IsErr      bool
	Message    string
	Dur        time.Duration // <0 when not known
	Type       string
	Labels     map[string]any
}

// Backend adapts a tracing library.
type Backend struct {
	Name string
	// Start starts a span that becomes the parent
	Start func(ctx context.Context) (context.Context, string, func())
	// Current is the span of a context
	Current func(ctx context.Context) string
	// Take returns the finished and unfinished spans since the last call
	Take  func() []Span
	Build func(i *Iface, base any, instance string, deco func(span string, params, results map[string]any)) any
	// Running tells if a span is not ended yet
	Running func(span string) bool
	// Check looks at the name
	NameOK func(i *Iface, m Meth, instance string, s Span) string
	// NoDecorator: the backend has no span decorators
	NoDecorator bool
	// NoVirtualTime: the backend cannot run with virtual time
	NoVirtualTime bool
	NeedParent    bool
	Extra         func(i *Iface, m Meth, s Span, args []reflect.Value) string
}

// Tracing is the monitor of the tracing decorators.
func Tracing(t *testing.T, b Backend) {
	for _, ifc := range Ifaces(b.Name) {
		for _, m := range ifc.Methods() {
			for k := 0; k < N(12, 120); k++ {
				run := func() { b.one(ifc, m, k) }
				if b.NoVirtualTime {
					run()
					continue
				}
				if d := Bubble(t, run); d != "" {
					Viol(ifc.ID(b.Name, m), "%s", d)
				}
			}
		}
		if !b.NoVirtualTime {
			Bubble(t, func() { b.shared(ifc) })
		} else {
			b.shared(ifc)
		}
	}
}

func (b Backend) one(ifc *Iface, m Meth, k int) {
	r := Rand(b.Name+ifc.Key+ifc.Where+m.Name, k)
	id := ifc.ID(b.Name, m)
	withParent := b.NeedParent || r.Intn(2) == 0
	withDeco := !b.NoDecorator && r.Intn(3) == 0
	fail := r.Intn(2) == 0
	boom := r.Intn(5) == 0
	instance := fmt.Sprintf("instance%d", r.Intn(1000))
	err := FailErr()
	if r.Intn(2) == 0 {
		err = fmt.Errorf("outer: %w", err)
	}
	desc := fmt.Sprintf("parent=%v decorator=%v error=%v panic=%v", withParent, withDeco, fail, boom)
	ctx, _ := MarkedCtx(context.Background())
	parent := ""
	var endParent func()
	b.Take()
	if withParent {
		ctx, parent, endParent = b.Start(ctx)
	}
	dur := time.Duration(r.Intn(5000)) * time.Millisecond
	if b.NoVirtualTime {
		dur = 0
	}
	n := 0
	var rec *Call
	cur := ""
	running := true
	impl := &Impl{On: func(c *Call) {
		n++
		rec = c
		if c.Ctx != nil {
			cur = b.Current(c.Ctx)
			if m.Ctx {
				running = b.Running(cur)
			}
		}
		if dur > 0 {
			time.Sleep(dur)
		}
		if boom {
			panic("base")
		}
		var e error
		if fail {
			e = err
		}
		c.SetResults(m.Res(&Fab{R: rand.New(rand.NewSource(int64(k)))}, e))
	}}
	ndeco := 0
	var dp, dr map[string]any
	decoSpan := ""
	decoAfter := false
	decoRunning := true
	var deco func(string, map[string]any, map[string]any)
	if withDeco {
		deco = func(s string, p, res map[string]any) {
			ndeco++
			decoSpan, dp, dr = s, p, res
			decoAfter = rec != nil
			decoRunning = b.Running(s)
		}
	}
	dec := b.Build(ifc, ifc.New(impl), instance, deco)
	args := m.Args(&Fab{R: r}, ctx)
	o := Invoke(dec, m, args)
	if withParent {
		endParent()
	}
	var spans []Span
	for _, s := range b.Take() {
		if s.ID != parent {
			spans = append(spans, s)
		}
	}
	if n != 1 || rec.Method != m.Name {
		Viol(id, "%s: %d calls of the base", desc, n)
		return
	}
	if s := SameArgs(rec.Args, args); s != "" {
		Viol(id, "%s: %s", desc, s)
	}
	Count("calls", 1)
	Eval(id + desc)
	if boom {
		Count("panics", 1)
		if !o.Panicked || o.Panic != "base" {
			Viol(id, "%s: the panic of the base does not reach the caller: %v", desc, o.Panic)
		}
	} else {
		if o.Panicked {
			Viol(id, "%s: panic %v\n%s", desc, o.Panic, o.Stack)
			return
		}
		if s := SameAll(o.Results, rec.Results, "result"); s != "" {
			Viol(id, "%s: %s", desc, s)
		}
	}
	if !m.Ctx {
		if len(spans) != 0 {
			Viol(id, "%s: %d spans for a method without a context", desc, len(spans))
		}
		if ndeco != 0 {
			Viol(id, "%s: the span decorator is called for a method without a context", desc)
		}
		return
	}
	Count("spans", len(spans))
	if len(spans) != 1 {
		Viol(id, "%s: %d spans instead of 1: %+v", desc, len(spans), spans)
		return
	}
	s := spans[0]
	if s.Parent != parent {
		Viol(id, "%s: the parent of the span is %q instead of %q", desc, s.Parent, parent)
	}
	if cur != s.ID {
		Viol(id, "%s: the context of the base carries the span %q instead of %q", desc, cur, s.ID)
	}
	if !running {
		Viol(id, "%s: the span is ended while the base works", desc)
	}
	if s.Ended != 1 {
		Viol(id, "%s: the span is ended %d times", desc, s.Ended)
	}
	if s.AfterEnd != 0 {
		Viol(id, "%s: the span is changed after its end", desc)
	}
	if s.Dur >= 0 && s.Dur != dur {
		Viol(id, "%s: the span lasts %v instead of %v", desc, s.Dur, dur)
	}
	if x := b.NameOK(ifc, m, instance, s); x != "" {
		Viol(id, "%s: %s", desc, x)
	}
	wantErr := m.Err && fail && !boom && !withDeco
	if s.IsErr != wantErr {
		Viol(id, "%s: the span is marked as failed: %v, should be: %v", desc, s.IsErr, wantErr)
	}
	if wantErr {
		Count("error_spans", 1)
		if s.Message != err.Error() {
			Viol(id, "%s: the span has the message %q instead of %q", desc, s.Message, err.Error())
		}
	}
	if withDeco {
		Count("span_decorators", 1)
		switch {
		case ndeco != 1:
			Viol(id, "%s: the span decorator is called %d times", desc, ndeco)
		case !decoAfter:
			Viol(id, "%s: the span decorator is called before the base", desc)
		case decoSpan != s.ID:
			Viol(id, "%s: the span decorator gets the span %q instead of %q", desc, decoSpan, s.ID)
		case !decoRunning:
			Viol(id, "%s: the span decorator is called after the end of the span", desc)
		default:
			if x := CheckFields(m, dp, args, false, false); x != "" {
				Viol(id, "%s: span decorator: %s", desc, x)
			}
			if !boom {
				if x := CheckFields(m, dr, o.Results, true, false); x != "" {
					Viol(id, "%s: span decorator: %s", desc, x)
				}
			}
		}
	}
	if b.Extra != nil {
		if x := b.Extra(ifc, m, s, args); x != "" {
			Viol(id, "%s: %s", desc, x)
		}
	}
	Sample("%s (%s) %s: span %+v", id, m.Sig(), desc, s)
}

// shared uses one decorator from several goroutines.
func (b Backend) shared(ifc *Iface) {
	ms := ifc.Pick(func(m Meth) bool { return m.Ctx })
	if len(ms) == 0 {
		return
	}
	id := b.Name + "/" + ifc.Key
	b.Take()
	impl := &Impl{On: func(c *Call) {
		if len(c.Results) > 0 && c.Results[len(c.Results)-1].Type() == errType && Mark(c.Ctx)%2 == 0 {
			c.Results[len(c.Results)-1].Set(valueOfErr(FailErr()))
		}
	}}
	var deco func(string, map[string]any, map[string]any)
	if !b.NoDecorator && len(ms)%2 == 0 {
		deco = func(s string, p, r map[string]any) {}
	}
	ctx := context.Background()
	parent := ""
	end := func() {}
	if b.NeedParent {
		ctx, parent, end = b.Start(ctx)
	}
	dec := b.Build(ifc, ifc.New(impl), "shared", deco)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		r := Rand("tracing-shared"+ifc.Key, g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 10; i++ {
				c, _ := MarkedCtx(ctx)
				m := ms[r.Intn(len(ms))]
				Invoke(dec, m, m.Args(&Fab{R: r}, c))
			}
		}()
	}
	wg.Wait()
	end()
	n := 0
	for _, s := range b.Take() {
		if s.ID == parent {
			continue
		}
		n++
		if s.Ended != 1 {
			Viol(id, "concurrent calls: a span is ended %d times", s.Ended)
		}
	}
	if n != 80 {
		Viol(id, "80 concurrent calls make %d spans", n)
	}
	Count("concurrent_calls", 80)
}

// NameIs checks the name of a span against what may stand before Iface.Method.
func NameIs(name, prefix string, i *Iface, m Meth) string {
	suffix := "." + i.Name + "." + m.Name
	if !strings.HasPrefix(name, prefix+".") || !strings.HasSuffix(name, suffix) {
		return fmt.Sprintf("the span is named %q instead of %s...%s", name, prefix, suffix)
	}
	return ""
}
