package rt

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"decmod/hook"
)

// Kit monitors decorators made of the helpers of the methods: every call has
// to reach the base with its arguments, and what the struct and map helpers
// hold has to be what was passed, under the names of the model.
func Kit(t *testing.T) {
	for _, ifc := range Ifaces("kit") {
		build := ifc.B["kit"].(func(base any, mode int, see func(hook.Kit)) any)
		for _, m := range ifc.Methods() {
			for k := 0; k < N(21, 210); k++ {
				kitOne(ifc, m, build, k)
			}
		}
	}
}

var kitModes = []string{"Pass", "ResultsNames=Call", "structs and maps", "Signature", "Params and Results", "Pass in a block", "ReturnStruct in a block"}

func kitOne(ifc *Iface, m Meth, build func(any, int, func(hook.Kit)) any, k int) {
	r := Rand("kit"+ifc.Key+ifc.Where+m.Name, k)
	mode := k % 7
	id := ifc.ID("kit", m) + "/" + strings.ReplaceAll(kitModes[mode], " ", "_")
	var mu sync.Mutex
	var calls []*Call
	base := ifc.New(&Impl{On: func(c *Call) {
		var err error
		if r.Intn(2) == 0 {
			err = FailErr()
		}
		res := m.Res(&Fab{R: rand.New(rand.NewSource(int64(k)))}, err)
		c.SetResults(res)
		c.Results = res
		mu.Lock()
		calls = append(calls, c)
		mu.Unlock()
	}})
	var kits []hook.Kit
	dec := build(base, mode, func(h hook.Kit) { kits = append(kits, h) })
	ctx, _ := MarkedCtx(context.Background())
	if m.NIn() > 0 && !m.Ctx {
		ctx = nil
	}
	args := m.Args(&Fab{R: r}, ctx)
	o := Invoke(dec, m, args)
	Count("calls", 1)
	Eval(id + ifc.Where)
	if o.Panicked || o.Exited {
		Viol(id, "panic %v\n%s", o.Panic, o.Stack)
		return
	}
	if len(calls) != 1 || calls[0].Method != m.Name {
		Viol(id, "%d calls reach the base", len(calls))
		return
	}
	if s := SameArgs(calls[0].Args, args); s != "" {
		Viol(id, "%s", s)
	}
	if s := SameAll(o.Results, calls[0].Results, "result"); s != "" {
		Viol(id, "%s", s)
	}
	Sample("%s (%s, %s): %s -> %s", id, m.Sig(), ifc.Where, ShowAll(args), ShowAll(o.Results))
	if mode != 2 {
		return
	}
	if len(kits) != 1 {
		Viol(id, "%d reports", len(kits))
		return
	}
	h := kits[0]
	Count("reports", 1)
	if h.Method != m.Name || h.HasParams != (len(args) > 0) || h.HasResults != (len(o.Results) > 0) {
		Viol(id, "method %s, HasParams %v, HasResults %v of %v", h.Method, h.HasParams, h.HasResults, m.Type)
	}
	for i, v := range h.Variadic {
		if v != (m.Type.IsVariadic() && i == m.NIn()-1) {
			Viol(id, "Variadic of parameter %d is %v", i, v)
		}
	}
	kitStruct(id, "ParamsStruct", h.Params, h.ParamNames, args, false)
	kitStruct(id, "ParamPtrsStruct", h.ParamPtrs, h.ParamNames, args, true)
	kitStruct(id, "ResultsStruct", h.Results, h.ResultNames, o.Results, false)
	kitMap(id, "ParamsMap", h.ParamsMap, h.ParamNames, args)
	kitMap(id, "ResultsMap", h.ResultsMap, h.ResultNames, o.Results)
	// the names of the source are kept unless they collide
	for i, n := range h.ParamNames {
		if s := m.Params[i]; s != "" && s != "_" && n == s {
			Count("source_names", 1)
		}
	}
}

func kitStruct(id, what string, s any, names []string, want []reflect.Value, ptrs bool) {
	v := reflect.ValueOf(s)
	if v.NumField() != len(want) || len(names) != len(want) {
		Viol(id, "%s has %d fields, %d names, there are %d values", what, v.NumField(), len(names), len(want))
		return
	}
	for i := range want {
		if n := v.Type().Field(i).Name; n != names[i] {
			Viol(id, "%s: field %d is called %s instead of %s", what, i, n, names[i])
		}
		f := v.Field(i)
		if ptrs {
			if f.Kind() != reflect.Pointer || f.IsNil() {
				Viol(id, "%s: field %d is no pointer", what, i)
				return
			}
			f = f.Elem()
		}
		if !Same(f, want[i]) {
			Viol(id, "%s: field %s is %v instead of %s", what, names[i], f, Show(want[i]))
		}
		Count("fields", 1)
	}
}

func kitMap(id, what string, m map[string]any, names []string, want []reflect.Value) {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	ns := append([]string(nil), names...)
	sort.Strings(ns)
	if fmt.Sprint(keys) != fmt.Sprint(ns) || len(names) != len(want) {
		Viol(id, "%s has the keys %q instead of %q", what, keys, ns)
		return
	}
	for i, n := range names {
		w := want[i]
		if w.Kind() == reflect.Interface {
			w = w.Elem()
		}
		g := reflect.ValueOf(m[n])
		if !Same(g, w) {
			Viol(id, "%s: %s is %v instead of %s", what, n, g, Show(want[i]))
		}
		Count("entries", 1)
	}
}
