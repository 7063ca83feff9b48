package checks

import (
	"fmt"
	"go/types"
	"math/rand"
	"strings"

	"verifharness/internal/core"
	"verifharness/internal/progen"
)

func init() {
	reg("C29", func(c *core.Ctx) {
		c.Rule = "a case is one instantiation tried on a generic interface and on the generic type the model declares; non-trivial: distinct interface and arguments"
		c.Assume = []string{"go/types and the Go compiler are the reference; blank type parameters and constraints that cannot be named from the destination are not generated"}
		mod, ps := probeRandom(c, c.Pick(30, 200), progen.Opts{Generics: true, Embeds: true, Hostile: true, Interfaces: 8}, 15485863)
		for i, p := range ps {
			if p.Generic {
				checkGeneric(c, mod, p, rand.New(rand.NewSource(c.Seed*1000+int64(i))))
			}
		}
		if c.Violations() == 0 {
			c.Need("generic_interfaces", 60)
			c.Need("accepted_instantiations", 300)
			c.Need("rejected_instantiations", 300)
		}
	})
}

func checkGeneric(c *core.Ctx, mod *core.Mod, p *probed, r *rand.Rand) {
	c.Count("generic_interfaces", 1)
	if p.Res.Code != 0 {
		c.Finding("refused/"+p.key(), fmt.Sprintf("gowrap refuses the generic %s of %s (%v):\n%s", p.Name, p.Pkg, p.Feats, core.Clip(p.Res.Err, 1200)), replay(p))
		return
	}
	if p.Model == nil || p.Compile != "" {
		what := ""
		if p.Model != nil {
			what = fmt.Sprintf("types %q params %q\n", p.Model.Generics.Types, p.Model.Generics.Params)
		}
		c.Finding("compile/"+p.key(), fmt.Sprintf("the generic type the model of %s declares does not compile or does not implement it (%v):\n%s%s", p.Name, p.Feats, what, core.Clip(p.Compile, 1500)), replay(p))
		return
	}
	out, err := mod.Import(p.OutPkg)
	if err != nil {
		// another output, reported on its own, broke the package
		c.Count("outputs_of_broken_packages", 1)
		return
	}
	src, err := mod.Import(p.Pkg)
	if err != nil {
		c.Count("outputs_of_broken_packages", 1)
		return
	}
	io, mo := src.Scope().Lookup(p.Name), out.Scope().Lookup("ZzModel"+p.Name)
	if io == nil || mo == nil {
		core.Fail("%s or its model is not in the export data", p.Name)
	}
	it, mt := io.Type().(*types.Named), mo.Type().(*types.Named)
	n := it.TypeParams().Len()
	if mt.TypeParams().Len() != n {
		c.Finding("params/"+p.key(), fmt.Sprintf("%s has %d type parameters, the model has %s", p.Name, n, p.Model.Generics.Types), replay(p))
		return
	}
	for i := 0; i < n; i++ {
		if a, b := it.TypeParams().At(i).Obj().Name(), mt.TypeParams().At(i).Obj().Name(); a != b {
			c.Finding("names/"+p.key(), fmt.Sprintf("type parameter %d of %s is called %s, the model has %s", i, p.Name, a, p.Model.Generics.Types), replay(p))
		}
	}
	ty := func(pkg *types.Package, name string) types.Type {
		o := pkg.Scope().Lookup(name)
		if o == nil {
			core.Fail("no %s in %s", name, pkg.Path())
		}
		return o.Type()
	}
	imp := func(path, name string) types.Type {
		q, err := mod.Import(path)
		if err != nil {
			return types.Typ[types.Int]
		}
		return ty(q, name)
	}
	lt, lstr := ty(src, "LT"), ty(src, "LStr")
	str, in := types.Typ[types.String], types.Typ[types.Int]
	inst := func(name string, args ...types.Type) types.Type {
		t, err := types.Instantiate(nil, ty(src, name), args, true)
		core.Must(err, "instantiation of the harness")
		return t
	}
	errT := types.Universe.Lookup("error").Type()
	cand := []types.Type{in, str, types.Typ[types.Float64], types.Typ[types.Bool], types.Typ[types.Int64], lt, lstr, types.NewPointer(lt), types.NewPointer(lstr), types.NewSlice(lt), types.NewSlice(in), types.NewSlice(str),
		types.NewMap(str, in), types.NewMap(in, lt), types.NewMap(lstr, str), imp("time", "Duration"), imp("time", "Time"), errT, ty(src, "LI"), ty(src, "Ürt"), ty(src, "LFn"),
		inst("LG", in), inst("LG", lt), inst("LG", types.NewPointer(lt)), inst("LG2", str, in), inst("LG2", str, lt), inst("EG", lt), inst("EG", in),
		types.NewChan(types.SendRecv, in), types.NewChan(types.RecvOnly, lt), types.NewArray(in, 2), types.NewStruct([]*types.Var{types.NewField(0, nil, "F", in, false)}, nil),
		types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewParam(0, nil, "", in)), types.NewTuple(types.NewParam(0, nil, "", errT)), false),
		types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewParam(0, nil, "", lt)), types.NewTuple(types.NewParam(0, nil, "", errT)), false),
		types.NewInterfaceType(nil, nil).Complete()}
	tries := len(cand)
	if n > 1 {
		tries = 150
	}
	for k := 0; k < tries; k++ {
		args := make([]types.Type, n)
		var names []string
		for i := range args {
			if n == 1 {
				args[i] = cand[k]
			} else {
				args[i] = cand[r.Intn(len(cand))]
			}
			names = append(names, args[i].String())
		}
		if n > 1 && k%3 != 0 { // complete a likely success: the core type of a constraint
			solve(it, args, r)
			names = nil
			for _, a := range args {
				names = append(names, a.String())
			}
		}
		a, e1 := types.Instantiate(nil, it, args, true)
		b, e2 := types.Instantiate(nil, mt, args, true)
		what := fmt.Sprintf("%s[%s]", p.Name, strings.Join(names, ", "))
		if (e1 == nil) != (e2 == nil) {
			c.Finding("constraint/"+p.key(), fmt.Sprintf("%s: the interface says %v, the type declared with %s says %v", what, e1, p.Model.Generics.Types, e2), replay(p))
			return
		}
		c.Eval(p.key() + what)
		if e1 != nil {
			c.Count("rejected_instantiations", 1)
			continue
		}
		c.Count("accepted_instantiations", 1)
		if m, wrong := types.MissingMethod(b, a.Underlying().(*types.Interface), true); m != nil {
			c.Finding("implements/"+p.key(), fmt.Sprintf("%s is not implemented by the instantiated type: %s (wrong type %v)", what, m, wrong), replay(p))
			return
		}
		c.Sample(map[string]any{"instantiation": what, "types": p.Model.Generics.Types, "params": p.Model.Generics.Params})
	}
}

// solve replaces arguments by the core types their constraints ask for.
func solve(it *types.Named, args []types.Type, r *rand.Rand) {
	for i := 0; i < it.TypeParams().Len(); i++ {
		con, ok := it.TypeParams().At(i).Constraint().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for e := 0; e < con.NumEmbeddeds(); e++ {
			var term types.Type
			switch u := con.EmbeddedType(e).(type) {
			case *types.Union:
				term = u.Term(r.Intn(u.Len())).Type()
			default:
				continue
			}
			args[i] = subst(term, it, args)
		}
	}
}

// subst puts the arguments in the place of the type parameters, in the shapes
// the generator uses for constraints.
func subst(t types.Type, it *types.Named, args []types.Type) types.Type {
	switch t := t.(type) {
	case *types.TypeParam:
		for i := 0; i < it.TypeParams().Len(); i++ {
			if it.TypeParams().At(i) == t {
				return args[i]
			}
		}
	case *types.Slice:
		return types.NewSlice(subst(t.Elem(), it, args))
	case *types.Array:
		return types.NewArray(subst(t.Elem(), it, args), t.Len())
	case *types.Map:
		return types.NewMap(subst(t.Key(), it, args), subst(t.Elem(), it, args))
	case *types.Chan:
		return types.NewChan(t.Dir(), subst(t.Elem(), it, args))
	case *types.Struct:
		return types.NewStruct([]*types.Var{types.NewField(0, nil, "F", subst(t.Field(0).Type(), it, args), false)}, nil)
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewParam(0, nil, "", subst(t.Params().At(0).Type(), it, args))), t.Results(), false)
	case *types.Named:
		if t.TypeArgs().Len() > 0 {
			var as []types.Type
			for i := 0; i < t.TypeArgs().Len(); i++ {
				as = append(as, subst(t.TypeArgs().At(i), it, args))
			}
			if x, err := types.Instantiate(nil, t.Origin(), as, true); err == nil {
				return x
			}
		}
	}
	return t
}
