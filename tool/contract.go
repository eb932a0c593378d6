package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type HFrame struct {
	h        *Harness
	mode     string // verify, use, model
	target   *ssa.Function
	called   bool
	mods     []modItem
	mayPanic *Term
	onPanic  []*FuncV
	loops    []*FuncV
	joins    []*FuncV
	measure  *Term
	callSpec int // value of spec outside a contract being used
	args     []Val
}

type modItem struct {
	obj  int
	path []Step
	all  bool // content of a slice or map
	typ  types.Type
}

type InvokeV struct {
	m    *types.Func
	recv Val
	typ  types.Type
}

type BuiltinV struct{ b *ssa.Builtin }

func (fr *Frame) hf() *HFrame {
	for f := fr; f != nil; f = f.caller {
		if f.h != nil {
			return f.h
		}
	}
	return nil
}

func (ex *Exec) callArgs(fr *Frame, st *State, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, ex.val(fr, st, a))
	}
	if cc.IsInvoke() {
		return &InvokeV{cc.Method, ex.val(fr, st, cc.Value), cc.Value.Type()}, args
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return &BuiltinV{b}, args
	}
	return ex.val(fr, st, cc.Value), args
}

func (ex *Exec) callInstr(fr *Frame, st *State, x *ssa.Call) []Outcome {
	fv, args := ex.callArgs(fr, st, &x.Call)
	outs := ex.callVal(fr, st, &x.Call, fv, args, nil)
	var live []Outcome
	for _, o := range outs {
		if !o.st.dead {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		st.dead = true
		return []Outcome{{st: st, res: ex.zero(x.Type())}}
	}
	return live
}

func (ex *Exec) callVal(fr *Frame, st *State, cc *ssa.CallCommon, fv Val, args []Val, box *PanBox) []Outcome {
	switch f := fv.(type) {
	case *BuiltinV:
		return ex.builtin(fr, st, cc, f.b, args)
	case *InvokeV:
		return ex.invoke(fr, st, cc, f, args)
	case *FuncV:
		if f.nat != nil {
			return f.nat(ex, st, args)
		}
		if h := fr.hf(); h != nil && h.mode == "model" && ex.w.isCode(f.fn) {
			// the model calls back
			save := ex.spec
			ex.spec = h.callSpec
			defer func() { ex.spec = save }()
		}
		return ex.callFunc(fr, st, f.fn, args, f.binds, box)
	case *RefV:
		if v, ok := ex.refVal(f.t, f.typ).(*FuncV); ok {
			return ex.callVal(fr, st, cc, v, args, box)
		}
		ex.safe(st, "call of nil function", ex.c.Not(ex.c.Eq(f.t, ex.nilRef())))
		return ex.unknownFunc(fr, st, f, args)
	case *PtrV:
		ex.safe(st, "call of nil function", ex.c.False())
		st.dead = true
		return nil
	}
	fail("call of %T", fv)
	return nil
}

// unknownFunc: a function value about which nothing is known.  A contract of
// kind iface for "func" with the signature may describe it.
func (ex *Exec) unknownFunc(fr *Frame, st *State, f *RefV, args []Val) []Outcome {
	sig := f.typ.Underlying().(*types.Signature)
	key := "func" + strings.TrimPrefix(typeStr(types.NewSignatureType(nil, nil, nil, unnamed(sig.Params()), unnamed(sig.Results()), sig.Variadic())), "func")
	if h := ex.model(key); h != nil {
		return ex.useHarness(fr, st, h, append([]Val{f}, args...))
	}
	fail("call of an unknown function of type %s", key)
	return nil
}

func unnamed(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

func (ex *Exec) invoke(fr *Frame, st *State, cc *ssa.CallCommon, iv *InvokeV, args []Val) []Outcome {
	c := ex.c
	switch r := iv.recv.(type) {
	case *IfaceV:
		if r.typ == nil {
			ex.safe(st, "method call on nil interface: "+iv.m.Name(), c.False())
			st.dead = true
			return nil
		}
		fn := ex.w.prog.LookupMethod(r.typ, iv.m.Pkg(), iv.m.Name())
		if fn == nil {
			fail("no method %s on %s", iv.m.Name(), r.typ)
		}
		return ex.callFunc(fr, st, fn, append([]Val{r.v}, args...), nil, nil)
	case *Term: // types.Value
		if r.sort != ValS {
			fail("invoke on term of sort %s", r.sort.name)
		}
		if isVCtor(r) {
			if r.op == "vnil" {
				ex.safe(st, "method call on nil value: "+iv.m.Name(), c.False())
				st.dead = true
				return nil
			}
			t := ex.w.valueType(r.op)
			return ex.invoke(fr, st, cc, &InvokeV{iv.m, &IfaceV{t, ex.reflectV(st, r.args[0], t)}, iv.typ}, args)
		}
		ex.safe(st, "method call on nil value: "+iv.m.Name(), c.Not(c.IsV("vnil", r)))
		var outs []Outcome
		for _, k := range []string{"vbool", "vint", "vflt", "vstr", "vbytes"} {
			is := c.IsV(k, r)
			if !ex.feasible(st, is) {
				continue
			}
			s2 := st.clone()
			s2.assume(c, is)
			t := ex.w.valueType(k)
			outs = append(outs, ex.invoke(fr, s2, cc, &InvokeV{iv.m, &IfaceV{t, ex.reflectV(s2, c.VSel(k, r), t)}, iv.typ}, args)...)
		}
		return ex.mergeOuts(st, outs, cc.Signature().Results())
	case *RefV:
		if v := ex.refVal(r.t, r.typ); v != nil {
			if x, ok := v.(*IfaceV); ok {
				return ex.invoke(fr, st, cc, &InvokeV{iv.m, x, iv.typ}, args)
			}
		}
		if r.t.op == "app" && r.t.s == "val2any" {
			return ex.invoke(fr, st, cc, &InvokeV{iv.m, r.t.args[0], iv.typ}, args)
		}
		ex.safe(st, "method call on nil interface: "+iv.m.Name(), c.Not(c.Eq(r.t, ex.nilRef())))
		key := strings.TrimPrefix(typeStr(iv.typ), "*") + "." + iv.m.Name()
		if h := ex.model(key); h != nil {
			return ex.useHarness(fr, st, h, append([]Val{r}, args...))
		}
		if f := natIface[key]; f != nil {
			return f(ex, fr, st, append([]Val{r}, args...))
		}
		if im := ex.h.opts["impl"]; im != "" {
			// the only implementation considered
			for _, pr := range strings.Fields(im) {
				k, v, _ := strings.Cut(pr, "=")
				if k == typeStr(iv.typ) {
					ptr := strings.HasPrefix(v, "*")
					pk, tn, _ := strings.Cut(strings.TrimPrefix(v, "*"), ".")
					t := ex.w.namedType(pk, tn)
					if t == nil {
						fail("no type %s", v)
					}
					if ptr {
						t = types.NewPointer(t)
					}
					ex.assume[fmt.Sprintf("%s is implemented by %s only", k, v)] = true
					fn := ex.w.prog.LookupMethod(t, iv.m.Pkg(), iv.m.Name())
					n := ex.tname(t)
					st.assume(c, c.Eq(c.App("dyn", IntS, r.t), c.Int(c.typeCode(n))))
					return ex.callFunc(fr, st, fn, append([]Val{ex.reflectV(st, c.App("payload."+n, ex.sortOf(t), r.t), t)}, args...), nil, nil)
				}
			}
		}
		fail("method call on unknown %s", key)
	case *PtrV:
		if r.obj == 0 {
			ex.safe(st, "method call on nil interface: "+iv.m.Name(), c.False())
			st.dead = true
			return nil
		}
	case *TypeV:
		return ex.reflectTypeMethod(fr, st, r, iv.m.Name(), args)
	}
	fail("invoke %s on %T", iv.m.Name(), iv.recv)
	return nil
}

func (ex *Exec) callFunc(fr *Frame, st *State, fn *ssa.Function, args, binds []Val, box *PanBox) []Outcome {
	// the call under contract in its own harness
	if fr != nil && fr.h != nil && fr.h.target == fn && !fr.h.called {
		return ex.targetCall(fr, st, fn, args)
	}
	org := fn
	if fn.Origin() != nil {
		org = fn.Origin()
	}
	if p := org.Package(); p != nil && p.Pkg.Path() == "vs" && org.Name() != "init" && ex.w.recs[org] == nil && org.Parent() == nil {
		return ex.vsCall(fr, st, fn, org.Name(), args)
	}
	if r := ex.w.recs[fn]; r != nil {
		return []Outcome{{st: st, res: ex.recApp(st, r, args)}}
	}
	if h := ex.w.byHF[fn]; h != nil {
		if h.Kind == "lemma" || h.Kind == "theorem" || h.Kind == "axiom" {
			if h == ex.h && fr.hf() != nil && fr.hf().h == h {
				ex.note("")
			}
			return ex.useHarness(fr, st, h, args)
		}
	}
	if h := ex.w.byFn[fn]; h != nil && !ex.inlineHere(fr, h) && !(ex.booting && h.Kind == "contract") {
		return ex.useHarness(fr, st, h, args)
	}
	name := shortName(org)
	if h := ex.model(name); h != nil {
		return ex.useHarness(fr, st, h, args)
	}
	if f := natives[name]; f != nil {
		ex.natUse[name] = true
		return f(ex, fr, st, args)
	}
	if fn.Blocks == nil && fn.Name() == "init" && fn.Signature.Recv() == nil && len(args) == 0 {
		return []Outcome{{st: st, res: TupleV{}}}
	}
	if fn.Blocks != nil {
		if p := org.Package(); p != nil && (strings.HasPrefix(p.Pkg.Path(), modPath) || inlinedStd[p.Pkg.Path()]) && ex.spec == 0 && ex.dry == 0 {
			ex.inl[shortName(fn)] = true
		}
		if ex.booting && fr != nil && fr.fn.Synthetic != "" && fr.fn.Name() == "init" && fn.Name() != "init" && fn.Signature.Results().Len() == 1 {
			return ex.bootCall(fr, st, fn, args, binds)
		}
		outs := ex.runFunc(fn, args, binds, st, fr, nil, box)
		return ex.mergeOuts(st, outs, fn.Signature.Results())
	}
	fail("no contract or model for %s", name)
	return nil
}

// bootCall: a call in the initialiser of a package, with an unknown result if
// it cannot be executed.
func (ex *Exec) bootCall(fr *Frame, st *State, fn *ssa.Function, args, binds []Val) (outs []Outcome) {
	snapshot := st.clone()
	defer func() {
		if r := recover(); r != nil {
			te, ok := r.(toolErr)
			if !ok {
				panic(r)
			}
			if os.Getenv("VT_BOOT") != "" {
				fmt.Fprintf(os.Stderr, "init: %s: %s: %s\n", shortName(fn), ex.curPos, te.msg)
			}
			ex.assume[shortName(fn)+" called by an initialiser is not executed ("+te.msg+"): its result is arbitrary"] = true
			outs = []Outcome{{st: snapshot, res: ex.symbolic(snapshot, fn.Signature.Results().At(0).Type(), fn.Name())}}
		}
	}()
	outs = ex.mergeOuts(st, ex.runFunc(fn, args, binds, st, fr, nil, nil), fn.Signature.Results())
	if len(outs) != 1 || outs[0].pan != nil {
		fail("initialiser forks")
	}
	return outs
}

// isCode: a function of the repository itself
func (w *World) isCode(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Package() == nil || !strings.HasPrefix(f.Package().Pkg.Path(), modPath) {
		return false
	}
	return !strings.HasPrefix(fileBase(w.fset.Position(f.Pos()).Filename), "zz_")
}

// inlineHere: the harness asks for a body instead of the contract
func (ex *Exec) inlineHere(fr *Frame, h *Harness) bool {
	for f := fr; f != nil; f = f.caller {
		if f.h != nil {
			for _, n := range strings.Fields(f.h.h.opts["inline"]) {
				if n == h.Target || n == "*" {
					return true
				}
			}
		}
	}
	return false
}

// mergeOuts joins outcomes that left the heap alone.
func (ex *Exec) mergeOuts(pre *State, outs []Outcome, rt *types.Tuple) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	var t types.Type = rt
	if rt.Len() == 1 {
		t = rt.At(0).Type()
	}
	res := []Outcome{}
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		merged := false
		if o.pan == nil {
			for i := range res {
				if res[i].pan != nil {
					continue
				}
				if m, ok := ex.mergeOutcome(res[i], o, t); ok {
					res[i] = m
					merged = true
					break
				}
			}
		}
		if !merged {
			res = append(res, o)
		}
	}
	return res
}

func (ex *Exec) mergeOutcome(a, b Outcome, t types.Type) (Outcome, bool) {
	fn := &ssa.Function{}
	_ = fn
	fa := &Frame{env: map[ssa.Value]Val{}, names: map[string]Val{}, unroll: map[*ssa.BasicBlock]int{}}
	st, cond, ok := ex.mergeStates(a.st, b.st, 120)
	_ = fa
	if !ok {
		return a, false
	}
	if rt, isT := t.(*types.Tuple); isT && rt.Len() == 0 {
		return Outcome{st: st}, true
	}
	v, ok := ex.tryMerge(st, cond, a.res, b.res, t)
	if !ok && ex.spec > 0 {
		ex.curSt = st
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(toolErr); !is {
						panic(r)
					}
				}
			}()
			if _, isT := t.(*types.Tuple); !isT {
				v = ex.merge(st, cond, a.res, b.res, t)
				ok = true
			}
		}()
	}
	if !ok {
		return a, false
	}
	return Outcome{st: st, res: v}, true
}

// mergeStates joins two states; cond selects the first.
func (ex *Exec) mergeStates(a, b *State, max int) (*State, *Term, bool) {
	blk := &ssa.BasicBlock{}
	_ = blk
	cf, cond, ok := ex.mergeHeaps(a, b, max)
	return cf, cond, ok
}

// ---- the target call of a harness

func (ex *Exec) targetCall(fr *Frame, st *State, fn *ssa.Function, args []Val) []Outcome {
	h2 := *fr.h
	h2.called = true
	fr.h = &h2
	c := ex.c
	if h2.mode == "verify" {
		// preconditions must be satisfiable
		ex.checkVacuous(st, "precondition of "+h2.h.Name)
		pre := st.clone()
		save := ex.spec
		ex.spec = 0
		ex.measure = h2.measure
		outs := ex.runFunc(fn, args, nil, st, fr, nil, nil)
		ex.spec = save
		var res []Outcome
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			if h2.h.opts["noframe"] == "" {
				ex.frameCheck(pre, o.st, h2.mods)
			}
			if o.pan != nil {
				g := c.False()
				if h2.mayPanic != nil {
					g = h2.mayPanic
				}
				ex.oblige(o.st, "panic", "explicit panic only when the contract allows it", g)
				if h2.h.opts["errpanic"] != "" {
					ex.oblige(o.st, "panic", "the panic is an error, and none of the runtime", ex.errorValue(o.pan))
				}
				for _, f := range h2.onPanic {
					ex.runFunc(f.fn, nil, f.binds, o.st, fr, nil, nil)
				}
				continue
			}
			res = append(res, o)
		}
		if len(res) == 0 {
			st = st.clone()
			st.dead = true
			return []Outcome{{st: st, res: ex.zero(fn.Signature.Results())}}
		}
		return ex.mergeOutsN(res, fn.Signature.Results(), 60)
	}
	// use: anything the contract allows
	for _, m := range h2.mods {
		ex.havocMod(st, m)
	}
	if h2.h.opts["append"] != "" || h2.h.Kind == "contract" {
		for _, a := range args {
			ex.smashBeyond(st, a)
		}
	}
	var res Val
	rt := fn.Signature.Results()
	mkres := func(t types.Type, nm string) Val {
		v := ex.symbolic(st, t, nm)
		if s, ok := v.(*SliceV); ok && h2.h.opts["fresh"] == "" {
			for _, a := range args {
				if as, ok := a.(*SliceV); ok && as.base.obj != 0 && len(as.base.path) == 0 {
					if ao, ok := st.heap[as.base.obj].v.(*ArrV); ok && types.Identical(ao.elem, t.Underlying().(*types.Slice).Elem()) {
						ex.linkAlias(st, s, as)
					}
				}
			}
		}
		return v
	}
	nm := "r." + fn.Name()
	if rt.Len() == 1 {
		res = mkres(rt.At(0).Type(), nm)
	} else {
		var tv TupleV
		for i := 0; i < rt.Len(); i++ {
			tv = append(tv, mkres(rt.At(i).Type(), fmt.Sprintf("%s.%d", nm, i)))
		}
		res = tv
	}
	outs := []Outcome{{st: st, res: res}}
	if h2.mayPanic != nil && !h2.mayPanic.isFalse() && ex.feasible(st, h2.mayPanic) {
		ps := st.clone()
		ps.assume(c, h2.mayPanic)
		pv := &RefV{c.App("panicvalue", RefS, c.Fresh("pan", IntS)), ex.anyType()}
		ps.assume(c, c.Not(c.Eq(pv.t, ex.nilRef())))
		ps.assume(c, c.Not(c.App("isRuntimeError", BoolS, pv.t)))
		if h2.h.opts["errpanic"] != "" {
			ps.assume(c, c.App("impl.error", BoolS, pv.t))
		}
		for _, f := range h2.onPanic {
			ex.spec++
			os := ex.runFunc(f.fn, nil, f.binds, ps, fr, nil, nil)
			ex.spec--
			if len(os) > 0 {
				ps = os[0].st
			}
		}
		outs = append(outs, Outcome{st: ps, pan: pv})
	}
	return outs
}

// errorValue: the value is an error other than a runtime.Error
func (ex *Exec) errorValue(v Val) *Term {
	c := ex.c
	switch x := v.(type) {
	case *IfaceV:
		if x.typ == nil {
			return c.False()
		}
		errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
		if !types.Implements(x.typ, errT) {
			if y, ok := x.v.(*RefV); ok && types.IsInterface(x.typ) {
				return ex.errorValue(y)
			}
			return c.False()
		}
		if y, ok := x.v.(*RefV); ok && types.IsInterface(x.typ) {
			return ex.errorValue(y)
		}
		return c.Bool(!strings.HasPrefix(typeStr(x.typ), "runtime."))
	case *RefV:
		if strings.HasPrefix(x.t.s, "err!") {
			return c.True()
		}
		is := c.App("impl.error", BoolS, x.t)
		if typeStr(x.typ) == "error" {
			is = c.True()
		}
		return c.And(c.Not(c.Eq(x.t, ex.nilRef())), is, c.Not(c.App("isRuntimeError", BoolS, x.t)))
	}
	return c.False()
}

func (ex *Exec) anyType() types.Type { return types.NewInterfaceType(nil, nil) }

func (ex *Exec) mergeOutsN(outs []Outcome, rt *types.Tuple, n int) []Outcome {
	return outs
}

func (ex *Exec) checkVacuous(st *State, what string) {
	if ex.dry > 0 {
		return
	}
	q := &Query{c: ex.c, as: append([]*Term{}, st.pc...)}
	r, _ := ex.feas.Check(q.script(), 3000, false)
	if r == "unsat" {
		ex.obls = append(ex.obls, &Obligation{Harness: ex.h.Name, Label: "vacuous: " + what, Kind: "vacuity", Pos: ex.curPos, Result: "sat", c: ex.c, goal: ex.c.False()})
	}
}

func (ex *Exec) havocMod(st *State, m modItem) {
	if m.obj == 0 {
		return
	}
	o := st.heap[m.obj]
	if len(m.path) == 0 {
		if m.all {
			// content only
			if _, ok := o.v.(*ArrV); ok {
				ex.smashAliases(st, o)
				o = st.heap[m.obj]
			}
		}
		st.set(m.obj, ex.havocLike(st, o.v, o.typ, "mod."+o.name))
		return
	}
	old := ex.loadPtr(st, &PtrV{obj: m.obj, path: m.path})
	ex.storePtr(st, &PtrV{obj: m.obj, path: m.path}, ex.havocLike(st, old, m.typ, "mod"))
}

func (ex *Exec) smashAliases(st *State, o *Obj) {
	ex.aliasWrite(st, o, ex.c.Fresh("anyidx", IntS), map[int]bool{o.id: true})
}

// smashBeyond: an append may have overwritten what lies behind the slice
func (ex *Exec) smashBeyond(st *State, a Val) {
	c := ex.c
	s, ok := a.(*SliceV)
	if !ok || s.base.obj == 0 || len(s.base.path) > 0 {
		return
	}
	o := st.heap[s.base.obj]
	av, ok := o.v.(*ArrV)
	if !ok {
		return
	}
	seq := ex.arrSeq(st, av)
	end := c.Add(s.off, s.len)
	ln := c.Len(seq)
	if end != ln && !c.Le(ln, end).isTrue() && !ex.prove(st, c.Le(ln, end), 500) {
		f := c.Fresh("beyond", seq.sort)
		st.fact(c, c.Eq(c.Len(f), c.Sub(ln, end)))
		st.assume(c, c.Le(end, ln))
		st.set(o.id, &ArrV{elem: av.elem, seq: c.Cat(seq.sort, c.SubSeq(seq, c.Int(0), end), f)})
	}
	// objects the array may be shared with
	o = st.heap[s.base.obj]
	if len(o.alias) > 0 {
		ex.aliasWrite(st, o, end, map[int]bool{o.id: true})
	}
	// other slices grown from this one
	ids := []int{}
	for id, p := range st.heap {
		for _, al := range p.alias {
			if al.obj == s.base.obj {
				ids = append(ids, id)
			}
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		p := st.heap[id]
		pv, ok := p.v.(*ArrV)
		if !ok {
			continue
		}
		ps := ex.arrSeq(st, pv)
		f := c.Fresh("shared", ps.sort)
		// only what lies behind the common part can change
		lim := c.Len(seq)
		st.fact(c, c.Imp(c.Le(lim, c.Len(ps)), c.Eq(c.Len(f), c.Sub(c.Len(ps), lim))))
		if ex.prove(st, c.Le(lim, c.Len(ps)), 300) {
			st.set(id, &ArrV{elem: pv.elem, seq: c.Cat(ps.sort, c.SubSeq(ps, c.Int(0), lim), f)})
		} else {
			g := c.Fresh("shared", ps.sort)
			st.fact(c, c.Eq(c.Len(g), c.Len(ps)))
			st.set(id, &ArrV{elem: pv.elem, seq: g})
		}
	}
}

// frameCheck: what existed before and is not listed as modified is unchanged.
func (ex *Exec) frameCheck(pre, st *State, mods []modItem) {
	c := ex.c
	mm := map[int][]modItem{}
	for _, m := range mods {
		mm[m.obj] = append(mm[m.obj], m)
	}
	if st.wild != "" {
		ex.oblige(st, "frame", "frame: a loop changes "+st.wild, c.False())
	}
	ids := make([]int, 0, len(st.heap))
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.heap[id]
		var old Val
		if p := pre.heap[id]; p != nil {
			old = p.v
		} else if o.lazy {
			old = o.init
		} else {
			continue
		}
		if sameVal(old, o.v) || o.name == "iter" || strings.HasPrefix(o.name, "init$") {
			continue
		}
		whole := false
		for _, m := range mm[id] {
			if len(m.path) == 0 {
				whole = true
			}
		}
		if whole {
			continue
		}
		if g := ex.frameDiff(st, old, o.v, o.typ, mm[id], nil); !g.isTrue() {
			ex.oblige(st, "frame", "frame: "+o.name+" is not modified", g)
		}
	}
}

func (ex *Exec) frameDiff(st *State, a, b Val, t types.Type, mods []modItem, path []int) *Term {
	c := ex.c
	if sameVal(a, b) {
		return c.True()
	}
	for _, m := range mods {
		if len(m.path) <= len(path) {
			ok := true
			for i := range m.path {
				if m.path[i].field != path[i] {
					ok = false
				}
			}
			if ok {
				return c.True()
			}
		}
	}
	x, ok1 := a.(*StructV)
	y, ok2 := b.(*StructV)
	if ok1 && ok2 {
		u := t.Underlying().(*types.Struct)
		var gs []*Term
		for i := range x.fields {
			gs = append(gs, ex.frameDiff(st, x.fields[i], y.fields[i], u.Field(i).Type(), mods, append(append([]int{}, path...), i)))
		}
		return c.And(gs...)
	}
	if m, ok := a.(*MapV); ok {
		n := b.(*MapV)
		if m.conc {
			m = ex.symbolicMap(st, m)
		}
		if n.conc {
			n = ex.symbolicMap(st, n)
		}
		return c.And(c.Eq(m.present, n.present), c.Eq(m.val, n.val))
	}
	if t == nil {
		return c.False()
	}
	return c.Eq(ex.reify(st, a, t), ex.reify(st, b, t))
}

// ---- using a contract at a call

func (ex *Exec) useHarness(fr *Frame, st *State, h *Harness, args []Val) []Outcome {
	if h.fn == nil {
		fail("contract of %s does not apply any more: %s", h.Target, h.Missing)
	}
	if ex.dry == 0 {
		ex.used[h.Name] = true
	}
	mode := "use"
	if h.Kind == "model" || h.Kind == "iface" {
		mode = "model"
	}
	hf := &HFrame{h: h, mode: mode, target: h.target, callSpec: ex.spec, args: args}
	fn := h.fn
	if len(fn.Params) != len(args) {
		fail("contract %s: %d parameters for %d arguments", h.Name, len(fn.Params), len(args))
	}
	ex.spec++
	outs := ex.runFunc(fn, args, nil, st, fr, hf, nil)
	ex.spec--
	return ex.mergeOuts(st, outs, fn.Signature.Results())
}

// ---- verifying a harness

func (ex *Exec) verifyHarness(h *Harness) {
	st := ex.initState()
	var args []Val
	for _, p := range h.fn.Params {
		args = append(args, ex.symbolic(st, p.Type(), p.Name()))
	}
	if h.opts["distinct"] == "" {
		// pointer receivers are not nil
		if h.target != nil && h.target.Signature.Recv() != nil && len(args) > 0 {
			if r, ok := args[0].(*RefV); ok {
				if _, isP := r.typ.Underlying().(*types.Pointer); isP {
					st.assume(ex.c, ex.c.Not(ex.c.Eq(r.t, ex.nilRef())))
				}
			}
		}
	}
	hf := &HFrame{h: h, mode: "verify", target: h.target, args: args}
	ex.spec = 1
	outs := ex.runFunc(h.fn, args, nil, st, nil, hf, nil)
	ex.spec = 0
	n := 0
	// some path to the end must be possible
	if len(outs) > 0 {
		ok := false
		for i, o := range outs {
			if o.st.dead || i > 12 {
				continue
			}
			q := &Query{c: ex.c, as: append([]*Term{}, o.st.pc...), light: true}
			if r, _ := ex.feas.Check(q.script(), 2000, false); r != "unsat" {
				ok = true
				break
			}
		}
		if !ok {
			if debugLoops {
				for i, o := range outs {
					q := &Query{c: ex.c, as: append([]*Term{}, o.st.pc...), light: true}
					os.WriteFile(fmt.Sprintf("/tmp/d/vac-%d.smt2", i), []byte(q.script()), 0o644)
					fmt.Println("vacuous", i, o.st.dead, len(o.st.pc))
				}
			}
			ex.obls = append(ex.obls, &Obligation{Harness: h.Name, Label: "vacuous: no path through " + h.Name, Kind: "vacuity", Pos: ex.curPos, Result: "sat", c: ex.c, goal: ex.c.False()})
		}
	}
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		ex.locksReleased(o.st)
		if o.pan != nil {
			ex.oblige(o.st, "panic", "no panic escapes", ex.c.False())
			continue
		}
		n++
	}
	_ = n
}

// ---- specification functions

func (ex *Exec) specApp(st *State, name string, args ...*Term) *Term {
	for f, r := range ex.w.recs {
		if shortName(f) == name {
			var vs []Val
			for _, a := range args {
				vs = append(vs, a)
			}
			return ex.recApp(st, r, vs).(*Term)
		}
	}
	fail("no specification function %s", name)
	return nil
}

func (ex *Exec) recApp(st *State, r *RecInfo, args []Val) Val {
	c := ex.c
	name := shortName(r.fn)
	sig := r.fn.Signature
	rt := sig.Results().At(0).Type()
	if c.defs[name] == nil {
		d := &RecDef{name: name, res: ex.sortOf(rt), fuel: r.fuel}
		c.defs[name] = d
		s2 := ex.initState()
		s2.pc, s2.pcset, s2.facts = nil, map[int]bool{}, map[int]bool{}
		var as []Val
		for _, p := range r.fn.Params {
			f := c.Var("formal:"+name+":"+p.Name(), ex.sortOf(p.Type()))
			d.formals = append(d.formals, f)
			as = append(as, ex.reflectV(s2, f, p.Type()))
		}
		ex.spec++
		ex.dry++
		n0 := len(s2.pc)
		outs := ex.runFunc(r.fn, as, nil, s2, nil, nil, nil)
		ex.spec--
		ex.dry--
		var body *Term
		for i := len(outs) - 1; i >= 0; i-- {
			o := outs[i]
			if o.pan != nil || o.st.dead {
				continue
			}
			cond, _ := ex.suffix(o.st, n0)
			ex.curSt = o.st
			t := ex.reify(o.st, o.res, rt)
			if body == nil {
				body = t
			} else {
				body = c.Ite(cond, t, body)
			}
		}
		ok := map[int]bool{}
		for _, f := range d.formals {
			ok[f.id] = true
		}
		collect([]*Term{body}, func(t *Term) {
			if t.op == "var" && !ok[t.id] {
				fail("definition of %s depends on %s", name, t)
			}
		})
		d.body = body
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, ex.reify(st, a, sig.Params().At(i).Type()))
	}
	t := c.App(name, ex.sortOf(rt), ts...)
	ex.curSt = st
	return ex.reflectV(st, t, rt)
}

// quantifier evaluates a closure on fresh variables.
func (ex *Exec) quantifier(fr *Frame, st *State, f *FuncV) *Term {
	c := ex.c
	var vars []*Term
	var args []Val
	ex.touchMaps(st, f)
	s2 := st.clone()
	mark := c.n
	for _, p := range f.fn.Params {
		v := c.Fresh("q."+p.Name(), ex.sortOf(p.Type()))
		vars = append(vars, v)
		args = append(args, ex.reflectV(s2, v, p.Type()))
	}
	n0 := len(s2.pc)
	ex.spec++
	ex.dry++
	s2.facts = map[int]bool{}
	outs := ex.runFunc(f.fn, args, f.binds, s2, fr, nil, nil)
	ex.spec--
	ex.dry--
	var conj []*Term
	for _, o := range outs {
		if o.st.dead || o.pan != nil {
			continue
		}
		br, _ := ex.suffix(o.st, n0)
		conj = append(conj, c.Imp(br, o.res.(*Term)))
	}
	body := c.And(conj...)
	isq := map[int]bool{}
	for _, v := range vars {
		isq[v.id] = true
	}
	collect([]*Term{body}, func(t *Term) {
		if t.op == "var" && t.id > mark && !isq[t.id] {
			// reached before through the heap: fine only if it does not depend on the bound variable
			if !ex.lazyVar(st, t) {
				fail("quantified formula introduces %s", t)
			}
		}
	})
	m := map[*Term]*Term{}
	var bs []*Term
	for i, v := range vars {
		b := c.Bound(f.fn.Params[i].Name(), v.sort)
		m[v] = b
		bs = append(bs, b)
	}
	body = c.Subst(body, m)
	return c.Forall(bs, body, autoPatterns(bs, body))
}

// touchMaps gives the maps a closure refers to their symbolic content
// before the closure is evaluated.
func (ex *Exec) touchMaps(st *State, f *FuncV) {
	for i, b := range f.binds {
		if pt, ok := f.fn.FreeVars[i].Type().Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Map); !ok {
				continue
			}
			if p, ok := b.(*PtrV); ok && p.obj != 0 {
				if v := ex.loadPtr(st, p); v != nil {
					ex.derefMap(st, v, pt.Elem())
				}
			}
		} else if _, ok := f.fn.FreeVars[i].Type().Underlying().(*types.Map); ok {
			ex.derefMap(st, b, f.fn.FreeVars[i].Type())
		}
	}
}

func (ex *Exec) lazyVar(st *State, t *Term) bool { return false }

func autoPatterns(bs []*Term, body *Term) [][]*Term {
	var cands []*Term
	collect([]*Term{body}, func(t *Term) {
		if !t.bnd || t.op == "forall" {
			return
		}
		if t.op == "at" || t.op == "select" || t.op == "app" || t.op == "len" {
			arith := false
			for _, a := range t.args {
				if a.bnd && (a.op == "lin" || a.op == "ite" || a.op == "eq" || a.op == "sub" || a.op == "cat") {
					arith = true
				}
			}
			if !arith {
				cands = append(cands, t)
			}
		}
	})
	has := func(t, b *Term) bool { return occurs(b, t) }
	var pats [][]*Term
	// single terms covering all variables
	for _, t := range cands {
		all := true
		for _, b := range bs {
			if !has(t, b) {
				all = false
			}
		}
		if all {
			// skip terms containing another candidate that also covers
			inner := false
			for _, u := range cands {
				if u != t && occurs(u, t) {
					allu := true
					for _, b := range bs {
						if !has(u, b) {
							allu = false
						}
					}
					if allu {
						inner = true
					}
				}
			}
			if !inner && len(pats) < 4 {
				pats = append(pats, []*Term{t})
			}
		}
	}
	if len(pats) > 0 || len(bs) == 1 {
		return pats
	}
	var multi []*Term
	for _, b := range bs {
		for _, t := range cands {
			if has(t, b) {
				multi = append(multi, t)
				break
			}
		}
	}
	if len(multi) == len(bs) {
		return [][]*Term{multi}
	}
	return nil
}

// model is what stands for a function or method that is not of the repository:
// that of the package of the harness, or else that of any other.
func (ex *Exec) model(name string) *Harness {
	hs := ex.w.byExt[name]
	for _, h := range hs {
		if h.fn.Package() == ex.h.fn.Package() {
			return h
		}
	}
	for _, h := range hs {
		if ex.w.imports(ex.h, h.fn.Package().Pkg) {
			return h
		}
	}
	return nil
}
