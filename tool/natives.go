package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natFn func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome

func one(st *State, v Val) []Outcome { return []Outcome{{st: st, res: v}} }

// ---- builtins

func (ex *Exec) builtin(fr *Frame, st *State, cc *ssa.CallCommon, b *ssa.Builtin, args []Val) []Outcome {
	c := ex.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *SliceV:
			return one(st, x.len)
		case *Term:
			return one(st, c.Len(x))
		case *ArrV:
			return one(st, c.Len(ex.arrSeq(st, x)))
		}
		t := cc.Args[0].Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			p := ex.derefMap(st, args[0], t)
			if p == nil {
				return one(st, c.Int(0))
			}
			ex.checkGuard(st, p, false)
			m := st.heap[p.obj].v.(*MapV)
			if m.conc {
				m = ex.concOrSym(st, p, m)
				if m.conc {
					return one(st, c.Int(int64(len(m.keys))))
				}
			}
			return one(st, m.size)
		}
	case "cap":
		if x, ok := args[0].(*SliceV); ok {
			return one(st, x.cap)
		}
	case "append":
		return one(st, ex.appendV(st, args[0].(*SliceV), args[1], cc.Args[0].Type(), cc.Args[1].Type()))
	case "copy":
		d := args[0].(*SliceV)
		t := cc.Args[0].Type()
		var src *Term
		if s, ok := args[1].(*SliceV); ok {
			src = ex.sliceSeq(st, s, cc.Args[1].Type())
		} else {
			src = args[1].(*Term)
		}
		n := c.Ite(c.Le(d.len, c.Len(src)), d.len, c.Len(src))
		if c.Le(d.len, c.Len(src)).isTrue() {
			n = d.len
		} else if ex.prove(st, c.Le(c.Len(src), d.len), 300) {
			n = c.Len(src)
		} else if ex.prove(st, c.Le(d.len, c.Len(src)), 300) {
			n = d.len
		}
		if d.base.obj != 0 {
			a := ex.loadPtr(st, &d.base).(*ArrV)
			o := st.heap[d.base.obj]
			if len(o.alias) > 0 {
				ex.aliasWrite(st, o, d.off, map[int]bool{o.id: true})
			}
			s := ex.arrSeq(st, a)
			_ = t
			ns := c.Cat(s.sort, c.SubSeq(s, c.Int(0), d.off), c.SubSeq(src, c.Int(0), n), c.SubSeq(s, c.Add(d.off, n), c.Len(s)))
			ex.storePtr(st, &d.base, &ArrV{elem: a.elem, seq: ns})
		}
		return one(st, n)
	case "delete":
		t := cc.Args[0].Type()
		p := ex.derefMap(st, args[0], t)
		if p == nil {
			return one(st, TupleV{})
		}
		ex.checkGuard(st, p, true)
		m := st.heap[p.obj].v.(*MapV)
		k := ex.reify(st, args[1], m.typ.Key())
		if m.conc {
			n := &MapV{typ: m.typ, conc: true}
			ok := true
			for i := range m.keys {
				e := c.Eq(ex.reify(st, m.keys[i], m.typ.Key()), k)
				if e.isTrue() {
					continue
				}
				if !e.isFalse() {
					ok = false
				}
				n.keys = append(n.keys, m.keys[i])
				n.vals = append(n.vals, m.vals[i])
			}
			if ok {
				st.set(p.obj, n)
				return one(st, TupleV{})
			}
			m = ex.symbolicMap(st, m)
		}
		was := c.Select(m.present, k)
		st.set(p.obj, &MapV{typ: m.typ, present: c.Store(m.present, k, c.False()), val: m.val, size: c.Ite(was, c.AddK(m.size, -1), m.size)})
		return one(st, TupleV{})
	case "recover":
		// in a function called by the unwinder
		if fr.panBox != nil && !fr.panBox.recovered && fr.panBox.val != nil {
			if _, done := st.ghosts[boxKey]; !done {
				st.ghosts[boxKey] = 1
				return one(st, fr.panBox.val)
			}
		}
		return one(st, &IfaceV{})
	case "print", "println":
		return one(st, TupleV{})
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			lt := ex.binop(st, token.LSS, y, r, cc.Args[0].Type(), cc.Args[0].Type()).(*Term)
			if b.Name() == "max" {
				lt = ex.binop(st, token.LSS, r, y, cc.Args[0].Type(), cc.Args[0].Type()).(*Term)
			}
			r = c.Ite(lt, y, r)
		}
		return one(st, r)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "clear":
		t := cc.Args[0].Type()
		if mt, ok := t.Underlying().(*types.Map); ok {
			p := ex.derefMap(st, args[0], t)
			if p != nil {
				st.set(p.obj, &MapV{typ: mt, conc: true})
			}
			return one(st, TupleV{})
		}
	}
	fail("builtin %s", b.Name())
	return nil
}

// concOrSym: the number of entries of a concrete map is known only if the
// keys are known to differ.
func (ex *Exec) concOrSym(st *State, p *PtrV, m *MapV) *MapV {
	c := ex.c
	for i := range m.keys {
		for j := 0; j < i; j++ {
			if !c.Eq(ex.reify(st, m.keys[i], m.typ.Key()), ex.reify(st, m.keys[j], m.typ.Key())).isFalse() {
				fail("size of a map with symbolic keys")
			}
		}
	}
	return m
}

func (ex *Exec) appendV(st *State, s *SliceV, x Val, ts, tx types.Type) *SliceV {
	c := ex.c
	el := ts.Underlying().(*types.Slice).Elem()
	var xs *Term
	var xvec []Val
	isVec := false
	switch y := x.(type) {
	case *SliceV:
		if y.len.op == "int" && y.len.i.Sign() == 0 {
			return s
		}
		if y.base.obj != 0 {
			if a, ok := ex.loadPtr(st, &y.base).(*ArrV); ok && a.vec != nil && y.off.op == "int" && y.len.op == "int" {
				xvec = a.vec[y.off.i.Int64() : y.off.i.Int64()+y.len.i.Int64()]
				isVec = true
			}
		}
		if !isVec {
			xs = ex.sliceSeq(st, y, tx)
		}
	case *Term:
		xs = y
		if xs.op == "empty" {
			return s
		}
	}
	ex.smashBeyond(st, s)
	na := &ArrV{elem: el}
	var n *Term
	var svec []Val
	sIsVec := false
	if s.base.obj == 0 {
		sIsVec = true
	} else if a, ok := ex.loadPtr(st, &s.base).(*ArrV); ok && s.off.op == "int" && s.len.op == "int" {
		if a.vec != nil {
			svec = a.vec[s.off.i.Int64() : s.off.i.Int64()+s.len.i.Int64()]
			sIsVec = true
		} else if s.len.i.Sign() == 0 {
			sIsVec = true
		}
	}
	if isVec && sIsVec {
		na.vec = append(append([]Val{}, svec...), xvec...)
		n = c.Int(int64(len(na.vec)))
	} else {
		if isVec {
			xs = ex.arrSeq(st, &ArrV{elem: el, vec: xvec})
		}
		var ss *Term
		so := c.Seq(ex.sortOf(el))
		if s.base.obj == 0 {
			ss = c.Empty(so)
		} else {
			ss = ex.sliceSeq(st, s, ts)
		}
		na.seq = c.Cat(so, ss, xs)
		n = c.Len(na.seq)
	}
	o := st.alloc(types.NewSlice(el), na, "append")
	cp := c.Fresh("cap", IntS)
	st.fact(c, c.Le(n, cp))
	r := &SliceV{base: PtrV{obj: o.id}, off: c.Int(0), len: n, cap: cp, isnil: c.And(s.isnil, c.Eq(n, c.Int(0)))}
	if s.base.obj != 0 {
		ex.linkAlias(st, r, s)
	}
	return r
}

// ---- the ghost vocabulary

func ifaceArgs(ex *Exec, st *State, v Val) []*IfaceV {
	s := v.(*SliceV)
	if s.base.obj == 0 {
		return nil
	}
	a := ex.loadPtr(st, &s.base).(*ArrV)
	var r []*IfaceV
	for _, x := range a.vec {
		switch y := x.(type) {
		case *IfaceV:
			r = append(r, y)
		case *RefV:
			r = append(r, &IfaceV{y.typ, y})
		default:
			fail("variadic argument %T", x)
		}
	}
	return r
}

func (ex *Exec) isMode(fr *Frame) (*HFrame, bool) {
	h := fr.hf()
	if h == nil {
		fail("contract vocabulary outside a contract")
	}
	return h, h.mode == "verify"
}

func (ex *Exec) strArg(v Val) string {
	t := v.(*Term)
	if t.op == "lit" {
		return t.s
	}
	if t.op == "empty" {
		return ""
	}
	fail("label is not a constant")
	return ""
}

func (ex *Exec) vsCall(fr *Frame, st *State, fn *ssa.Function, name string, args []Val) []Outcome {
	c := ex.c
	none := one(st, TupleV{})
	b := func(i int) *Term { return args[i].(*Term) }
	switch name {
	case "Requires":
		h, ver := ex.isMode(fr)
		if ver {
			st.assume(c, b(0))
		} else if ex.invSink != nil && ex.proofs > 0 && !b(0).isTrue() {
			fail("a lemma with a precondition in the invariant of a loop")
		} else if h.callSpec == 0 || ex.topVerify(fr) {
			s := ex.spec
			ex.spec = 0
			ex.oblige(st, "pre", "precondition of "+h.h.Name, b(0))
			ex.spec = s
		} else {
			st.assume(c, b(0))
		}
		return none
	case "Ensures":
		h, ver := ex.isMode(fr)
		if ver {
			l := ex.strArg(args[0])
			ex.oblige(st, "post", h.h.Name+": "+l, b(1))
		} else if ex.invSink != nil && ex.proofs > 0 {
			// what a lemma tells is true anywhere
			br, _ := ex.suffix(st, ex.proofBase)
			st.fact(c, c.Imp(br, b(1)))
		} else {
			st.assume(c, b(1))
		}
		return none
	case "Assert":
		_, ver := ex.isMode(fr)
		if ver {
			ex.oblige(st, "assert", ex.h.Name+": "+ex.strArg(args[0]), b(1))
		}
		return none
	case "Assume":
		if h := fr.hf(); h == nil || h.mode == "verify" {
			ex.assume[ex.strArg(args[0])] = true
		}
		st.assume(c, b(1))
		return none
	case "Loop":
		if hfr := harnessFrame(fr); hfr != nil && hfr.h.mode == "verify" {
			h2 := *hfr.h
			h2.loops = append(h2.loops[:len(h2.loops):len(h2.loops)], args[0].(*IfaceV).v.(*FuncV))
			hfr.h = &h2
		}
		return none
	case "Join":
		if hfr := harnessFrame(fr); hfr != nil && hfr.h.mode == "verify" {
			h2 := *hfr.h
			h2.joins = append(h2.joins[:len(h2.joins):len(h2.joins)], args[0].(*IfaceV).v.(*FuncV))
			hfr.h = &h2
		}
		return none
	case "Inv":
		if ex.invSink == nil {
			fail("vs.Inv outside vs.Loop")
		}
		br, _ := ex.suffix(st, ex.invBase)
		*ex.invSink = append(*ex.invSink, InvRec{ex.curPos, c.Imp(br, b(0))})
		return none
	case "Split":
		if ex.proofs > 0 {
			for _, a := range ifaceArgs(ex, st, args[0]) {
				if t, ok := a.v.(*Term); ok {
					st.splits = append(st.splits[:len(st.splits):len(st.splits)], t)
				}
			}
		}
		return none
	case "Proof":
		_, ver := ex.isMode(fr)
		if ver && ex.noProof == 0 {
			f := args[0].(*FuncV)
			var res []Outcome
			ex.proofs++
			defer func() { ex.proofs-- }()
			old := ex.proofBase
			ex.proofBase = len(st.pc)
			defer func() { ex.proofBase = old }()
			for _, o := range ex.runFunc(f.fn, nil, f.binds, st, fr, nil, nil) {
				o.res = TupleV{}
				res = append(res, o)
			}
			return ex.mergeOuts(st, res, types.NewTuple())
		}
		return none
	case "Modifies", "Havoc":
		// possibly in a helper of the harness
		hfr := fr
		for hfr.h == nil {
			hfr = hfr.caller
		}
		h2 := *hfr.h
		h2.mods = h2.mods[:len(h2.mods):len(h2.mods)]
		for _, a := range ifaceArgs(ex, st, args[0]) {
			ms := ex.modOf(st, a)
			if name == "Havoc" {
				for _, m := range ms {
					ex.havocMod(st, m)
				}
				continue
			}
			h2.mods = append(h2.mods, ms...)
		}
		if name == "Modifies" {
			hfr.h = &h2
		}
		return none
	case "MayPanic":
		fr = harnessFrame(fr)
		h2 := *fr.h
		if h2.mayPanic == nil {
			h2.mayPanic = b(0)
		} else {
			h2.mayPanic = c.Or(h2.mayPanic, b(0))
		}
		fr.h = &h2
		return none
	case "OnPanic":
		fr = harnessFrame(fr)
		h2 := *fr.h
		h2.onPanic = append(h2.onPanic[:len(h2.onPanic):len(h2.onPanic)], args[0].(*FuncV))
		fr.h = &h2
		return none
	case "Decreases":
		h2 := *fr.h
		if h2.mode == "verify" {
			h2.measure = b(0)
			ex.measure = b(0)
			fr.h = &h2
		} else if ex.h == h2.h && ex.measure != nil {
			ex.oblige(st, "termination", "measure of "+h2.h.Name+" decreases", c.And(c.Le(c.Int(0), b(0)), c.Lt(b(0), ex.measure)))
		}
		return none
	case "Copy":
		return one(st, ex.copyVal(st, args[0], fn.Signature.Params().At(0).Type()))
	case "Eq":
		t := fn.Signature.Params().At(0).Type()
		return one(st, c.Eq(ex.reify(st, args[0], t), ex.reify(st, args[1], t)))
	case "SameRef":
		x, y := args[0].(*IfaceV), args[1].(*IfaceV)
		// slices: on the same array
		if a, ok := x.v.(*SliceV); ok {
			if b, ok := y.v.(*SliceV); ok {
				return one(st, c.Bool(a.base.obj != 0 && a.base.obj == b.base.obj))
			}
		}
		return one(st, c.Eq(ex.reify(st, x.v, x.typ), ex.reify(st, y.v, y.typ)))
	case "Cat":
		rt := fn.Signature.Results().At(0).Type()
		el := rt.Underlying().(*types.Slice).Elem()
		so := c.Seq(ex.sortOf(el))
		s := args[0].(*SliceV)
		a := ex.loadPtr(st, &s.base).(*ArrV)
		r := c.Empty(so)
		for _, x := range a.vec {
			r = c.Cat(so, r, ex.sliceSeq(st, x.(*SliceV), rt))
		}
		return one(st, ex.newSlice(st, el, r))
	case "Imp":
		return one(st, c.Imp(b(0), b(1)))
	case "Iff":
		return one(st, c.Eq(b(0), b(1)))
	case "And", "Or":
		s := args[0].(*SliceV)
		var ts []*Term
		if s.base.obj != 0 {
			for _, x := range ex.loadPtr(st, &s.base).(*ArrV).vec {
				ts = append(ts, x.(*Term))
			}
		}
		if name == "And" {
			return one(st, c.And(ts...))
		}
		return one(st, c.Or(ts...))
	case "Ite":
		t := fn.Signature.Params().At(1).Type()
		ex.curSt = st
		return one(st, ex.merge(st, b(0), args[1], args[2], t))
	case "Forall", "Forall2":
		return one(st, ex.quantifier(fr, st, args[0].(*FuncV)))
	case "Exists":
		f := args[0].(*FuncV)
		q := ex.quantifierNeg(fr, st, f)
		return one(st, c.Not(q))
	case "Witness":
		// a number for which the statement is true, if there is one
		f := args[0].(*FuncV)
		q := ex.quantifierNeg(fr, st, f)
		w := c.Fresh("witness", IntS)
		if q.op == "forall" {
			at := c.Subst(q.args[0], map[*Term]*Term{q.qv[0]: w})
			st.fact(c, c.Or(q, c.Not(at)))
		}
		return one(st, w)
	case "G":
		return one(st, ex.ghost(fr, st, args[0], ex.strArg(args[1]), fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()))
	case "GM":
		mt := fn.Signature.Results().At(0).Type()
		p := ex.ghost(fr, st, args[0], ex.strArg(args[1]), mt).(*PtrV)
		return one(st, p)
	case "CopyInto":
		t := fn.Signature.Params().At(0).Type()
		d, s := ex.derefMap(st, args[0], t), ex.derefMap(st, args[1], t)
		st.set(d.obj, st.heap[s.obj].v)
		return none
	case "SameMap":
		t := fn.Signature.Params().At(0).Type()
		x, y := ex.mapTerms(st, args[0], t), ex.mapTerms(st, args[1], t)
		return one(st, c.And(c.Eq(x[0], y[0]), c.Eq(x[1], y[1])))
	case "EnsuresAll", "RequiresAll":
		// for all arguments, proved for arbitrary ones
		h, ver := ex.isMode(fr)
		f := args[1].(*IfaceV).v.(*FuncV)
		if ver == (name == "EnsuresAll") {
			l := ex.strArg(args[0])
			s2 := st.clone()
			var as []Val
			for _, p := range f.fn.Params {
				as = append(as, ex.symbolic(s2, p.Type(), "all."+p.Name()))
			}
			sp := ex.spec
			for _, o := range ex.runFunc(f.fn, as, f.binds, s2, fr, nil, nil) {
				if o.st.dead || o.pan != nil {
					continue
				}
				if !ver {
					ex.spec = h.callSpec
				}
				ex.oblige(o.st, map[bool]string{true: "post", false: "pre"}[ver], h.h.Name+": "+l, o.res.(*Term))
				ex.spec = sp
			}
			if !ver {
				return none
			}
		}
		ex.noProof++
		q := ex.quantifier(fr, st, f)
		ex.noProof--
		st.assume(c, q)
		return none
	case "Alias":
		// the pointer may or may not be the other one
		h, ver := ex.isMode(fr)
		if !ver || h.called {
			return none
		}
		p := ex.deref(st, args[0], "Alias")
		if p == nil {
			return none
		}
		t := fn.Signature.Params().At(1).Type()
		s2 := st.clone()
		s2.assume(c, c.Not(c.Eq(ex.reify(s2, ex.loadPtr(s2, p), t), ex.reify(s2, args[1], t))))
		ex.storePtr(st, p, args[1])
		outs := []Outcome{{st: st, res: TupleV{}}}
		if !s2.dead {
			outs = append(outs, Outcome{st: s2, res: TupleV{}})
		}
		return outs
	case "FreshAt":
		// the pointer there is to something newly allocated
		h, ver := ex.isMode(fr)
		p := ex.deref(st, args[0], "FreshAt")
		if p == nil {
			return none
		}
		if !ver {
			t := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer).Elem()
			o := st.alloc(t, nil, "new")
			o.v = ex.symbolic(st, t, "new")
			o.init, o.sym = o.v, true
			ex.storePtr(st, p, &PtrV{obj: o.id})
			return none
		}
		ok := false
		if v, is := ex.loadPtr(st, p).(*PtrV); is && v.obj != 0 && len(v.path) == 0 {
			o := st.heap[v.obj]
			ok = o != nil && o.fresh
		}
		ex.oblige(st, "post", h.h.Name+": the pointer is to something new", c.Bool(ok))
		return none
	case "Locked":
		h, ver := ex.isMode(fr)
		iv := args[0].(*IfaceV)
		k, _ := ex.lockKey(st, iv.v)
		l := st.locks.clone()
		want := 0
		if b(1).isTrue() {
			want = 2
		} else if !b(1).isFalse() {
			fail("vs.Locked of an undecided condition")
		}
		if ver == h.called {
			sp := ex.spec
			ex.spec = 0
			ex.oblige(st, "lock", h.h.Name+": the mutex is held exactly when it should be", c.Bool(l.mode[k] == want))
			ex.spec = sp
		}
		l.mode[k] = want
		st.locks = l
		return none
	case "Acquired":
		// the content of the location when its mutex was acquired last
		p := ex.deref(st, args[0], "Acquired")
		if v, ok := st.locks.objs[p.obj]; ok {
			for _, s := range p.path {
				v = ex.loadStep(st, v, s)
			}
			return one(st, v)
		}
		return one(st, ex.loadPtr(st, p))
	case "UF":
		rt := fn.Signature.Results().At(0).Type()
		var ts []*Term
		for _, a := range ifaceArgs(ex, st, args[1]) {
			if a.typ == nil {
				ts = append(ts, ex.nilRef())
				continue
			}
			if _, ok := a.typ.Underlying().(*types.Map); ok {
				ts = append(ts, ex.mapTerms(st, a.v, a.typ)...)
				continue
			}
			if k := valueCtor(a.typ); k != "" {
				ts = append(ts, c.VCtor(k, ex.reify(st, a.v, a.typ)))
				continue
			}
			t := ex.reify(st, a.v, a.typ)
			if t.op == "app" && t.s == "val2any" {
				t = t.args[0]
			}
			ts = append(ts, t)
		}
		nm := "uf." + ex.strArg(args[0])
		ex.curSt = st
		return one(st, ex.reflectV(st, c.App(nm, ex.sortOf(rt), ts...), rt))
	case "Any":
		return one(st, ex.symbolic(st, fn.Signature.Results().At(0).Type(), "any"))
	case "New":
		// something that was not there before
		t := fn.Signature.Results().At(0).Type()
		o := st.alloc(t, nil, "new")
		r := c.mk(&Term{op: "newref", sort: RefS, s: fmt.Sprintf("ref!%d", o.id)})
		c.birth[r.id] = o.born
		ex.newRef[r.id] = o.id
		return one(st, &RefV{r, t})
	case "Open":
		// the node there, if it is known to be one and looked into already
		t := fn.Signature.Results().At(0).Type()
		no := []Outcome{{st: st, res: TupleV{ex.zero(t), c.False()}}}
		switch y := args[0].(type) {
		case *IfaceV:
			if y.typ != nil && types.Identical(y.typ, t) {
				return []Outcome{{st: st, res: TupleV{y.v, c.True()}}}
			}
			if z, ok := y.v.(*RefV); ok && y.typ != nil && types.IsInterface(y.typ) {
				return ex.vsCall(fr, st, fn, name, []Val{z})
			}
		case *RefV:
			if y.t.op == "ite" {
				// the one or the other
				cond := y.t.args[0]
				var outs []Outcome
				for i, is := range []*Term{cond, c.Not(cond)} {
					if st.pcset[c.Not(is).id] {
						continue
					}
					s := st
					if !st.pcset[is.id] {
						s = st.clone()
						s.assume(c, is)
					}
					ex.curSt = s
					outs = append(outs, ex.vsCall(fr, s, fn, name, []Val{ex.refVal(y.t.args[1+i], y.typ)})...)
				}
				return outs
			}
			x := c.App("payload."+ex.tname(t), RefS, y.t)
			if _, ok := st.refObj[x.id]; ok {
				return []Outcome{{st: st, res: TupleV{&RefV{x, t}, c.True()}}}
			}
		}
		return no
	case "Is":
		t := fn.TypeArgs()[0]
		switch y := args[0].(type) {
		case *IfaceV:
			if y.typ != nil && types.IsInterface(y.typ) {
				return ex.vsCall(fr, st, fn, name, []Val{y.v})
			}
			return one(st, c.Bool(y.typ != nil && types.Identical(y.typ, t)))
		case *RefV:
			return one(st, c.And(c.Not(c.Eq(y.t, ex.nilRef())), c.Eq(c.App("dyn", IntS, y.t), c.Int(c.typeCode(ex.tname(t))))))
		}
		fail("Is of %T", args[0])
	case "Known":
		return one(st, c.Bool(b(0).isTrue()))
	case "Points":
		// the pointer there is this one
		p := ex.deref(st, args[0], "Points")
		if p == nil {
			return none
		}
		h, ver := ex.isMode(fr)
		if ex.invSink == nil && ver != h.called || !ver && !h.called && h.callSpec > 0 && !ex.topVerify(fr) {
			ex.storePtr(st, p, args[1])
			return none
		}
		x, ok1 := ex.loadPtr(st, p).(*PtrV)
		y, ok2 := args[1].(*PtrV)
		g := c.False()
		if ok1 && ok2 {
			g = ex.ptrEq(x, y)
		}
		sp := ex.spec
		ex.spec = 0
		ex.oblige(st, map[bool]string{true: "post", false: "pre"}[ver], h.h.Name+": points", g)
		ex.spec = sp
		return none
	case "Same":
		// pointer assignment as a fact: *pp is the very value q
		p := ex.deref(st, args[0], "Same")
		if p == nil {
			return none
		}
		cur := ex.loadPtr(st, p)
		if ex.invSink == nil && !ex.verifying(fr) {
			ex.storePtr(st, p, args[1])
			return none
		}
		t := fn.Signature.Params().At(1).Type()
		ex.oblige(st, "post", "Same", c.Eq(ex.reify(st, cur, t), ex.reify(st, args[1], t)))
		return none
	case "Fresh":
		return one(st, ex.freshVal(st, args[0]))
	case "Unreachable":
		ex.oblige(st, "assert", "unreachable", c.False())
		return none
	case "IsNaN":
		return one(st, c.FNaN(b(0)))
	case "Bits", "Bits32":
		return one(st, b(0))
	}
	fail("vs.%s", name)
	return nil
}

// freshVal: the value shares nothing with what was there before the call, nor
// with what was given away.  Of an object of unknown origin only contracts tell.
func (ex *Exec) freshVal(st *State, v Val) *Term {
	if i, ok := v.(*IfaceV); ok {
		v = i.v
	}
	obj := 0
	switch x := v.(type) {
	case *SliceV:
		obj = x.base.obj
	case *PtrV:
		obj = x.obj
	case *RefV:
		return ex.c.App("own.ref", BoolS, x.t)
	default:
		fail("Fresh of %T", v)
	}
	o := st.heap[obj]
	if o == nil || o.fresh && !o.exposed {
		return ex.c.True()
	}
	return ex.c.App(fmt.Sprintf("own!%d", obj), BoolS)
}

// harnessFrame: that of the harness a helper belongs to
func harnessFrame(fr *Frame) *Frame {
	for fr != nil && fr.h == nil {
		fr = fr.caller
	}
	return fr
}

func (ex *Exec) verifying(fr *Frame) bool {
	h := fr.hf()
	return h != nil && h.mode == "verify"
}

// topVerify: a call made by the harness being verified in its own text
// (lemma applications in proofs must establish the lemma's precondition)
func (ex *Exec) topVerify(fr *Frame) bool {
	h := fr.hf()
	for f := fr; f != nil; f = f.caller {
		if f.h == h && f.caller != nil {
			p := f.caller.hf()
			return p != nil && p.mode == "verify"
		}
	}
	return false
}

func (ex *Exec) quantifierNeg(fr *Frame, st *State, f *FuncV) *Term {
	q := ex.quantifier(fr, st, f)
	if q.op != "forall" {
		return ex.c.Not(q)
	}
	nb := ex.c.Not(q.args[0])
	return ex.c.Forall(q.qv, nb, autoPatterns(q.qv, nb))
}

func (ex *Exec) modOf(st *State, a *IfaceV) []modItem {
	switch x := a.v.(type) {
	case *PtrV:
		if x.obj == 0 {
			return nil
		}
		if _, ok := a.typ.Underlying().(*types.Map); ok {
			return []modItem{{obj: x.obj, all: true}}
		}
		return []modItem{{obj: x.obj, path: x.path, typ: elemType(a.typ)}}
	case *RefV:
		if _, ok := a.typ.Underlying().(*types.Map); ok {
			p := ex.derefMap(st, x, a.typ)
			return []modItem{{obj: p.obj, all: true}}
		}
		if _, ok := a.typ.Underlying().(*types.Pointer); ok {
			if ex.c.Eq(x.t, ex.nilRef()).isTrue() {
				return nil
			}
			p := ex.deref(st, x, "Modifies")
			if p == nil {
				return nil
			}
			return []modItem{{obj: p.obj, path: p.path, typ: elemType(a.typ)}}
		}
	case *SliceV:
		if x.base.obj == 0 {
			return nil
		}
		return []modItem{{obj: x.base.obj, all: true}}
	}
	fail("Modifies of %T (%s)", a.v, a.typ)
	return nil
}

func elemType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (ex *Exec) copyVal(st *State, v Val, t types.Type) Val {
	switch x := v.(type) {
	case *SliceV:
		if x.base.obj == 0 {
			return x
		}
		a, ok := ex.loadPtr(st, &x.base).(*ArrV)
		if !ok {
			return x
		}
		o := st.alloc(types.NewSlice(a.elem), a, "copy")
		if len(x.base.path) > 0 {
			o.typ = types.NewSlice(a.elem)
		}
		n := *x
		n.base = PtrV{obj: o.id}
		return &n
	case *PtrV:
		if x.obj == 0 {
			return x
		}
		cv := ex.loadPtr(st, x)
		o := st.alloc(elemType(t), cv, "copy")
		return &PtrV{obj: o.id}
	case *RefV:
		switch t.Underlying().(type) {
		case *types.Pointer:
			if ex.c.Eq(x.t, ex.nilRef()).isTrue() {
				return x
			}
			s := ex.spec
			ex.spec = 1
			p := ex.deref(st, x, "Copy")
			ex.spec = s
			return ex.copyVal(st, p, t)
		case *types.Map:
			p := ex.derefMap(st, x, t)
			o := st.alloc(t, st.heap[p.obj].v, "copy")
			return &PtrV{obj: o.id}
		}
		return x
	}
	return v
}

func (ex *Exec) ghost(fr *Frame, st *State, ov Val, name string, t types.Type) Val {
	var key string
	var rt *Term
	switch x := ov.(type) {
	case *IfaceV:
		if x.typ == nil {
			key = name
			break
		}
		rt = ex.reify(st, x.v, x.typ)
		if iv, ok := x.v.(*RefV); ok {
			if ex.c.Eq(iv.t, ex.nilRef()).isTrue() {
				key = name
				rt = nil
			}
		}
	case *RefV:
		rt = x.t
	case *TypeV:
		rt = ex.reify(st, x, nil)
	default:
		fail("ghost of %T", ov)
	}
	if rt != nil {
		// a reference object materialised from a term
		if rt.op == "app" && strings.HasPrefix(rt.s, "mk.") && len(rt.args) == 1 && rt.args[0].sort == RefS {
			rt = rt.args[0]
		}
		key = fmt.Sprintf("%s@%d", name, rt.id)
		ex.ghostRef[key] = rt
	}
	if id, ok := st.ghosts[key]; ok {
		return &PtrV{obj: id}
	}
	var v Val
	o := st.alloc(t, nil, "ghost."+name)
	fresh, sym := false, false
	mt, isMap := t.Underlying().(*types.Map)
	if rt != nil && rt.op == "newref" {
		oid, ok := ex.refOfObj[rt.id]
		if !ok {
			oid, ok = ex.newRef[rt.id]
		}
		if ok {
			if p := st.heap[oid]; p != nil && p.fresh {
				fresh, sym = !p.sym, p.sym
			}
		}
	}
	if fresh && isMap {
		v = ex.symbolicMap(st, &MapV{typ: mt, conc: true})
	} else if fresh {
		v = ex.zero(t)
	} else if isMap {
		v = ex.symMap(st, mt, "ghost."+name)
		o.fresh = sym
		o.lazy = !sym
	} else {
		v = ex.symbolic(st, t, "ghost."+name)
		o.fresh = sym
		o.lazy = !sym
	}
	o.v, o.init = v, v
	st.ghosts[key] = o.id
	return &PtrV{obj: o.id}
}

// mapTerms is the content of a map as terms.
func (ex *Exec) mapTerms(st *State, v Val, t types.Type) []*Term {
	p := ex.derefMap(st, v, t)
	mt := t.Underlying().(*types.Map)
	m := &MapV{typ: mt, conc: true}
	if p != nil {
		m = st.heap[p.obj].v.(*MapV)
	}
	if m.conc {
		m = ex.symbolicMap(st, m)
		if p != nil {
			st.set(p.obj, m)
		}
	}
	return []*Term{m.present, m.val}
}

// ---- the standard library

func (ex *Exec) newErr(st *State, what string) Val {
	ex.nErr++
	return &RefV{ex.c.App("err!"+what, RefS, ex.c.Fresh("e", IntS)), ex.errType()}
}

func (ex *Exec) errType() types.Type { return types.Universe.Lookup("error").Type() }

func (ex *Exec) nonNilErr(st *State, what string) Val {
	r := ex.newErr(st, what).(*RefV)
	st.fact(ex.c, ex.c.Not(ex.c.Eq(r.t, ex.nilRef())))
	return r
}

var natIface = map[string]natFn{}
var natives = map[string]natFn{}

func pureUF(name string, res func(ex *Exec) *Sort, kinds ...types.Type) natFn {
	return func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		var ts []*Term
		for i, a := range args {
			var t types.Type
			if i < len(kinds) {
				t = kinds[i]
			}
			ts = append(ts, ex.reify(st, a, t))
		}
		return one(st, ex.c.App("nat."+name, res(ex), ts...))
	}
}

func init() {
	bytesT := types.NewSlice(types.Typ[types.Byte])
	strS := func(ex *Exec) *Sort { return ex.c.Bytes() }
	natives["errors.New"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, ex.nonNilErr(st, "errors.New"))
	}
	natives["fmt.Errorf"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, ex.nonNilErr(st, "fmt.Errorf"))
	}
	anyString := func(name string) natFn {
		return func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			return one(st, ex.c.Fresh(name, ex.c.Bytes()))
		}
	}
	natives["fmt.Sprintf"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		// a function of the format and the arguments
		ts := []*Term{args[0].(*Term)}
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(toolErr); !is {
						panic(r)
					}
					ok = false
				}
			}()
			for _, a := range ifaceArgs(ex, st, args[1]) {
				if a.typ == nil {
					ts = append(ts, ex.nilRef())
					continue
				}
				t := ex.reify(st, a.v, a.typ)
				if t.sort == RefS {
					ok = false // its String method may look at memory
				}
				ts = append(ts, t)
			}
		}()
		if !ok {
			return one(st, ex.c.Fresh("sprintf", ex.c.Bytes()))
		}
		nm := "nat.sprintf"
		for _, t := range ts[1:] {
			nm += "." + sanit(t.sort.name)
		}
		return one(st, ex.c.App(nm, ex.c.Bytes(), ts...))
	}
	natives["fmt.Sprint"] = anyString("sprint")
	natives["fmt.Sprintln"] = anyString("sprint")
	noop := func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome { return one(st, TupleV{}) }
	natives["log.Printf"] = noop
	natives["log.Println"] = noop
	nErr := func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, TupleV{ex.c.Fresh("n", IntS), ex.symbolic(st, ex.errType(), "err")})
	}
	natives["fmt.Fprintf"] = nErr
	natives["fmt.Fprintln"] = nErr
	natives["fmt.Printf"] = nErr
	natives["fmt.Println"] = nErr
	natives["fmt.Print"] = nErr

	natives["math.Float64bits"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome { return one(st, args[0]) }
	natives["math.Float64frombits"] = natives["math.Float64bits"]
	natives["math.Float32bits"] = natives["math.Float64bits"]
	natives["math.Float32frombits"] = natives["math.Float64bits"]
	natives["math.IsNaN"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, ex.c.FNaN(args[0].(*Term)))
	}
	natives["math.IsInf"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		c := ex.c
		x, s := args[0].(*Term), args[1].(*Term)
		pos := c.Eq(x, c.BVu(0x7ff0000000000000, 64))
		neg := c.Eq(x, c.BVu(0xfff0000000000000, 64))
		return one(st, c.Or(c.And(c.Le(c.Int(0), s), pos), c.And(c.Le(s, c.Int(0)), neg)))
	}
	natives["math.NaN"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, ex.c.BVu(0x7ff8000000000001, 64))
	}
	natives["math.Inf"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		c := ex.c
		return one(st, c.Ite(c.Le(c.Int(0), args[0].(*Term)), c.BVu(0x7ff0000000000000, 64), c.BVu(0xfff0000000000000, 64)))
	}
	natives["math.Abs"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, ex.c.bvop("bvand", args[0].(*Term), ex.c.BVu(0x7fffffffffffffff, 64)))
	}
	for n, f := range map[string]func(string) string{"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper} {
		n, f := n, f
		uf := pureUF(n, strS)
		natives[n] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			outs := uf(ex, fr, st, args)
			if t, ok := args[0].(*Term); ok && t.op == "lit" {
				st.fact(ex.c, ex.c.Eq(outs[0].res.(*Term), ex.c.Lit(f(t.s))))
			}
			return outs
		}
	}
	natives["strings.TrimSpace"] = pureUF("strings.TrimSpace", strS)
	natives["strings.Trim"] = pureUF("strings.Trim", strS)
	natives["strings.Repeat"] = pureUF("strings.Repeat", strS)
	natives["strings.HasPrefix"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		c := ex.c
		a, p := args[0].(*Term), args[1].(*Term)
		return one(st, c.And(c.Le(c.Len(p), c.Len(a)), c.Eq(c.SubSeq(a, c.Int(0), c.Len(p)), p)))
	}
	natives["bytes.Compare"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, ex.specApp(st, "vs.Lex", ex.reify(st, args[0], bytesT), ex.reify(st, args[1], bytesT)))
	}
	natives["strings.Compare"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, ex.specApp(st, "vs.Lex", args[0].(*Term), args[1].(*Term)))
	}
	natives["bytes.Equal"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, ex.c.Eq(ex.reify(st, args[0], bytesT), ex.reify(st, args[1], bytesT)))
	}
	seqOf := func(ex *Exec, st *State, v Val) *Term {
		s := v.(*SliceV)
		if s.base.obj == 0 {
			return nil
		}
		a := ex.loadPtr(st, &s.base).(*ArrV)
		return ex.sliceSeq(st, s, types.NewSlice(a.elem))
	}
	natives["slices.Equal"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		c := ex.c
		x, y := seqOf(ex, st, args[0]), seqOf(ex, st, args[1])
		switch {
		case x == nil && y == nil:
			return one(st, c.True())
		case x == nil:
			return one(st, c.Eq(c.Len(y), c.Int(0)))
		case y == nil:
			return one(st, c.Eq(c.Len(x), c.Int(0)))
		}
		if x.sort.k == SSeq && x.sort.elem == ValS {
			fail("slices.Equal of interface values")
		}
		return one(st, c.Eq(x, y))
	}
	clone := func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		s := args[0].(*SliceV)
		x := seqOf(ex, st, s)
		if x == nil {
			return one(st, s)
		}
		a := ex.loadPtr(st, &s.base).(*ArrV)
		r := ex.newSlice(st, a.elem, x)
		r.isnil = s.isnil
		return one(st, r)
	}
	natives["slices.Clone"] = clone
	natives["bytes.Clone"] = clone
	natives["context.Background"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		r := ex.c.App("ctx!background", RefS)
		st.fact(ex.c, ex.c.Not(ex.c.Eq(r, ex.nilRef())))
		return one(st, &RefV{r, ex.anyType()})
	}
	natives["context.TODO"] = natives["context.Background"]
	natives["unicode/utf8.RuneLen"] = pureUF("utf8.RuneLen", func(ex *Exec) *Sort { return IntS })
	natives["unicode/utf8.Valid"] = pureUF("utf8.Valid", func(ex *Exec) *Sort { return BoolS }, bytesT)
	natives["unicode/utf8.ValidString"] = pureUF("utf8.Valid", func(ex *Exec) *Sort { return BoolS })
	natives["strconv.FormatInt"] = pureUF("strconv.FormatInt", strS)
	natives["strconv.Itoa"] = pureUF("strconv.Itoa", strS)
	natives["strconv.FormatBool"] = pureUF("strconv.FormatBool", strS)
	natives["strconv.FormatFloat"] = pureUF("strconv.FormatFloat", strS)
	natives["strconv.Quote"] = pureUF("strconv.Quote", strS)
	uni := func(n string) {
		natives["unicode."+n] = pureUF("unicode."+n, func(ex *Exec) *Sort { return BoolS })
	}
	for _, n := range []string{"IsLetter", "IsDigit", "IsSpace", "IsUpper", "IsLower", "IsNumber", "IsPrint"} {
		uni(n)
	}
	natives["unicode.ToLower"] = pureUF("unicode.ToLower", func(ex *Exec) *Sort { return ex.c.BV(32) })
	natives["unicode.ToUpper"] = pureUF("unicode.ToUpper", func(ex *Exec) *Sort { return ex.c.BV(32) })
	parse := func(name string, t types.Type) {
		natives["strconv."+name] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			c := ex.c
			var ts []*Term
			for _, a := range args {
				ts = append(ts, a.(*Term))
			}
			ok := c.App("nat."+name+".ok", BoolS, ts...)
			v := c.App("nat."+name, ex.sortOf(t), ts...)
			e := c.App("err!"+name, RefS, ts...)
			return one(st, TupleV{v, &RefV{c.Ite(ok, ex.nilRef(), e), ex.errType()}})
		}
	}
	parse("ParseInt", types.Typ[types.Int64])
	parse("ParseUint", types.Typ[types.Uint64])
	parse("ParseFloat", types.Typ[types.Float64])
	parse("ParseBool", types.Typ[types.Bool])
	parse("Atoi", types.Typ[types.Int])
	parse("Unquote", types.Typ[types.String])
	// errors
	natIface["error.Error"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, ex.c.App("nat.error.Error", ex.c.Bytes(), args[0].(*RefV).t))
	}
	natives["encoding/binary.PutUvarint"] = nil
	delete(natives, "encoding/binary.PutUvarint")
	put := func(n int, big bool) natFn {
		return func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			c := ex.c
			s, v := args[1].(*SliceV), args[2].(*Term)
			ex.safe(st, "index out of range", c.Le(c.Int(int64(n)), s.len))
			if st.dead || s.base.obj == 0 {
				st.dead = true
				return one(st, TupleV{})
			}
			for i := 0; i < n; i++ {
				sh := 8 * i
				if big {
					sh = 8 * (n - 1 - i)
				}
				b := c.Resize(c.bvop("bvlshr", v, c.BVu(uint64(sh), v.sort.bits)), 8, false)
				ex.storePtr(st, &PtrV{obj: s.base.obj, path: append(append([]Step{}, s.base.path...), Step{field: -1, idx: c.AddK(s.off, int64(i))})}, b)
			}
			return one(st, TupleV{})
		}
	}
	get := func(n int, big bool) natFn {
		return func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			c := ex.c
			s := args[1].(*SliceV)
			ex.safe(st, "index out of range", c.Le(c.Int(int64(n)), s.len))
			if st.dead || s.base.obj == 0 {
				st.dead = true
				return one(st, c.BVu(0, 8*n))
			}
			r := c.BVu(0, 8*n)
			for i := 0; i < n; i++ {
				sh := 8 * i
				if big {
					sh = 8 * (n - 1 - i)
				}
				b := ex.loadPtr(st, &PtrV{obj: s.base.obj, path: append(append([]Step{}, s.base.path...), Step{field: -1, idx: c.AddK(s.off, int64(i))})}).(*Term)
				r = c.bvop("bvor", r, c.bvop("bvshl", c.Resize(b, 8*n, false), c.BVu(uint64(sh), 8*n)))
			}
			return one(st, r)
		}
	}
	for _, n := range []int{2, 4, 8} {
		natives[fmt.Sprintf("(encoding/binary.bigEndian).PutUint%d", 8*n)] = put(n, true)
		natives[fmt.Sprintf("(encoding/binary.littleEndian).PutUint%d", 8*n)] = put(n, false)
		natives[fmt.Sprintf("(encoding/binary.bigEndian).Uint%d", 8*n)] = get(n, true)
		natives[fmt.Sprintf("(encoding/binary.littleEndian).Uint%d", 8*n)] = get(n, false)
	}
}

func (ex *Exec) reflectTypeMethod(fr *Frame, st *State, r *TypeV, name string, args []Val) []Outcome {
	if f := natReflType[name]; f != nil {
		return f(ex, fr, st, append([]Val{r}, args...))
	}
	fail("reflect.Type.%s", name)
	return nil
}

var natReflType = map[string]natFn{}

var _ = sort.Ints
