package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Joining paths with an invariant: where two paths meet, what vs.Join closures
// say is proven on both and all that is kept of the objects they speak about.

// joinClosures are those of the harness being verified.
func joinClosures(fr *Frame) []*FuncV {
	for f := fr; f != nil; f = f.caller {
		if f.h != nil && f.h.mode != "model" {
			return f.h.joins
		}
	}
	return nil
}

func (ex *Exec) joinCfg(a, b cfg) (cfg, bool) {
	js := joinClosures(a.fr)
	if len(js) == 0 || ex.spec > 0 || ex.booting || a.fr.h != b.fr.h || len(a.fr.defers) != len(b.fr.defers) {
		return a, false
	}
	key := fmt.Sprintf("%p", a.blk)
	if ex.noJoin[key] > 2 {
		return a, false
	}
	r, ok := ex.tryJoin(a, b, js)
	if !ok {
		if ex.noJoin == nil {
			ex.noJoin = map[string]int{}
		}
		ex.noJoin[key]++
	}
	return r, ok
}

func (ex *Exec) tryJoin(a, b cfg, js []*FuncV) (cfg, bool) {
	c := ex.c
	no := func(why string) (cfg, bool) {
		if debugLoops {
			fmt.Printf("   no join at %s: %s\n", ex.posOfBlock(a.blk), why)
		}
		return a, false
	}
	if a.st.wild != b.st.wild || !sameLocks(a.st.locks, b.st.locks) {
		return no("locks")
	}
	// what the closures say, on both sides
	var bound [][]binder
	big := map[int]bool{}
	all := js
	js = nil
	for _, lf := range all {
		ways := ex.bindLoop(a, nil, nil, lf)
		if len(ways) == 0 {
			continue // speaks about variables there are none of yet
		}
		if len(ways) != 1 {
			return no("not bound")
		}
		js = append(js, lf)
		for _, f := range ways[0] {
			switch p := f(a.fr, a.st).(type) {
			case *PtrV:
				if p.obj != 0 && len(p.path) == 0 {
					big[p.obj] = true
				}
			case *RefV:
				if o, ok := a.st.refObj[p.t.id]; ok {
					big[o] = true
				}
			}
		}
		bound = append(bound, ways[0])
		for _, side := range []cfg{a, b} {
			st := side.st.clone()
			n := ex.countInvs(side, lf, ways[0])
			if n == 0 {
				return no("no invariant")
			}
			for k := 0; k < n; k++ {
				t := ex.evalInv(side.fr, st, lf, ways[0], k)
				if t == nil {
					return no("not evaluated")
				}
				if !ex.prove(st, t, 1500) {
					return no(fmt.Sprintf("invariant %d: %.100s", k, t))
				}
			}
		}
	}
	if len(js) == 0 {
		return no("not bound")
	}
	for _, o := range ex.globals {
		big[o] = true
	}
	for _, o := range a.st.ghosts {
		big[o] = true
	}
	for k, v := range a.st.refObj {
		if w, ok := b.st.refObj[k]; ok && w != v {
			return no("references")
		}
	}
	for k, v := range a.st.ghosts {
		w, ok := b.st.ghosts[k]
		if ok && w != v || !ok && k[0] == 0 {
			return no("ghosts")
		}
	}
	for k, v := range b.st.ghosts {
		if _, ok := a.st.ghosts[k]; !ok && k[0] == 0 {
			return no("ghosts")
		}
		big[v] = true
	}
	sel := c.Fresh("sel", BoolS)
	st := a.st.clone()
	st.splits = nil
	for i := 0; i < len(a.st.splits) && i < len(b.st.splits) && a.st.splits[i] == b.st.splits[i]; i++ {
		st.splits = append(st.splits, a.st.splits[i])
	}
	for k, p := range b.st.heap {
		if st.heap[k] == nil {
			st.heap[k] = p
		}
	}
	for k, v := range b.st.refObj {
		st.refObj[k] = v
	}
	for k, v := range b.st.ghosts {
		st.ghosts[k] = v
	}
	st.pc = nil
	st.pcset = map[int]bool{}
	st.facts = map[int]bool{}
	// memory
	var ids []int
	for k := range st.heap {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		oa, ob := a.st.heap[k], b.st.heap[k]
		if oa == nil && ob == nil {
			continue // introduced by the join
		}
		if oa == nil || ob == nil {
			o := oa
			if o == nil {
				o = ob
			}
			if o.lazy && !sameVal(o.v, o.init) {
				m := &mask{}
				m.add(o.init, o.v)
				st.set(k, ex.havocVal(st, o.v, o.typ, m, "jn."+o.name))
			}
			continue
		}
		if oa == ob || oa.v == ob.v {
			continue
		}
		if oa.typ == nil {
			return no("untyped object")
		}
		_, isMap := oa.v.(*MapV)
		if !big[k] && !isMap {
			v, ok := ex.joinVal(st, a.st, b.st, sel, oa.v, ob.v, oa.typ)
			if !ok {
				return no("object " + oa.name)
			}
			st.set(k, v)
			continue
		}
		m := &mask{}
		m.add(oa.v, ob.v)
		if m.all || m.ptr || m.kids != nil {
			st.set(k, ex.havocVal(st, oa.v, oa.typ, m, "jn."+oa.name))
		}
	}
	for k, ob := range b.st.heap {
		if oa := a.st.heap[k]; oa != nil && ob != oa && (len(ob.alias) > len(oa.alias) || ob.exposed) {
			o := *st.heap[k]
			o.alias = append(append([]Alias{}, oa.alias...), ob.alias...)
			o.exposed = oa.exposed || ob.exposed
			st.heap[k] = &o
		}
	}
	// local variables
	live := ex.w.liveIn(a.fr.fn, a.blk)
	fr := a.fr.clone()
	var vs []ssa.Value
	for k := range a.fr.env {
		vs = append(vs, k)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, k := range vs {
		w, ok := b.fr.env[k]
		if !live[k] {
			if !ok {
				delete(fr.env, k)
			}
			continue
		}
		if !ok {
			return no("local " + k.Name())
		}
		v := a.fr.env[k]
		if ident(v, w) || sameVal(v, w) {
			continue
		}
		m, ok := ex.joinVal(st, a.st, b.st, sel, v, w, k.Type())
		if !ok {
			return no("local " + k.Name())
		}
		fr.env[k] = m
	}
	fr.names = map[string]Val{}
	for k, v := range a.fr.names {
		if w, ok := b.fr.names[k]; ok && sameVal(v, w) {
			fr.names[k] = v
		}
	}
	// what is known of the values that are still in use
	use := ex.inUse(fr, st, live)
	for i, s := range []*State{a.st, b.st} {
		o, cond := b.st, sel
		if i == 1 {
			o, cond = a.st, c.Not(sel)
		}
		for _, t := range s.pc {
			if !use.covers(t) {
				continue
			}
			switch {
			case s.facts[t.id]:
				st.fact(c, t)
			case o.pcset[t.id]:
				st.assume(c, t)
			case termSize(t) <= 60:
				st.assume(c, c.Imp(cond, t))
			}
		}
	}
	for i, lf := range js {
		k0 := cfg{fr, st, a.blk}
		n := ex.countInvs(k0, lf, bound[i])
		for k := 0; k < n; k++ {
			t := ex.evalInv(fr, st, lf, bound[i], k)
			if t == nil {
				return no("not evaluated afterwards")
			}
			st.assume(c, t)
		}
		if ex.dry == 0 {
			ex.obls = append(ex.obls, &Obligation{Harness: ex.h.Name, Label: fmt.Sprintf("join invariant %d", i), Kind: "invariant",
				Pos: ex.posOfBlock(a.blk), Result: "unsat", Solver: "z3-new", c: ex.c})
		}
	}
	return cfg{fr, st, a.blk}, true
}

// joinVal is a value which is the one or the other.
func (ex *Exec) joinVal(st, sa, sb *State, sel *Term, a, b Val, t types.Type) (Val, bool) {
	c := ex.c
	if ident(a, b) || sameVal(a, b) {
		return a, true
	}
	if t == nil {
		return ex.tryMerge(st, sel, a, b, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x, ok1 := a.(*StructV)
		y, ok2 := b.(*StructV)
		if ok1 && ok2 && len(x.fields) == len(y.fields) {
			n := &StructV{}
			for i := range x.fields {
				v, ok := ex.joinVal(st, sa, sb, sel, x.fields[i], y.fields[i], u.Field(i).Type())
				if !ok {
					return nil, false
				}
				n.fields = append(n.fields, v)
			}
			return n, true
		}
	case *types.Interface:
		if v, ok := ex.tryMerge(st, sel, a, b, t); ok {
			return v, ok
		}
		x, y := ex.reify(sa, a, t), ex.reify(sb, b, t)
		if isValueIface(t) {
			return c.Ite(sel, x, y), true
		}
		return &RefV{c.Ite(sel, x, y), t}, true
	case *types.Slice:
		if v, ok := ex.tryMerge(st, sel, a, b, t); ok {
			return v, ok
		}
		x, ok1 := a.(*SliceV)
		y, ok2 := b.(*SliceV)
		if ok1 && ok2 {
			n := ex.newSlice(st, u.Elem(), c.Ite(sel, ex.sliceSeq(sa, x, t), ex.sliceSeq(sb, y, t)))
			n.isnil = c.Ite(sel, x.isnil, y.isnil)
			ex.linkAlias(st, n, x)
			ex.linkAlias(st, n, y)
			return n, true
		}
	}
	return ex.tryMerge(st, sel, a, b, t)
}

// varSet tells which variables occur in the values a state still refers to.
type varSet struct {
	vars map[int]bool
	memo map[int]bool
}

func (u *varSet) covers(t *Term) bool {
	if r, ok := u.memo[t.id]; ok {
		return r
	}
	r := true
	collect([]*Term{t}, func(x *Term) {
		if x.op == "var" && !u.vars[x.id] {
			r = false
		}
	})
	u.memo[t.id] = r
	return r
}

func (ex *Exec) inUse(fr *Frame, st *State, live map[ssa.Value]bool) *varSet {
	u := &varSet{map[int]bool{}, map[int]bool{}}
	seen := map[*Term]bool{}
	objs := map[int]bool{}
	var val func(v Val)
	obj := func(id int) {
		if objs[id] || id == 0 {
			return
		}
		objs[id] = true
		if o := st.heap[id]; o != nil {
			val(o.v)
			if o.init != nil {
				val(o.init)
			}
			for _, al := range o.alias {
				if al.limit != nil {
					val(al.limit)
				}
			}
		}
	}
	term := func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		collect([]*Term{t}, func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			if x.op == "var" {
				u.vars[x.id] = true
			}
			if o, ok := st.refObj[x.id]; ok {
				obj(o)
			}
			if o, ok := ex.refOfObj[x.id]; ok {
				obj(o)
			}
			if f, ok := ex.funcOfRef[x.id]; ok {
				val(f)
			}
			if p, ok := ex.ptrOfRef[x.id]; ok {
				val(p)
			}
		})
		seen[t] = true
	}
	val = func(v Val) {
		switch x := v.(type) {
		case *Term:
			term(x)
		case *RefV:
			term(x.t)
		case *PtrV:
			obj(x.obj)
			for _, s := range x.path {
				term(s.idx)
			}
		case *SliceV:
			val(&x.base)
			term(x.off)
			term(x.len)
			term(x.cap)
			term(x.isnil)
		case *StructV:
			for _, y := range x.fields {
				val(y)
			}
		case *ArrV:
			term(x.seq)
			for _, y := range x.vec {
				val(y)
			}
		case *IfaceV:
			val(x.v)
		case TupleV:
			for _, y := range x {
				val(y)
			}
		case *MapV:
			term(x.present)
			term(x.val)
			term(x.size)
			for _, y := range x.keys {
				val(y)
			}
			for _, y := range x.vals {
				val(y)
			}
		case *FuncV:
			for _, y := range x.binds {
				val(y)
			}
		case *IterV:
			obj(x.obj)
		}
	}
	for f := fr; f != nil; f = f.caller {
		for k, v := range f.env {
			if f != fr || live[k] {
				val(v)
			}
		}
		for _, v := range f.names {
			val(v)
		}
		if f.h != nil {
			for _, v := range f.h.args {
				val(v)
			}
			for _, fs := range [][]*FuncV{f.h.onPanic, f.h.loops, f.h.joins} {
				for _, g := range fs {
					val(g)
				}
			}
		}
	}
	for _, o := range ex.globals {
		obj(o)
	}
	for _, o := range st.ghosts {
		obj(o)
	}
	return u
}
