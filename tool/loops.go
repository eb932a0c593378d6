package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// mask says which parts of a value are modified.
type mask struct {
	all  bool
	ptr  bool // a pointer into the same array
	kids map[int]*mask
}

func (m *mask) add(a, b Val) bool {
	if m.all || ident(a, b) {
		return false
	}
	x, ok1 := a.(*StructV)
	y, ok2 := b.(*StructV)
	if ok1 && ok2 && len(x.fields) == len(y.fields) {
		ch := false
		for i := range x.fields {
			if ident(x.fields[i], y.fields[i]) {
				continue
			}
			if m.kids == nil {
				m.kids = map[int]*mask{}
			}
			k := m.kids[i]
			if k == nil {
				k = &mask{}
				m.kids[i] = k
			}
			if k.add(x.fields[i], y.fields[i]) {
				ch = true
			}
		}
		return ch
	}
	if sameVal(a, b) {
		return false
	}
	if p, ok := a.(*PtrV); ok {
		if q, ok := b.(*PtrV); ok && sameShape(p, q) {
			ch := !m.ptr
			m.ptr = true
			return ch
		}
	}
	m.all = true
	return true
}

// sameShape: pointers to elements of the same array
func sameShape(p, q *PtrV) bool {
	if p.obj == 0 || p.obj != q.obj || len(p.path) != len(q.path) {
		return false
	}
	for i := range p.path {
		if p.path[i].field != q.path[i].field {
			return false
		}
	}
	return true
}

func ident(a, b Val) bool {
	switch a.(type) {
	case TupleV:
		return false
	}
	if _, ok := b.(TupleV); ok {
		return false
	}
	return a == b
}

func sameVal(a, b Val) bool {
	if x, ok := a.(TupleV); ok {
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if ident(a, b) {
		return true
	}
	switch x := a.(type) {
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.base.obj == y.base.obj && len(x.base.path) == 0 && len(y.base.path) == 0 && x.off == y.off && x.len == y.len && x.cap == y.cap && x.isnil == y.isnil
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.obj != y.obj || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	case *RefV:
		y, ok := b.(*RefV)
		return ok && x.t == y.t
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && (x.typ == nil && y.typ == nil || x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) && sameVal(x.v, y.v))
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.fields) != len(y.fields) {
			return false
		}
		for i := range x.fields {
			if !sameVal(x.fields[i], y.fields[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || x.seq != y.seq || len(x.vec) != len(y.vec) {
			return false
		}
		for i := range x.vec {
			if !sameVal(x.vec[i], y.vec[i]) {
				return false
			}
		}
		return true
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || x.conc != y.conc || x.present != y.present || x.val != y.val || x.size != y.size || len(x.keys) != len(y.keys) {
			return false
		}
		for i := range x.keys {
			if !sameVal(x.keys[i], y.keys[i]) || !sameVal(x.vals[i], y.vals[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// havocVal makes the masked parts arbitrary.
func (ex *Exec) havocVal(st *State, v Val, t types.Type, m *mask, name string) Val {
	if m.all {
		return ex.havocLike(st, v, t, name)
	}
	if q, ok := v.(*PtrV); ok && m.ptr {
		n := &PtrV{obj: q.obj, path: append([]Step{}, q.path...)}
		for i := range n.path {
			if n.path[i].field < 0 {
				n.path[i].idx = ex.c.Fresh(name+".idx", IntS)
				st.assume(ex.c, ex.c.Le(ex.c.Int(0), n.path[i].idx))
				if a, ok := ex.loadPtr(st, &PtrV{obj: q.obj, path: n.path[:i]}).(*ArrV); ok {
					ln := ex.c.Int(int64(len(a.vec)))
					if a.seq != nil {
						ln = ex.c.Len(a.seq)
					}
					st.assume(ex.c, ex.c.Lt(n.path[i].idx, ln))
				}
			}
		}
		return n
	}
	x, ok := v.(*StructV)
	if !ok {
		return ex.havocLike(st, v, t, name)
	}
	u := t.Underlying().(*types.Struct)
	n := &StructV{append([]Val{}, x.fields...)}
	for i, k := range m.kids {
		n.fields[i] = ex.havocVal(st, x.fields[i], u.Field(i).Type(), k, name+"."+u.Field(i).Name())
	}
	return n
}

func (ex *Exec) havocLike(st *State, v Val, t types.Type, name string) Val {
	c := ex.c
	switch x := v.(type) {
	case *ArrV: // content of a slice or array object
		if x.seq == nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				n := &ArrV{elem: x.elem}
				for i := range x.vec {
					n.vec = append(n.vec, ex.symbolic(st, x.elem, fmt.Sprintf("%s.%d", name, i)))
				}
				return n
			}
		}
		old := ex.arrSeq(st, x)
		s := c.Fresh(name, old.sort)
		st.fact(c, c.Eq(c.Len(s), c.Len(old)))
		return &ArrV{elem: x.elem, seq: s}
	case *MapV:
		return ex.symMap(st, x.typ, name)
	case *SliceV:
		n := ex.symbolic(st, t, name).(*SliceV)
		if x.base.obj != 0 {
			ex.linkAlias(st, n, x)
		}
		return n
	case *IterV:
		return x
	case *FuncV:
		fail("function variable changed in a loop")
	}
	if t == nil {
		fail("havoc of untyped %T", v)
	}
	return ex.symbolic(st, t, name)
}

// linkAlias: n may share memory with old.
func (ex *Exec) linkAlias(st *State, n, old *SliceV) {
	if n.base.obj == 0 || old.base.obj == 0 || len(old.base.path) > 0 {
		return
	}
	oo := st.heap[old.base.obj]
	a, ok := oo.v.(*ArrV)
	if !ok {
		return
	}
	o := *st.heap[n.base.obj]
	o.alias = append(append([]Alias{}, o.alias...), Alias{obj: old.base.obj, limit: ex.c.Len(ex.arrSeq(st, a))})
	st.heap[o.id] = &o
}

// ---- loops

func (ex *Exec) headerCond(cf cfg, L *Loop) *Term {
	op, oc := ex.probe, ex.probeCond
	ex.probe, ex.probeCond = L.head, nil
	ex.dry++
	defer func() { ex.probe, ex.probeCond = op, oc; ex.dry-- }()
	pos := ex.curPos
	defer func() { ex.curPos = pos }()
	rs := ex.instrs(cf.fr.clone(), cf.st.clone(), L.head, 0)
	if len(rs) > 0 {
		return nil
	}
	return ex.probeCond
}

func (ex *Exec) doLoop(cf cfg, L *Loop) (outs []Outcome, exits []cfg) {
	work := []cfg{cf}
	for n := 0; len(work) > 0; n++ {
		cf := work[len(work)-1]
		work = work[:len(work)-1]
		if cf.st.dead {
			continue
		}
		cond := ex.headerCond(cf, L)
		conc := cond != nil && (cond.isTrue() || cond.isFalse())
		lim := ex.unrollLimit(cf.fr)
		if (conc || ex.booting) && cf.fr.unroll[L.head] < 200 || cf.fr.unroll[L.head] < lim {
			o, b, e := ex.region([]cfg{cf}, L)
			outs = append(outs, o...)
			exits = append(exits, e...)
			var keep []cfg
			for _, x := range b {
				merged := false
				for i := range keep {
					if m, ok := ex.mergeCfg(keep[i], x); ok {
						keep[i] = m
						merged = true
						break
					}
				}
				if !merged {
					keep = append(keep, x)
				}
			}
			for _, x := range keep {
				x.fr.unroll[L.head] = cf.fr.unroll[L.head] + 1
				work = append(work, x)
			}
			continue
		}
		if lim > 0 && !conc {
			fail("loop at %s not exhausted by unrolling %d times", ex.posOfBlock(L.head), lim)
		}
		o, e := ex.cutLoop(cf, L)
		outs = append(outs, o...)
		exits = append(exits, e...)
	}
	for _, e := range exits {
		delete(e.fr.unroll, L.head)
	}
	return
}

func (ex *Exec) posOfBlock(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return ex.pos(in)
		}
	}
	return b.String()
}

func (ex *Exec) unrollLimit(fr *Frame) int {
	n := 0
	for f := fr; f != nil; f = f.caller {
		if f.h != nil {
			if s := f.h.h.opts["unroll"]; s != "" {
				fmt.Sscan(s, &n)
			}
			break
		}
	}
	return n
}

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

type cand struct {
	key   string
	user  bool
	group string                           // one of several ways to bind the names
	f     func(fr *Frame, st *State) *Term // nil: not applicable
}

func (ex *Exec) cutLoop(cf cfg, L *Loop) (outs []Outcome, exits []cfg) {
	phis := headPhis(L.head)
	base := cf
	mark, kn := ex.c.n, map[int]bool{}
	ex.smashed = false
	mods, wild := ex.modset(base, L, phis, nil, mark, kn)
	smashed := ex.smashed || wild != ""
	cands := ex.candidates(base, L, phis)
	// initially
	var live []cand
again:
	live = nil
	bad := map[string]bool{}
	for _, k := range cands {
		if ex.rounds > 0 && ex.failed[fmt.Sprintf("%s %p", k.key, L.head)] {
			continue
		}
		st := base.st.clone()
		t := k.f(base.fr, st)
		if t == nil {
			continue
		}
		if ex.prove(st, t, 3000) {
			live = append(live, k)
		} else if k.user {
			bad[k.group] = true
			ex.log("invariant %s not initially true at %s", k.key, ex.posOfBlock(L.head))
			if debugLoops {
				q := &Query{c: ex.c, as: append(append([]*Term{}, st.pc...), ex.c.Not(t))}
				fn := fmt.Sprintf("/tmp/d/init-%s-%d.smt2", k.key, L.head.Index)
				os.WriteFile(fn, []byte(q.script()), 0o644)
				fmt.Fprintf(os.Stderr, "   init %s at %s: dry %d rounds %d %s %.150s\n", k.key, ex.posOfBlock(L.head), ex.dry, ex.rounds, fn, t)
			}
		}
	}
	// where the names can be bound in several ways, a binding for which some
	// invariant is not true is not the one that is meant
	if len(bad) > 0 {
		n := 0
		for _, k := range live {
			if k.group == "" || !bad[k.group] {
				live[n] = k
				n++
			}
		}
		live = live[:n]
	}
	for round := 0; len(live) > 0; round++ {
		if ex.rounds == 0 && round == 0 {
			ex.failed = map[string]bool{}
		}
		ex.dry++
		ex.rounds++
		hv := ex.havocCfg(base, L, phis, mods, live)
		_, backs, _ := ex.inLoop(hv.fr.clone(), hv.st.clone(), L)
		ex.dry--
		ex.rounds--
		var keep []cand
		for _, k := range live {
			ok := true
			for _, b := range backs {
				st := b.st.clone()
				t := k.f(b.fr, st)
				if t == nil || !(k.user && ex.proveHard(st, t) || !k.user && ex.prove(st, t, 4000)) {
					ok = false
					if k.user && debugLoops {
						if t != nil {
							q := &Query{c: ex.c, as: append(append([]*Term{}, st.pc...), ex.c.Not(t))}
							fn := fmt.Sprintf("/tmp/d/inv-%s-%d-%d.smt2", k.key, L.head.Index, round)
							os.WriteFile(fn, []byte(q.script()), 0o644)
							fmt.Fprintf(os.Stderr, "   step %s at %s: %s %.150s\n", k.key, ex.posOfBlock(L.head), fn, t)
						}
					}
					break
				}
			}
			if ok {
				keep = append(keep, k)
			} else if k.user {
				ex.log("invariant %s not maintained at %s", k.key, ex.posOfBlock(L.head))
			}
			if !ok && ex.rounds > 0 {
				ex.failed[fmt.Sprintf("%s %p", k.key, L.head)] = true
			}
		}
		done := len(keep) == len(live)
		live = keep
		if done {
			break
		}
	}
	if smashed && len(live) > 0 {
		// what the invariants rule out is not changed after all
		smashed = false
		m2, w2 := ex.modset(base, L, phis, live, mark, kn)
		wild = w2
		if len(m2) < len(mods) {
			mods = m2
			goto again
		}
	}
	if wild != "" {
		base.st.wild = wild
	}
	if ex.dry == 0 {
		for _, k := range live {
			ex.obls = append(ex.obls, &Obligation{Harness: ex.h.Name, Label: "loop invariant " + k.key, Kind: "invariant",
				Pos: ex.posOfBlock(L.head), Result: "unsat", Solver: "z3-new", c: ex.c})
		}
	}
	hv := ex.havocCfg(base, L, phis, mods, live)
	o, _, e := ex.inLoop(hv.fr, hv.st, L)
	return o, e
}

// modset finds which heap objects the loop changes.
func (ex *Exec) modset(base cfg, L *Loop, phis []*ssa.Phi, live []cand, mark int, kn map[int]bool) (map[int]*mask, string) {
	mods := map[int]*mask{}
	wild := ""
	ex.dry++
	for round := 0; ; round++ {
		if round > 12 {
			fail("loop modification set does not settle")
		}
		hv := ex.havocCfg(base, L, phis, mods, live)
		start := map[int]Val{}
		for id, o := range hv.st.heap {
			start[id] = o.v
		}
		_, backs, _ := ex.inLoop(hv.fr.clone(), hv.st.clone(), L)
		ch := false
		again := false
		for _, b := range backs {
			if len(b.fr.defers) != len(base.fr.defers) {
				fail("defer in a loop")
			}
			ids := make([]int, 0, len(b.st.heap))
			for id := range b.st.heap {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				o := b.st.heap[id]
				if s, ok := start[id]; ok {
					if base.st.heap[id] == nil {
						continue // object of the havocked state
					}
					if s != o.v {
						m := mods[id]
						if m == nil {
							m = &mask{}
							mods[id] = m
						}
						if m.add(s, o.v) {
							ch = true
						}
					}
					continue
				}
				if o.lazy && !sameVal(o.v, o.init) {
					// a pre-existing object seen first inside the loop
					if ex.materialise(base.st, b.st, o, mark, kn) {
						again = true
					} else if o.name != "" {
						wild = o.name
					}
				}
			}
			if b.st.wild != "" {
				wild = b.st.wild
			}
		}
		if !ch && !again {
			break
		}
	}
	ex.dry--
	return mods, wild
}

var debugLoops = os.Getenv("VT_LOOPS") != ""

func (ex *Exec) log(f string, a ...interface{}) {
	if ex.dry == 0 || debugLoops {
		s := fmt.Sprintf(f, a...)
		if !ex.notes[s] {
			ex.notes[s] = true
			ex.loopLog = append(ex.loopLog, s)
		}
	}
}

// materialise makes an object found through a reference in a loop body known
// before the loop.
func (ex *Exec) materialise(base, st *State, o *Obj, mark int, kn map[int]bool) bool {
	if ref := ex.termOfObj[o.id]; ref != nil {
		if _, ok := base.refObj[ref.id]; ok {
			return false
		}
		// only if the reference makes sense before the loop: its variables
		// must occur in the state there
		if !ex.known(base, ref, mark, kn) {
			return false
		}
		n := *o
		n.v = o.init
		valTerms(o.init, func(t *Term) {
			collect([]*Term{t}, func(x *Term) {
				if x.op == "var" {
					kn[x.id] = true
				}
			})
		})
		base.heap[o.id] = &n
		base.refObj[ref.id] = o.id
		return true
	}
	for k, id := range st.ghosts {
		if id == o.id && k[0] != 0 {
			if _, ok := base.ghosts[k]; ok {
				return false
			}
			if rt := ex.ghostRef[k]; rt != nil && !ex.known(base, rt, mark, kn) {
				return false
			}
			n := *o
			n.v = o.init
			valTerms(o.init, func(t *Term) {
				collect([]*Term{t}, func(x *Term) {
					if x.op == "var" {
						kn[x.id] = true
					}
				})
			})
			base.heap[o.id] = &n
			base.ghosts[k] = o.id
			return true
		}
	}
	return false
}

// known: all variables of the term were introduced before the loop havoc
func (ex *Exec) known(st *State, t *Term, mark int, kn map[int]bool) bool {
	ok := true
	collect([]*Term{t}, func(x *Term) {
		if x.op == "var" && x.id > mark && !kn[x.id] {
			ok = false
		}
		if x.op == "newref" && len(x.s) > 4 {
			if o, yes := ex.refOfObj[x.id]; yes && st.heap[o] == nil {
				ok = false
			}
			if o, yes := ex.newRef[x.id]; yes && st.heap[o] == nil {
				ok = false
			}
		}
	})
	return ok
}

func (ex *Exec) havocCfg(base cfg, L *Loop, phis []*ssa.Phi, mods map[int]*mask, live []cand) cfg {
	fr, st := base.fr.clone(), base.st.clone()
	for _, p := range phis {
		old := fr.env[p]
		var v Val
		switch x := old.(type) {
		case *IterV:
			v = x
		case *PtrV:
			if x.obj != 0 {
				if o := st.heap[x.obj]; o != nil {
					ex.note("pointer variable " + p.Comment + " changed in a loop: taken to point to an object of its own")
				}
			}
			v = ex.symbolic(st, p.Type(), p.Comment)
		default:
			v = ex.havocLike(st, old, p.Type(), nameOr(p))
		}
		fr.env[p] = v
		if p.Comment != "" {
			fr.names[p.Comment] = v
		}
	}
	ids := make([]int, 0, len(mods))
	for id := range mods {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.heap[id]
		st.set(id, ex.havocVal(st, o.v, o.typ, mods[id], "lp."+o.name))
	}
	for _, k := range live {
		if t := k.f(fr, st); t != nil {
			st.assume(ex.c, t)
		}
	}
	return cfg{fr, st, L.head}
}

func nameOr(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (ex *Exec) note(s string) { ex.assume[s] = true }

func (ex *Exec) candidates(base cfg, L *Loop, phis []*ssa.Phi) []cand {
	c := ex.c
	var cs []cand
	// user invariants
	var loops []*FuncV
	for f := base.fr; f != nil; f = f.caller {
		if f.h != nil && f.h.mode != "model" {
			loops = f.h.loops
			break
		}
	}
	for li, lf := range loops {
		ways := ex.bindLoop(base, L, phis, lf)
		for ai, as := range ways {
			lf, as := lf, as
			group := ""
			if len(ways) > 1 {
				group = fmt.Sprintf("%d.%d", li, ai)
			}
			n := ex.countInvs(base, lf, as)
			for k := 0; k < n; k++ {
				k := k
				cs = append(cs, cand{key: fmt.Sprintf("%d.%d.%d", li, ai, k), user: true, group: group, f: func(fr *Frame, st *State) *Term {
					return ex.evalInv(fr, st, lf, as, k)
				}})
			}
		}
	}
	for _, p := range phis {
		p := p
		switch x := base.fr.env[p].(type) {
		case *Term:
			if x.sort == IntS {
				init := x
				cs = append(cs, cand{key: nameOr(p) + ">=init", f: func(fr *Frame, st *State) *Term {
					return c.Le(init, fr.env[p].(*Term))
				}})
			}
		case *SliceV:
			if x.base.obj == 0 || len(x.base.path) == 0 {
				t := p.Type()
				if x.base.obj == 0 {
					continue
				}
				init := ex.sliceSeq(base.st, x, t)
				n := x.len
				cs = append(cs, cand{key: nameOr(p) + " grows", f: func(fr *Frame, st *State) *Term {
					return c.Le(n, fr.env[p].(*SliceV).len)
				}})
				cs = append(cs, cand{key: nameOr(p) + " keeps prefix", f: func(fr *Frame, st *State) *Term {
					s := fr.env[p].(*SliceV)
					return c.And(c.Le(n, s.len), c.Eq(c.SubSeq(ex.sliceSeq(st, s, t), c.Int(0), n), init))
				}})
			}
		}
	}
	// the header condition's bound
	for _, in := range L.head.Instrs {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		if b.Op.String() != "<" && b.Op.String() != "!=" && b.Op.String() != "<=" {
			continue
		}
		bt, ok := b.X.Type().Underlying().(*types.Basic)
		if !ok || bt.Kind() != types.Int && bt.Kind() != types.UntypedInt {
			continue
		}
		b2 := b
		for _, d := range []int64{0, 1} {
			d := d
			cs = append(cs, cand{key: "counter bounded", f: func(fr *Frame, st *State) *Term {
				// X is a phi or phi+1; Y invariant
				x := ex.phiBase(fr, b2.X)
				y, ok := fr.env[b2.Y].(*Term)
				if !ok {
					if k, isc := b2.Y.(*ssa.Const); isc {
						y, ok = ex.constant(k).(*Term)
					}
				}
				if !ok {
					// computed in the header itself: recompute for len of a local slice
					y = ex.headerVal(fr, st, L.head, b2.Y)
				}
				if x == nil || y == nil {
					return nil
				}
				return c.Le(c.AddK(x, d), y)
			}})
		}
	}
	return cs
}

func (ex *Exec) headerVal(fr *Frame, st *State, head *ssa.BasicBlock, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			switch y := ex.headerArg(fr, st, head, x.Call.Args[0]).(type) {
			case *SliceV:
				return y.len
			case *Term:
				return ex.c.Len(y)
			}
		}
	}
	return nil
}

// headerArg evaluates the loads a loop's header does.
func (ex *Exec) headerArg(fr *Frame, st *State, head *ssa.BasicBlock, v ssa.Value) Val {
	if in, ok := v.(ssa.Instruction); !ok || in.Block() != head {
		return fr.env[v]
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return fr.env[v]
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			if p, ok := ex.headerArg(fr, st, head, x.X).(*PtrV); ok && p.obj != 0 && st.heap[p.obj] != nil {
				return ex.loadPtr(st, p)
			}
		}
	case *ssa.FieldAddr:
		if p, ok := ex.headerArg(fr, st, head, x.X).(*PtrV); ok && p.obj != 0 {
			return &PtrV{obj: p.obj, path: append(append([]Step{}, p.path...), Step{field: x.Field})}
		}
	case *ssa.Field:
		if s, ok := ex.headerArg(fr, st, head, x.X).(*StructV); ok {
			return s.fields[x.Field]
		}
	}
	return nil
}

func (ex *Exec) phiBase(fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Phi:
		t, _ := fr.env[x].(*Term)
		return t
	case *ssa.BinOp:
		if p, ok := x.X.(*ssa.Phi); ok {
			t, _ := fr.env[p].(*Term)
			return t
		}
	}
	return nil
}

func (ex *Exec) inLoop(fr *Frame, st *State, L *Loop) (outs []Outcome, backs, exits []cfg) {
	ex.nest++
	defer func() { ex.nest-- }()
	return ex.region([]cfg{{fr, st, L.head}}, L)
}

// bindLoop finds what the parameters of an invariant closure stand for.
type binder func(fr *Frame, st *State) Val

func (ex *Exec) bindLoop(base cfg, L *Loop, phis []*ssa.Phi, lf *FuncV) [][]binder {
	c := ex.c
	res := [][]binder{{}}
	for _, prm := range lf.fn.Params {
		var opts []binder
		t := prm.Type()
		isIdx := typeStr(t) == "vs.Idx"
		if typeStr(t) == "vs.Outermost" {
			if ex.nest > 0 {
				return nil
			}
			opts = append(opts, func(fr *Frame, st *State) Val { return ex.zero(t) })
		}
		name := prm.Name()
		for _, p := range phis {
			p := p
			if len(opts) > 0 && !isIdx && typeStr(t) == "vs.Outermost" {
				break
			}
			if isIdx {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
					if _, ok := base.fr.env[p].(*Term); ok {
						opts = append(opts, func(fr *Frame, st *State) Val { return fr.env[p] },
							func(fr *Frame, st *State) Val { return c.AddK(fr.env[p].(*Term), 1) })
					}
				}
				continue
			}
			if p.Comment == name && types.Identical(p.Type(), t) {
				opts = append(opts, func(fr *Frame, st *State) Val { return fr.env[p] })
			}
		}
		if len(opts) == 0 && !isIdx {
			for f := base.fr; f != nil && len(opts) == 0 && (f == base.fr || f.h == nil || f.h.mode == "model"); f = f.caller {
				if pv, ok := f.names["&"+name].(*PtrV); ok && base.st.heap[pv.obj] != nil && len(pv.path) == 0 && types.Identical(base.st.heap[pv.obj].typ, t) {
					opts = append(opts, func(fr *Frame, st *State) Val { return ex.loadPtr(st, pv) })
				}
			}
		}
		if len(opts) == 0 && !isIdx {
			for _, p := range phis {
				p := p
				if types.Identical(p.Type(), t) {
					opts = append(opts, func(fr *Frame, st *State) Val { return fr.env[p] })
				}
			}
			// local variables kept in memory
			for f := base.fr; f != nil && (f == base.fr || f.h == nil || f.h.mode == "model"); f = f.caller {
				var ks []string
				for k := range f.names {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if k[0] == '&' && len(opts) < 3 {
						if pv, ok := f.names[k].(*PtrV); ok && pv.obj != 0 && len(pv.path) == 0 && base.st.heap[pv.obj] != nil && types.Identical(base.st.heap[pv.obj].typ, t) {
							opts = append(opts, func(fr *Frame, st *State) Val { return ex.loadPtr(st, pv) })
						}
					}
				}
			}
		}
		if len(opts) == 0 && !isIdx {
			// a local that the loop does not change
			for v, x := range base.fr.env {
				if pv, ok := v.(*ssa.Parameter); ok && pv.Name() == name && types.Identical(pv.Type(), t) {
					x := x
					opts = append(opts, func(fr *Frame, st *State) Val { return x })
				}
			}
			if v, ok := base.fr.names[name]; ok && len(opts) == 0 && ex.fits(v, t) {
				opts = append(opts, func(fr *Frame, st *State) Val { return v })
			}
		}
		if len(opts) == 0 {
			return nil
		}
		var next [][]binder
		for _, r := range res {
			for _, o := range opts {
				next = append(next, append(append([]binder{}, r...), o))
			}
		}
		res = next
		if len(res) > 24 {
			res = res[:24]
		}
	}
	return res
}

func (ex *Exec) fits(v Val, t types.Type) bool {
	switch x := v.(type) {
	case *Term:
		return x.sort == ex.sortOf(t)
	case *SliceV:
		_, ok := t.Underlying().(*types.Slice)
		return ok
	case *RefV:
		return types.Identical(x.typ, t)
	case *PtrV:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return x.obj == 0 || len(x.path) == 0 && p != nil
		}
	}
	return false
}

func (ex *Exec) runInv(fr *Frame, st *State, lf *FuncV, bs []binder) []InvRec {
	var args []Val
	for _, b := range bs {
		args = append(args, b(fr, st))
	}
	var sink []InvRec
	old := ex.invSink
	ex.invSink = &sink
	ex.spec++
	defer func() { ex.invSink = old; ex.spec-- }()
	n0 := len(st.pc)
	oldBase := ex.invBase
	ex.invBase = n0
	defer func() { ex.invBase = oldBase }()
	pos := ex.curPos
	defer func() { ex.curPos = pos }()
	s2 := st.clone()
	outs := ex.runFunc(lf.fn, args, lf.binds, s2, &Frame{fn: fr.fn, caller: fr, depth: fr.depth}, nil, nil)
	for _, o := range outs {
		for _, t := range o.st.pc[n0:] {
			if o.st.facts[t.id] {
				st.fact(ex.c, t)
			}
		}
	}
	return sink
}

func (ex *Exec) countInvs(base cfg, lf *FuncV, bs []binder) (n int) {
	defer func() {
		if r := recover(); r != nil {
			if te, ok := r.(toolErr); ok {
				ex.log("invariant: %s", te.msg)
				n = 0
				return
			}
			panic(r)
		}
	}()
	keys := map[string]bool{}
	for _, r := range ex.runInv(base.fr, base.st.clone(), lf, bs) {
		keys[r.key] = true
	}
	return len(keys)
}

func (ex *Exec) evalInv(fr *Frame, st *State, lf *FuncV, bs []binder, k int) (res *Term) {
	defer func() {
		if r := recover(); r != nil {
			if te, ok := r.(toolErr); ok {
				ex.log("invariant: %s", te.msg)
				res = nil
				return
			}
			panic(r)
		}
	}()
	recs := ex.runInv(fr, st, lf, bs)
	var keys []string
	m := map[string][]*Term{}
	for _, r := range recs {
		if m[r.key] == nil {
			keys = append(keys, r.key)
		}
		m[r.key] = append(m[r.key], r.cond)
	}
	sort.Strings(keys)
	if k >= len(keys) {
		return nil
	}
	return ex.c.And(m[keys[k]]...)
}

func valTerms(v Val, f func(*Term)) {
	switch x := v.(type) {
	case *Term:
		f(x)
	case *RefV:
		f(x.t)
	case *SliceV:
		f(x.off)
		f(x.len)
		f(x.isnil)
	case *StructV:
		for _, y := range x.fields {
			valTerms(y, f)
		}
	case *ArrV:
		if x.seq != nil {
			f(x.seq)
		}
		for _, y := range x.vec {
			valTerms(y, f)
		}
	case *IfaceV:
		valTerms(x.v, f)
	case *MapV:
		if x.present != nil {
			f(x.present)
			f(x.val)
			f(x.size)
		}
		for i := range x.keys {
			valTerms(x.keys[i], f)
			valTerms(x.vals[i], f)
		}
	case TupleV:
		for _, y := range x {
			valTerms(y, f)
		}
	}
}
