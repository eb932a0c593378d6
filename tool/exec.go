package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st  *State
	res Val
	pan Val // non-nil: panicking with this value
	cut bool
}

type Deferred struct {
	fn   Val
	call *ssa.CallCommon
	args []Val
	inst ssa.Instruction
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	binds    []Val
	defers   []Deferred
	names    map[string]Val
	h        *HFrame // harness information, if this is a harness
	panBox   *PanBox // the panic a deferred function may recover
	unroll   map[*ssa.BasicBlock]int
	caller   *Frame
	depth    int
	noShared bool
}

type PanBox struct {
	val       Val
	recovered bool
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.names = make(map[string]Val, len(fr.names)+4)
	for k, v := range fr.names {
		n.names[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.unroll = make(map[*ssa.BasicBlock]int, len(fr.unroll))
	for k, v := range fr.unroll {
		n.unroll[k] = v
	}
	return &n
}

type cfg struct {
	fr  *Frame
	st  *State
	blk *ssa.BasicBlock
}

type Exec struct {
	proofs  int // nesting of vs.Proof
	smashed bool
	c       *Ctx
	w       *World
	h       *Harness
	feas    *Solver
	prv     *Solver
	obls    []*Obligation
	dry     int
	spec    int // evaluating a specification: no safety obligations
	depth   int
	paths   int
	used    map[string]bool
	inl     map[string]bool
	assume  map[string]bool
	natUse  map[string]bool

	refOfObj   map[int]int
	newRef     map[int]int // references made by vs.New
	ptrOfRef   map[int]*PtrV
	funcOfRef  map[int]*FuncV
	termOfObj  map[int]*Term
	typeByName map[string]types.Type
	curSt      *State
	feasCache  map[string]bool
	globals    map[*ssa.Global]int
	hstack     []*HFrame
	steps      int
	invSink    *[]InvRec
	loopLog    []string
	frozen     map[int]bool
	booting    bool
	labels     map[string]bool
	measure    *Term
	curPos     string
	nest       int // loops being executed
	rounds     int
	failed     map[string]bool
	nProve     int
	heldTop    bool
	stepLimit  int
	probe      *ssa.BasicBlock
	probeCond  *Term
	ghostObj   map[int]bool
	invs       int
	notes      map[string]bool
	vac        map[string]bool // Ensures labels seen on a feasible path
	ghostRef   map[string]*Term
	invBase    int
	proofBase  int
	nErr       int
	noProof    int
	noJoin     map[string]int // where paths could not be joined
	base       *State
}

type InvRec struct {
	key  string
	cond *Term // under the path condition of the closure
}

func (ex *Exec) pos(i ssa.Instruction) string {
	p := ex.w.prog.Fset.Position(i.Pos())
	if !p.IsValid() {
		return ex.curPos
	}
	f := p.Filename
	if k := strings.LastIndex(f, "/maho/"); k >= 0 {
		f = f[k+6:]
	}
	f = strings.TrimPrefix(f, "/repo/")
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// ---- obligations

type Obligation struct {
	Harness string
	Label   string
	Pos     string
	Kind    string
	as      []*Term
	goal    *Term
	c       *Ctx
	Result  string
	Solver  string
	Ms      int64
	Model   string
	trivial bool
	script  string
	script2 string
	path    []string
}

func (ex *Exec) oblige(st *State, kind, label string, goal *Term) {
	if ex.dry > 0 || st.dead {
		st.assume(ex.c, goal)
		return
	}
	if goal.op == "and" && len(goal.args) <= 40 {
		for _, g := range goal.args {
			ex.oblige(st, kind, label, g)
		}
		return
	}
	if debugLoops && kind == "post" {
		fmt.Fprintf(os.Stderr, "POST %s: %s\n  heap %d pc %v\n", label, goal, len(st.heap), st.pc)
	}
	o := &Obligation{Harness: ex.h.Name, Label: label, Kind: kind, Pos: ex.curPos, goal: goal, c: ex.c}
	ex.labels[label] = true
	if goal.isTrue() || st.pcset[goal.id] {
		o.trivial = true
		o.Result = "unsat"
		o.Solver = "simplifier"
	} else {
		o.as = append([]*Term{}, st.pc...)
		o.path = append([]string{}, st.trace...)
		if len(st.splits) > 0 {
			ex.splitObl(o, o.as, st.splits)
			st.assume(ex.c, goal)
			return
		}
	}
	ex.obls = append(ex.obls, o)
	st.assume(ex.c, goal)
}

// splitObl breaks an obligation into one for each case of vs.Split.
func (ex *Exec) splitObl(o *Obligation, as []*Term, splits []*Term) {
	if len(splits) == 0 {
		o2 := *o
		o2.as = as
		ex.obls = append(ex.obls, &o2)
		return
	}
	for _, v := range []*Term{splits[0], ex.c.Not(splits[0])} {
		if v.isFalse() {
			continue
		}
		n := append(as[:len(as):len(as)], v)
		r := ex.c.propagate(ex.c.flatAnd(n))
		if len(r) == 1 && r[0].isFalse() {
			continue
		}
		ex.splitObl(o, n, splits[1:])
	}
}

// safety obligation (run-time fault)
func (ex *Exec) safe(st *State, what string, ok *Term) {
	if ex.spec > 0 {
		return
	}
	if ok.isTrue() {
		return
	}
	ex.oblige(st, "safety", what, ok)
}

// ---- feasibility

func (ex *Exec) feasible(st *State, cond *Term) bool {
	if cond.isTrue() {
		return !st.dead
	}
	if cond.isFalse() || st.dead {
		return false
	}
	if st.pcset[cond.id] {
		return true
	}
	if st.pcset[ex.c.Not(cond).id] {
		return false
	}
	var kb strings.Builder
	for _, t := range st.pc {
		fmt.Fprintf(&kb, "%d,", t.id)
	}
	fmt.Fprintf(&kb, "|%d", cond.id)
	k := kb.String()
	if r, ok := ex.feasCache[k]; ok {
		return r
	}
	q := &Query{c: ex.c, as: append(append([]*Term{}, st.pc...), cond), light: true}
	r, _ := ex.feas.Check(q.script(), 300, false)
	ex.feasCache[k] = r != "unsat"
	return r != "unsat"
}

// prove is used for candidate invariants and the like.
func (ex *Exec) prove(st *State, goal *Term, ms int) bool { return ex.proveWith(st, goal, ms, false) }

// proveHard tries everything.
func (ex *Exec) proveHard(st *State, goal *Term) bool {
	t0 := time.Now()
	if ex.proveWith(st, goal, 1500, false) {
		return true
	}
	late := time.Since(t0) > 1200*time.Millisecond
	q := &Query{c: ex.c, as: append(append([]*Term{}, st.pc...), ex.c.Not(goal))}
	t0 = time.Now()
	r, _ := ex.prv.Check(q.script(), 2500, false)
	if debugLoops {
		fmt.Printf("   cvc5 %s %.1fs dry %d: %.160s\n", r, time.Since(t0).Seconds(), ex.dry, goal)
	}
	if r == "unsat" {
		return true
	}
	late2 := r == "unknown" && time.Since(t0) > 2*time.Second
	if ex.proveWith(st, goal, 3000, true) || late && ex.proveWith(st, goal, 10000, false) {
		return true
	}
	if late2 {
		r, _ = ex.prv.Check(q.script(), 15000, false)
		if debugLoops {
			fmt.Printf("   cvc5 again %s dry %d: %.160s\n", r, ex.dry, goal)
		}
	}
	return r == "unsat"
}

func (ex *Exec) proveWith(st *State, goal *Term, ms int, inst bool) bool {
	if goal.isTrue() || st.dead || st.pcset[goal.id] {
		return true
	}
	ex.nProve++
	q := &Query{c: ex.c, as: append(append([]*Term{}, st.pc...), ex.c.Not(goal)), inst: inst}
	script := q.script()
	if inst && q.ninst == 0 {
		return false
	}
	t0 := time.Now()
	r, _ := ex.feas.Check(script, ms, false)
	if d := time.Since(t0); debugLoops && d > 300*time.Millisecond {
		fmt.Printf("   slow %s %.1fs dry %d: %.160s\n", r, d.Seconds(), ex.dry, goal)
	}
	if debugLoops && r != "unsat" {
		os.WriteFile(fmt.Sprintf("/tmp/d/prove-%d-%s.smt2", ex.nProve, r), []byte(q.script()+"\n(check-sat)\n"), 0644)
	}
	return r == "unsat"
}

// ---- memory

func (ex *Exec) deref(st *State, p Val, what string) *PtrV {
	switch x := p.(type) {
	case *PtrV:
		if x.obj == 0 {
			ex.safe(st, "nil dereference: "+what, ex.c.False())
			st.dead = true
			return nil
		}
		return x
	case *RefV:
		return ex.derefRef(st, x, what)
	case nil:
		fail("deref of nil Val: %s", what)
	}
	fail("deref %T (%s)", p, what)
	return nil
}

func (ex *Exec) derefRef(st *State, x *RefV, what string) *PtrV {
	c := ex.c
	if x.t.op == "newref" {
		if v := ex.refVal(x.t, x.typ); v != nil {
			if p, ok := v.(*PtrV); ok {
				return ex.deref(st, p, what)
			}
		}
	}
	_, known := st.refObj[x.t.id]
	var hook *Harness
	if x.t.op == "app" && strings.HasPrefix(x.t.s, "payload.") && !known {
		hook = ex.w.unfolds[strings.TrimPrefix(x.t.s, "payload.")]
	}
	if ex.spec == 0 && hook == nil {
		ex.safe(st, "nil dereference: "+what, c.Not(c.Eq(x.t, ex.nilRef())))
	}
	if st.dead {
		return nil
	}
	if o, ok := st.refObj[x.t.id]; ok {
		return &PtrV{obj: o}
	}
	if hook != nil {
		// what is known of a node, when it is first looked into
		p := ex.derefNew(st, x)
		ex.spec++
		ex.runFunc(hook.fn, []Val{&RefV{x.t.args[0], hook.fn.Params[0].Type()}, x}, nil, st, nil, nil, nil)
		ex.spec--
		if ex.spec == 0 {
			ex.safe(st, "nil dereference: "+what, c.Not(c.Eq(x.t, ex.nilRef())))
		}
		if st.dead {
			return nil
		}
		return p
	}
	return ex.derefNew(st, x)
}

func (ex *Exec) derefNew(st *State, x *RefV) *PtrV {
	var el types.Type
	switch u := x.typ.Underlying().(type) {
	case *types.Pointer:
		el = u.Elem()
	default:
		fail("deref of %s", x.typ)
	}
	if x.t.bnd {
		fail("deref of a bound reference")
	}
	o := st.alloc(el, nil, fmt.Sprintf("*%s", x.t))
	o.lazy = true
	o.fresh = false
	n0 := ex.c.n
	o.v = ex.symbolic(st, el, "*"+trimName(x.t.String()))
	o.init = o.v
	if b, ok := ex.c.birthOf(x.t); ok {
		// what it points to is as old as the pointer
		valTerms(o.v, func(t *Term) {
			if t.op == "var" && t.id > n0 {
				ex.c.birth[t.id] = b
			}
		})
	}
	st.refObj[x.t.id] = o.id
	ex.termOfObj[o.id] = x.t
	return &PtrV{obj: o.id}
}

func trimName(s string) string {
	if len(s) > 30 {
		s = s[:30]
	}
	return s
}

func (ex *Exec) loadPtr(st *State, p *PtrV) Val {
	o := st.heap[p.obj]
	if o == nil {
		fail("load of unknown object %d", p.obj)
	}
	v := o.v
	for _, s := range p.path {
		v = ex.loadStep(st, v, s)
	}
	return v
}

func (ex *Exec) loadStep(st *State, v Val, s Step) Val {
	c := ex.c
	switch x := v.(type) {
	case *StructV:
		return x.fields[s.field]
	case *ArrV:
		if x.seq != nil {
			return ex.reflectV(st, c.At(x.seq, s.idx), x.elem)
		}
		if s.idx.op == "int" {
			k := s.idx.i.Int64()
			if k < 0 || k >= int64(len(x.vec)) {
				st.dead = true
				return ex.zero(x.elem)
			}
			return x.vec[k]
		}
		r := x.vec[len(x.vec)-1]
		for k := len(x.vec) - 2; k >= 0; k-- {
			r = ex.merge(st, c.Eq(s.idx, c.Int(int64(k))), x.vec[k], r, x.elem)
		}
		return r
	}
	fail("loadStep %T", v)
	return nil
}

func (ex *Exec) storeStep(st *State, v Val, path []Step, nv Val) Val {
	c := ex.c
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch x := v.(type) {
	case *StructV:
		n := &StructV{append([]Val{}, x.fields...)}
		n.fields[s.field] = ex.storeStep(st, x.fields[s.field], path[1:], nv)
		return n
	case *ArrV:
		if x.seq != nil {
			old := ex.reflectV(st, c.At(x.seq, s.idx), x.elem)
			e := ex.storeStep(st, old, path[1:], nv)
			return &ArrV{elem: x.elem, seq: c.Upd(x.seq, s.idx, ex.reify(st, e, x.elem))}
		}
		n := &ArrV{elem: x.elem, vec: append([]Val{}, x.vec...)}
		if s.idx.op == "int" {
			k := s.idx.i.Int64()
			if k < 0 || k >= int64(len(x.vec)) {
				st.dead = true
				return v
			}
			n.vec[k] = ex.storeStep(st, x.vec[k], path[1:], nv)
			return n
		}
		for k := range n.vec {
			n.vec[k] = ex.merge(st, c.Eq(s.idx, c.Int(int64(k))), ex.storeStep(st, x.vec[k], path[1:], nv), x.vec[k], x.elem)
		}
		return n
	}
	fail("storeStep %T", v)
	return nil
}

func (ex *Exec) storePtr(st *State, p *PtrV, nv Val) {
	if st.dead {
		return
	}
	o := st.heap[p.obj]
	if len(o.alias) > 0 && len(p.path) > 0 && p.path[0].field < 0 {
		ex.aliasWrite(st, o, p.path[0].idx, map[int]bool{o.id: true})
		o = st.heap[p.obj]
	}
	st.set(p.obj, ex.storeStep(st, o.v, p.path, nv))
}

// a write at idx of object o may be a write to an aliasing object
func (ex *Exec) aliasWrite(st *State, o *Obj, idx *Term, seen map[int]bool) {
	c := ex.c
	for _, a := range o.alias {
		if seen[a.obj] {
			continue
		}
		seen[a.obj] = true
		p := st.heap[a.obj]
		if p == nil {
			continue
		}
		if ex.prove(st, c.Le(a.limit, idx), 500) {
			ex.aliasWrite(st, p, idx, seen)
			continue
		}
		// smash the aliasing object
		ex.smashed = true
		av := p.v.(*ArrV)
		n := c.Fresh("smash", c.Seq(ex.sortOf(av.elem)))
		st.assume(c, c.Eq(c.Len(n), c.Len(ex.arrSeq(st, av))))
		st.set(p.id, &ArrV{elem: av.elem, seq: n})
		ex.aliasWrite(st, p, idx, seen)
	}
}

// merge builds "if cond then a else b".
type mergeErr struct{ s string }

func (ex *Exec) merge(st *State, cond *Term, a, b Val, t types.Type) Val {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if r, ok := ex.tryMerge(st, cond, a, b, t); ok {
		return r
	}
	x, y := ex.reify(st, a, t), ex.reify(st, b, t)
	return ex.reflectV(st, ex.c.Ite(cond, x, y), t)
}

func (ex *Exec) tryMerge(st *State, cond *Term, a, b Val, t types.Type) (Val, bool) {
	c := ex.c
	if ident(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return c.Ite(cond, x, y), true
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			u := t.Underlying().(*types.Struct)
			n := &StructV{}
			for i := range x.fields {
				f, ok := ex.tryMerge(st, cond, x.fields[i], y.fields[i], u.Field(i).Type())
				if !ok {
					return nil, false
				}
				n.fields = append(n.fields, f)
			}
			return n, true
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.obj == y.obj && len(x.path) == len(y.path) {
			n := &PtrV{obj: x.obj}
			for i := range x.path {
				if x.path[i].field != y.path[i].field {
					return nil, false
				}
				s := x.path[i]
				if s.field < 0 {
					s.idx = c.Ite(cond, s.idx, y.path[i].idx)
				}
				n.path = append(n.path, s)
			}
			return n, true
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if x.base.obj == y.base.obj && len(x.base.path) == 0 && len(y.base.path) == 0 {
				return &SliceV{base: x.base, off: c.Ite(cond, x.off, y.off), len: c.Ite(cond, x.len, y.len), cap: c.Ite(cond, x.cap, y.cap), isnil: c.Ite(cond, x.isnil, y.isnil)}, true
			}
			return nil, false
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			if v, ok := ex.tryMerge(st, cond, x.v, y.v, x.typ); ok {
				return &IfaceV{x.typ, v}, true
			}
		}
		if y, ok := b.(*IfaceV); ok && x.typ == nil && y.typ == nil {
			return x, true
		}
	case *RefV:
		if y, ok := b.(*RefV); ok {
			if x.t == y.t {
				return x, true
			}
			return &RefV{c.Ite(cond, x.t, y.t), x.typ}, true
		}
	case *MapV:
		if y, ok := b.(*MapV); ok && !x.conc && !y.conc {
			return &MapV{typ: x.typ, present: c.Ite(cond, x.present, y.present), val: c.Ite(cond, x.val, y.val), size: c.Ite(cond, x.size, y.size)}, true
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			if x.seq == nil && y.seq == nil && len(x.vec) == len(y.vec) {
				n := &ArrV{elem: x.elem}
				for i := range x.vec {
					f, ok := ex.tryMerge(st, cond, x.vec[i], y.vec[i], x.elem)
					if !ok {
						return nil, false
					}
					n.vec = append(n.vec, f)
				}
				return n, true
			}
		}
	case TupleV:
		if y, ok := b.(TupleV); ok {
			tt, _ := t.(*types.Tuple)
			var n TupleV
			for i := range x {
				var et types.Type
				if tt != nil {
					et = tt.At(i).Type()
				}
				f, ok := ex.tryMerge(st, cond, x[i], y[i], et)
				if !ok {
					return nil, false
				}
				n = append(n, f)
			}
			return n, true
		}
	}
	return nil, false
}

// ---- calling functions

const maxDepth = 60

func (ex *Exec) runFunc(fn *ssa.Function, args []Val, binds []Val, st *State, caller *Frame, h *HFrame, box *PanBox) []Outcome {
	if fn.Blocks == nil {
		fail("no body: %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, binds: binds, names: map[string]Val{}, h: h, unroll: map[*ssa.BasicBlock]int{}, panBox: box, caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > maxDepth {
		fail("call depth: %s (recursion without a contract?)", fn)
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = binds[i]
	}
	outs, backs, exits := ex.region([]cfg{{fr, st, fn.Blocks[0]}}, nil)
	if len(backs)+len(exits) > 0 {
		fail("region")
	}
	return outs
}

// region executes from the given configurations until the function returns or
// control leaves loop L (exits) or reaches its header again (backs).
func (ex *Exec) region(start []cfg, L *Loop) (outs []Outcome, backs, exits []cfg) {
	work := append([]cfg{}, start...)
	if len(start) == 0 {
		return
	}
	li := ex.w.loops(start[0].fr.fn)
	first := L != nil
	for len(work) > 0 {
		// lowest block in reverse post order first
		bi := 0
		for i := range work {
			if li.rpo[work[i].blk.Index] < li.rpo[work[bi].blk.Index] {
				bi = i
			}
		}
		cf := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		if cf.st.dead {
			continue
		}
		ex.paths++
		if M := li.header[cf.blk.Index]; M != nil && M != L {
			o, es := ex.doLoop(cf, M)
			outs = append(outs, o...)
			for _, e := range es {
				if L != nil && e.blk == L.head {
					backs = append(backs, e)
				} else if L != nil && !L.blocks[e.blk.Index] {
					exits = append(exits, e)
				} else {
					work = append(work, e)
				}
			}
			continue
		}
		_ = first
		for _, r := range ex.block(cf) {
			if r.out != nil {
				outs = append(outs, *r.out)
				continue
			}
			if r.c.st.dead {
				continue
			}
			if L != nil && r.c.blk == L.head {
				backs = append(backs, r.c)
			} else if L != nil && !L.blocks[r.c.blk.Index] {
				exits = append(exits, r.c)
			} else {
				merged := false
				for i := range work {
					if work[i].blk == r.c.blk {
						m, ok := ex.mergeCfg(work[i], r.c)
						if !ok {
							m, ok = ex.joinCfg(work[i], r.c)
						}
						if ok {
							work[i] = m
							merged = true
							break
						}
					}
				}
				if !merged {
					work = append(work, r.c)
				}
			}
		}
	}
	return
}

type blockRes struct {
	out *Outcome
	c   cfg
}

// mergeHeaps joins two states; the returned condition selects the first.
func (ex *Exec) mergeHeaps(a, b *State, max int) (*State, *Term, bool) {
	if a.wild != b.wild || !sameLocks(a.locks, b.locks) || !slices.Equal(a.splits, b.splits) {
		return nil, nil, false
	}
	var hd []int
	for k, o := range a.heap {
		p := b.heap[k]
		if p == nil {
			if o.lazy && o.v != o.init {
				return nil, nil, false
			}
			continue
		}
		if p != o && p.v != o.v {
			hd = append(hd, k)
		}
	}
	for k, p := range b.heap {
		if a.heap[k] == nil && p.lazy && p.v != p.init {
			return nil, nil, false
		}
	}
	if len(hd) > 3 {
		return nil, nil, false
	}
	for k, v := range a.refObj {
		if w, ok := b.refObj[k]; ok && w != v {
			return nil, nil, false
		}
	}
	for k, v := range a.ghosts {
		w, ok := b.ghosts[k]
		if ok && w != v || !ok && k[0] == 0 {
			return nil, nil, false
		}
	}
	for k := range b.ghosts {
		if _, ok := a.ghosts[k]; !ok && k[0] == 0 {
			return nil, nil, false
		}
	}
	// common prefix of path conditions
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	ca, fa := ex.suffix(a, n)
	cb, fb := ex.suffix(b, n)
	if termSize(ca)+termSize(cb) > max {
		return nil, nil, false
	}
	sort.Ints(hd)
	hv := map[int]Val{}
	for _, k := range hd {
		if a.heap[k].typ == nil {
			return nil, nil, false
		}
		m, ok := ex.tryMerge(a, ca, a.heap[k].v, b.heap[k].v, a.heap[k].typ)
		if !ok {
			return nil, nil, false
		}
		hv[k] = m
	}
	st := a.clone()
	for k, p := range b.heap {
		if st.heap[k] == nil {
			st.heap[k] = p
		}
	}
	for k, v := range b.refObj {
		st.refObj[k] = v
	}
	for k, v := range b.ghosts {
		st.ghosts[k] = v
	}
	for k, v := range hv {
		st.set(k, v)
	}
	st.pc = nil
	st.pcset = map[int]bool{}
	for _, t := range a.pc[:n] {
		st.assume(ex.c, t)
	}
	for _, t := range append(fa, fb...) {
		st.fact(ex.c, t)
	}
	st.assume(ex.c, ex.c.Or(ca, cb))
	return st, ca, true
}

// mergeCfg joins two configurations at the same block when their heaps and
// environments differ in few simple values only.
func (ex *Exec) mergeCfg(a, b cfg) (cfg, bool) {
	if len(a.fr.defers) != len(b.fr.defers) || a.fr.h != b.fr.h {
		return a, false
	}
	st, ca, ok := ex.mergeHeaps(a.st, b.st, 60)
	if !ok {
		return a, false
	}
	live := ex.w.liveIn(a.fr.fn, a.blk)
	diff := map[ssa.Value]Val{}
	for k, v := range a.fr.env {
		w, ok := b.fr.env[k]
		if !live[k] {
			continue
		}
		if !ok {
			return a, false
		}
		if ident(v, w) {
			continue
		}
		x, ok1 := v.(*Term)
		y, ok2 := w.(*Term)
		if !ok1 || !ok2 {
			if sameVal(v, w) {
				continue
			}
			m, ok := ex.tryMerge(st, ca, v, w, k.Type())
			if !ok {
				return a, false
			}
			diff[k] = m
			continue
		}
		diff[k] = ex.c.Ite(ca, x, y)
	}
	if len(diff) > 6 {
		return a, false
	}
	fr := a.fr.clone()
	for k := range fr.env {
		if _, ok := b.fr.env[k]; !ok {
			delete(fr.env, k)
		}
	}
	for k, v := range diff {
		fr.env[k] = v
	}
	fr.names = map[string]Val{}
	for k, v := range a.fr.names {
		if w, ok := b.fr.names[k]; ok && sameVal(v, w) {
			fr.names[k] = v
		}
	}
	return cfg{fr, st, a.blk}, true
}

// suffix splits the path condition from position n into branch conditions and
// facts about fresh terms.
func (ex *Exec) suffix(st *State, n int) (*Term, []*Term) {
	var br, fs []*Term
	for _, t := range st.pc[n:] {
		if st.facts[t.id] {
			fs = append(fs, t)
		} else {
			br = append(br, t)
		}
	}
	return ex.c.And(br...), fs
}

func termSize(t *Term) int {
	n := 0
	seen := map[int]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t.id] || n > 1000 {
			return
		}
		seen[t.id] = true
		n++
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
	return n
}

// goTo performs the edge from one block to another: phis are evaluated here.
func (ex *Exec) goTo(fr *Frame, st *State, from, to *ssa.BasicBlock, succ ...int) cfg {
	idx := -1
	last := len(succ) > 0 && succ[0] == 1
	for i, p := range to.Preds {
		if p == from && (idx < 0 || last) {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, ex.val(fr, st, p.Edges[idx]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
		if p.Comment != "" {
			fr.names[p.Comment] = vals[i]
		}
	}
	return cfg{fr, st, to}
}

func (ex *Exec) block(cf cfg) []blockRes {
	// run the instructions; calls may fork
	return ex.instrs(cf.fr, cf.st, cf.blk, 0)
}

func (ex *Exec) instrs(fr *Frame, st *State, blk *ssa.BasicBlock, i int) []blockRes {
	c := ex.c
	for ; i < len(blk.Instrs); i++ {
		if st.dead {
			return nil
		}
		ex.steps++
		if ex.steps&15 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
			fail("out of time")
		}
		if ex.steps > ex.stepLimit {
			fail("step limit")
		}
		in := blk.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			ex.curPos = ex.pos(in)
		}
		ex.curSt = st
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			if id, ok := x.Expr.(*ast.Ident); ok && !x.IsAddr {
				fr.names[id.Name] = ex.val(fr, st, x.X)
			}
			continue
		case *ssa.Jump:
			return []blockRes{{c: ex.goTo(fr, st, blk, blk.Succs[0])}}
		case *ssa.If:
			cond, ok := ex.val(fr, st, x.Cond).(*Term)
			if !ok {
				fail("if condition %T", ex.val(fr, st, x.Cond))
			}
			if ex.probe == blk {
				ex.probe = nil
				ex.probeCond = cond
				return nil
			}
			ft := cond.isTrue() || !cond.isFalse() && ex.feasible(st, cond)
			ff := cond.isFalse() || !cond.isTrue() && (!ft || ex.feasible(st, c.Not(cond)))
			var rs []blockRes
			if ft && ff {
				fr2, st2 := fr.clone(), st.clone()
				st2.assume(c, c.Not(cond))
				st2.trace = append(st2.trace, ex.curPos+":else")
				st.trace = append(st.trace, ex.curPos+":then")
				st.assume(c, cond)
				rs = append(rs, blockRes{c: ex.goTo(fr, st, blk, blk.Succs[0], 0)})
				rs = append(rs, blockRes{c: ex.goTo(fr2, st2, blk, blk.Succs[1], 1)})
			} else if ft {
				st.assume(c, cond)
				rs = append(rs, blockRes{c: ex.goTo(fr, st, blk, blk.Succs[0], 0)})
			} else {
				st.assume(c, c.Not(cond))
				rs = append(rs, blockRes{c: ex.goTo(fr, st, blk, blk.Succs[1], 1)})
			}
			return rs
		case *ssa.Return:
			var res Val
			if len(x.Results) == 1 {
				res = ex.val(fr, st, x.Results[0])
			} else {
				var tv TupleV
				for _, r := range x.Results {
					tv = append(tv, ex.val(fr, st, r))
				}
				res = tv
			}
			return []blockRes{{out: &Outcome{st: st, res: res}}}
		case *ssa.Panic:
			v := ex.val(fr, st, x.X)
			return ex.unwind(fr, st, v)
		case *ssa.RunDefers:
			outs := ex.runDefers(fr, st, nil)
			if len(outs) == 1 && outs[0].pan == nil {
				st = outs[0].st
				continue
			}
			var rs []blockRes
			for _, o := range outs {
				if o.pan != nil {
					rs = append(rs, ex.unwindNoDefers(fr, o.st, o.pan)...)
					continue
				}
				f2 := fr.clone()
				f2.defers = nil
				rs = append(rs, ex.instrs(f2, o.st, blk, i+1)...)
			}
			return rs
		case *ssa.Defer:
			fv, args := ex.callArgs(fr, st, &x.Call)
			fr.defers = append(fr.defers, Deferred{fv, &x.Call, args, x})
			continue
		case *ssa.Call:
			outs := ex.callInstr(fr, st, x)
			if len(outs) == 1 && outs[0].pan == nil {
				st = outs[0].st
				fr.env[x] = outs[0].res
				continue
			}
			var rs []blockRes
			for k, o := range outs {
				if o.st.dead {
					continue
				}
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				if o.pan != nil {
					rs = append(rs, ex.unwind(f2, o.st, o.pan)...)
					continue
				}
				f2.env[x] = o.res
				rs = append(rs, ex.instrs(f2, o.st, blk, i+1)...)
			}
			return rs
		case *ssa.TypeAssert:
			outs := ex.typeAssert(fr, st, x)
			if len(outs) == 1 {
				st = outs[0].st
				fr.env[x] = outs[0].res
				continue
			}
			var rs []blockRes
			for k, o := range outs {
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				f2.env[x] = o.res
				rs = append(rs, ex.instrs(f2, o.st, blk, i+1)...)
			}
			return rs
		case *ssa.Lookup:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				fr.env[x] = ex.mapLookup(fr, st, x)
				continue
			}
		}
		ex.simple(fr, st, in)
	}
	return nil
}

// unwind: a panic in frame fr
func (ex *Exec) unwind(fr *Frame, st *State, v Val) []blockRes {
	if len(fr.defers) == 0 {
		return []blockRes{{out: &Outcome{st: st, pan: v}}}
	}
	box := &PanBox{val: v}
	var rs []blockRes
	for _, o := range ex.runDefers(fr, st, box) {
		if o.pan != nil {
			rs = append(rs, blockRes{out: &Outcome{st: o.st, pan: o.pan}})
			continue
		}
		if rec, _ := o.res.(*Term); rec != nil && rec.isTrue() {
			// recovered: results from the recover block
			f2 := fr.clone()
			f2.defers = nil
			if fr.fn.Recover != nil {
				out, b, e := ex.region([]cfg{{f2, o.st, fr.fn.Recover}}, nil)
				if len(b)+len(e) > 0 {
					fail("recover region")
				}
				for k := range out {
					rs = append(rs, blockRes{out: &out[k]})
				}
			} else {
				var res Val
				rt := fr.fn.Signature.Results()
				if rt.Len() == 1 {
					res = ex.zero(rt.At(0).Type())
				} else {
					res = ex.zero(rt)
				}
				rs = append(rs, blockRes{out: &Outcome{st: o.st, res: res}})
			}
			continue
		}
		rs = append(rs, blockRes{out: &Outcome{st: o.st, pan: v}})
	}
	return rs
}

func (ex *Exec) unwindNoDefers(fr *Frame, st *State, v Val) []blockRes {
	return []blockRes{{out: &Outcome{st: st, pan: v}}}
}

// runDefers runs the deferred calls; res is True when the panic was recovered.
func (ex *Exec) runDefers(fr *Frame, st *State, box *PanBox) []Outcome {
	type item struct {
		st  *State
		ds  []Deferred
		box *PanBox
	}
	work := []item{{st, fr.defers, box}}
	fr.defers = nil
	var done []Outcome
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if len(it.ds) == 0 {
			rec := ex.c.Bool(it.box != nil && it.box.recovered)
			var pv Val
			if box == nil && it.box != nil && !it.box.recovered {
				pv = it.box.val
			}
			done = append(done, Outcome{st: it.st, res: rec, pan: pv})
			continue
		}
		d := it.ds[len(it.ds)-1]
		rest := it.ds[:len(it.ds)-1]
		var nb *PanBox
		if it.box != nil {
			b := *it.box
			nb = &b
		}
		for _, o := range ex.callVal(fr, it.st, d.call, d.fn, d.args, nb) {
			b2 := nb
			if nb != nil {
				b := *nb
				if r, ok := o.st.ghosts[boxKey]; ok && r == 1 {
					b.recovered = true
					delete(o.st.ghosts, boxKey)
				}
				b2 = &b
			}
			if o.pan != nil {
				b2 = &PanBox{val: o.pan}
			}
			work = append(work, item{o.st, rest, b2})
		}
	}
	return done
}

const boxKey = "\x00recovered"

// ---- values

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constant(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Global:
		return &PtrV{obj: ex.global(st, x)}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		fail("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (ex *Exec) constant(x *ssa.Const) Val {
	c := ex.c
	if x.Value == nil {
		return ex.zero(x.Type())
	}
	s := ex.sortOf(x.Type())
	switch s.k {
	case SBool:
		return c.Bool(constant.BoolVal(x.Value))
	case SInt:
		i, _ := new(big.Int).SetString(constant.ToInt(x.Value).ExactString(), 10)
		return c.IntB(i)
	case SBV:
		if isFloat(x.Type()) {
			f, _ := constant.Float64Val(x.Value)
			if s.bits == 32 {
				return c.BVu(uint64(math.Float32bits(float32(f))), 32)
			}
			return c.BVu(math.Float64bits(f), 64)
		}
		i, ok := new(big.Int).SetString(constant.ToInt(x.Value).ExactString(), 10)
		if !ok {
			fail("const %s", x)
		}
		return c.BVc(i, s.bits)
	case SSeq:
		return c.Lit(constant.StringVal(x.Value))
	}
	fail("const %s of %s", x, x.Type())
	return nil
}

func (ex *Exec) global(st *State, g *ssa.Global) int {
	id, ok := ex.globals[g]
	if !ok {
		// a variable of another module
		*st.next++
		id = *st.next
		ex.globals[g] = id
	}
	if st.heap[id] == nil {
		t := elemType(g.Type())
		var v Val
		switch t.Underlying().(type) {
		case *types.Interface, *types.Pointer:
			v = &RefV{ex.c.mk(&Term{op: "newref", sort: RefS, s: "err!" + g.String()}), t}
		default:
			v = ex.zeroExt(t, g.String())
		}
		st.heap[id] = &Obj{id: id, typ: t, v: v, init: v, name: g.String()}
	}
	return id
}

// zeroExt is the unknown content of a variable of another module.
func (ex *Exec) zeroExt(t types.Type, name string) Val {
	switch t.Underlying().(type) {
	case *types.Basic:
		return ex.c.Var("ext:"+name, ex.sortOf(t))
	case *types.Struct:
		return ex.zero(t)
	}
	return &RefV{ex.c.Var("ext:"+name, RefS), t}
}

// ---- simple instructions

func (ex *Exec) simple(fr *Frame, st *State, in ssa.Instruction) {
	c := ex.c
	get := func(v ssa.Value) Val { return ex.val(fr, st, v) }
	tm := func(v ssa.Value) *Term {
		t, ok := get(v).(*Term)
		if !ok {
			fail("%s: not a term: %T (%s)", in, get(v), ex.curPos)
		}
		return t
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		o := st.alloc(t, ex.zero(t), x.Comment)
		fr.env[x] = &PtrV{obj: o.id}
		if x.Comment != "" {
			fr.names["&"+x.Comment] = fr.env[x]
		}
	case *ssa.Store:
		p := ex.deref(st, get(x.Addr), "store")
		if p == nil {
			return
		}
		ex.checkGuard(st, p, true)
		ex.storePtr(st, p, get(x.Val))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := ex.deref(st, get(x.X), "load")
			if p == nil {
				fr.env[x] = ex.zero(x.Type())
				return
			}
			ex.checkGuard(st, p, false)
			v := ex.loadPtr(st, p)
			v = ex.normLoad(st, p, v, x.Type())
			fr.env[x] = v
		case token.NOT:
			fr.env[x] = c.Not(tm(x.X))
		case token.SUB:
			t := tm(x.X)
			if isFloat(x.Type()) {
				fr.env[x] = c.bvop("bvxor", t, c.BVc(pow2(t.sort.bits-1), t.sort.bits))
			} else if t.sort == IntS {
				fr.env[x] = c.lin(t, bm1, nil, nil, bz)
			} else {
				fr.env[x] = c.bvop("bvneg", t)
			}
		case token.XOR:
			t := tm(x.X)
			if t.sort == IntS {
				fr.env[x] = c.lin(t, bm1, nil, nil, bm1)
			} else {
				fr.env[x] = c.bvop("bvnot", t)
			}
		default:
			fail("unop %s", x)
		}
	case *ssa.BinOp:
		fr.env[x] = ex.binop(st, x.Op, get(x.X), get(x.Y), x.X.Type(), x.Y.Type())
	case *ssa.FieldAddr:
		pv := get(x.X)
		if r, ok := pv.(*RefV); ok {
			if v := ex.refVal(r.t, r.typ); v != nil {
				pv = v
			}
		}
		p := ex.deref(st, pv, "field "+fieldName(x.X.Type(), x.Field))
		if p == nil {
			fr.env[x] = &PtrV{}
			return
		}
		fr.env[x] = &PtrV{obj: p.obj, path: append(append([]Step{}, p.path...), Step{field: x.Field})}
	case *ssa.Field:
		fr.env[x] = get(x.X).(*StructV).fields[x.Field]
	case *ssa.IndexAddr:
		i := ex.toInt(tm(x.Index), x.Index.Type())
		switch b := get(x.X).(type) {
		case *SliceV:
			ex.safe(st, "index out of range", c.And(c.Le(c.Int(0), i), c.Lt(i, b.len)))
			if b.base.obj == 0 {
				st.dead = true
				fr.env[x] = &PtrV{}
				return
			}
			fr.env[x] = &PtrV{obj: b.base.obj, path: append(append([]Step{}, b.base.path...), Step{field: -1, idx: c.Add(b.off, i)})}
		default:
			p := ex.deref(st, b, "array")
			if p == nil {
				fr.env[x] = &PtrV{}
				return
			}
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			ex.safe(st, "index out of range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(n))))
			fr.env[x] = &PtrV{obj: p.obj, path: append(append([]Step{}, p.path...), Step{field: -1, idx: i})}
		}
	case *ssa.Index:
		i := ex.toInt(tm(x.Index), x.Index.Type())
		switch b := get(x.X).(type) {
		case *ArrV:
			n := x.X.Type().Underlying().(*types.Array).Len()
			ex.safe(st, "index out of range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(n))))
			fr.env[x] = ex.loadStep(st, b, Step{field: -1, idx: i})
		case *Term:
			ex.safe(st, "index out of range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(b))))
			fr.env[x] = c.At(b, i)
		default:
			fail("index %T", b)
		}
	case *ssa.Lookup: // string
		s := tm(x.X)
		i := ex.toInt(tm(x.Index), x.Index.Type())
		ex.safe(st, "index out of range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(s))))
		fr.env[x] = c.At(s, i)
	case *ssa.Slice:
		fr.env[x] = ex.slice(fr, st, x)
	case *ssa.MakeSlice:
		n := ex.toInt(tm(x.Len), x.Len.Type())
		cp := ex.toInt(tm(x.Cap), x.Cap.Type())
		ex.safe(st, "makeslice: len out of range", c.And(c.Le(c.Int(0), n), c.Le(n, cp)))
		el := x.Type().Underlying().(*types.Slice).Elem()
		fr.env[x] = ex.makeSlice(st, el, n, cp)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		o := st.alloc(x.Type(), &MapV{typ: mt, conc: true}, "map")
		fr.env[x] = &PtrV{obj: o.id}
	case *ssa.MapUpdate:
		ex.mapUpdate(st, get(x.Map), get(x.Key), get(x.Value), x.Map.Type())
	case *ssa.MakeInterface:
		fr.env[x] = ex.makeIface(st, get(x.X), x.X.Type(), x.Type())
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, get(b))
		}
		fr.env[x] = f
	case *ssa.ChangeType:
		fr.env[x] = ex.changeType(get(x.X), x.Type())
	case *ssa.ChangeInterface:
		fr.env[x] = ex.changeIface(st, get(x.X), x.X.Type(), x.Type())
	case *ssa.Convert:
		fr.env[x] = ex.convert(st, get(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = ex.convert(st, get(x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		fr.env[x] = get(x.Tuple).(TupleV)[x.Index]
	case *ssa.Range:
		mv := get(x.X)
		if t, ok := mv.(*Term); ok {
			o := st.alloc(types.Typ[types.Int], c.Int(0), "iter")
			fr.env[x] = &IterV{sym: true, cell: o.id, obj: -1}
			fr.names["\x00iter"] = t
			return
		}
		p := ex.derefMap(st, mv, x.X.Type())
		o := st.alloc(types.Typ[types.Int], c.Int(0), "iter")
		id := 0
		if p != nil {
			id = p.obj
		}
		fr.env[x] = &IterV{obj: id, cell: o.id}
	case *ssa.Next:
		fr.env[x] = ex.next(fr, st, x)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		fail("unsupported instruction %s", in)
	default:
		fail("unsupported instruction %T", in)
	}
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return ""
}

// normLoad keeps element slices loaded from a sequence as one object.
func (ex *Exec) normLoad(st *State, p *PtrV, v Val, t types.Type) Val {
	if r, ok := v.(*RefV); ok {
		return ex.refVal(r.t, t)
	}
	return v
}

func (ex *Exec) makeSlice(st *State, el types.Type, n, cp *Term) *SliceV {
	c := ex.c
	a := &ArrV{elem: el}
	if n.op == "int" && n.i.IsInt64() && n.i.Int64() <= 64 {
		for i := int64(0); i < n.i.Int64(); i++ {
			a.vec = append(a.vec, ex.zero(el))
		}
		if a.vec == nil {
			a.vec = []Val{}
		}
		if n.i.Sign() == 0 {
			a = &ArrV{elem: el, seq: c.Empty(c.Seq(ex.sortOf(el)))}
		}
	} else {
		s := c.Fresh("mk", c.Seq(ex.sortOf(el)))
		st.assume(c, c.Eq(c.Len(s), n))
		b := c.Bound("i", IntS)
		z := ex.reify(st, ex.zero(el), el)
		at := c.At(s, b)
		st.assume(c, c.Forall([]*Term{b}, c.Imp(c.And(c.Le(c.Int(0), b), c.Lt(b, n)), c.Eq(at, z)), [][]*Term{{at}}))
		a.seq = s
	}
	o := st.alloc(types.NewSlice(el), a, "make")
	return &SliceV{base: PtrV{obj: o.id}, off: c.Int(0), len: n, cap: cp, isnil: c.False()}
}

// newSlice makes a fresh slice holding the sequence.
func (ex *Exec) newSlice(st *State, el types.Type, s *Term) *SliceV {
	c := ex.c
	o := st.alloc(types.NewSlice(el), &ArrV{elem: el, seq: s}, "slice")
	n := c.Len(s)
	cp := c.Fresh("cap", IntS)
	st.fact(c, c.Le(n, cp))
	return &SliceV{base: PtrV{obj: o.id}, off: c.Int(0), len: n, cap: cp, isnil: c.False()}
}

func (ex *Exec) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	c := ex.c
	idx := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.toInt(ex.val(fr, st, v).(*Term), v.Type())
	}
	lo, hi, mx := idx(x.Low), idx(x.High), idx(x.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	switch b := ex.val(fr, st, x.X).(type) {
	case *Term: // string
		if hi == nil {
			hi = c.Len(b)
		}
		ex.safe(st, "slice bounds out of range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(b))))
		return c.SubSeq(b, lo, hi)
	case *SliceV:
		if hi == nil {
			hi = b.len
			ex.safe(st, "slice bounds out of range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi)))
		} else {
			ex.safe(st, "slice bounds out of range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, b.cap)))
			// growing into the spare capacity: content unknown
			if ex.spec == 0 && !st.dead && hi != b.len && !ex.prove(st, c.Le(hi, b.len), 300) {
				ex.safe(st, "reslice beyond length (unsupported)", c.Le(hi, b.len))
			}
		}
		cp := c.Sub(b.cap, lo)
		if mx != nil {
			cp = c.Sub(mx, lo)
		}
		return &SliceV{base: b.base, off: c.Add(b.off, lo), len: c.Sub(hi, lo), cap: cp, isnil: b.isnil}
	default:
		p := ex.deref(st, b, "slice of array")
		if p == nil {
			return ex.nilSlice()
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if hi == nil {
			hi = c.Int(n)
		}
		ex.safe(st, "slice bounds out of range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Int(n))))
		return &SliceV{base: *p, off: lo, len: c.Sub(hi, lo), cap: c.Sub(c.Int(n), lo), isnil: c.False()}
	}
}

func (ex *Exec) toInt(t *Term, typ types.Type) *Term {
	if t.sort == IntS {
		return t
	}
	return ex.c.BV2Int(t, isSigned(typ))
}

func (ex *Exec) changeType(v Val, t types.Type) Val {
	if r, ok := v.(*RefV); ok {
		return &RefV{r.t, t}
	}
	return v
}

func (ex *Exec) makeIface(st *State, v Val, from, to types.Type) Val {
	if k := valueCtor(from); k != "" && isValueIface(to) {
		return ex.c.VCtor(k, ex.reify(st, v, from))
	}
	return &IfaceV{from, v}
}

func (ex *Exec) changeIface(st *State, v Val, from, to types.Type) Val {
	if isValueIface(from) && !isValueIface(to) {
		t := v.(*Term)
		if isVCtor(t) {
			if t.op == "vnil" {
				return &IfaceV{}
			}
			return &IfaceV{ex.w.valueType(t.op), ex.reflectV(st, t.args[0], ex.w.valueType(t.op))}
		}
		return &RefV{ex.c.App("val2any", RefS, t), to}
	}
	if r, ok := v.(*RefV); ok {
		return &RefV{r.t, to}
	}
	return v
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	c := ex.c
	fs, ts := ex.sortOf(from), ex.sortOf(to)
	switch x := v.(type) {
	case *SliceV: // []byte or []rune to string
		if isString(to) {
			if fs == c.Bytes() {
				return ex.sliceSeq(st, x, from)
			}
			return c.App("runes2string", c.Bytes(), ex.sliceSeq(st, x, from))
		}
		return x
	case *Term:
		if _, ok := to.Underlying().(*types.Slice); ok { // string to []byte
			el := to.Underlying().(*types.Slice).Elem()
			if ts == c.Bytes() {
				return ex.newSlice(st, el, x)
			}
			r := c.App("string2runes", ts, x)
			return ex.newSlice(st, el, r)
		}
		if isString(to) && !isString(from) { // rune to string
			return ex.utf8(ex.toI32(x, from))
		}
		if isFloat(from) || isFloat(to) {
			return ex.convFloat(x, from, to)
		}
		if fs == ts {
			return x
		}
		if fs == IntS && ts.k == SBV {
			return c.Int2BV(x, ts.bits)
		}
		if fs.k == SBV && ts == IntS {
			if fs.bits == 64 && !isSigned(from) {
				return ex.wrapInt(c.BV2Int(c.mkSigned(x), true))
			}
			return c.BV2Int(x, isSigned(from))
		}
		if fs.k == SBV && ts.k == SBV {
			return c.Resize(x, ts.bits, isSigned(from))
		}
		return x
	}
	return ex.changeType(v, to)
}

func (c *Ctx) mkSigned(t *Term) *Term  { return t }
func (ex *Exec) wrapInt(t *Term) *Term { return t }

func (ex *Exec) toI32(x *Term, from types.Type) *Term {
	if x.sort == IntS {
		return ex.c.Int2BV(x, 32)
	}
	return ex.c.Resize(x, 32, isSigned(from))
}

func (ex *Exec) convFloat(x *Term, from, to types.Type) Val {
	c := ex.c
	fs, ts := ex.sortOf(from), ex.sortOf(to)
	if isFloat(from) && isFloat(to) {
		if fs == ts {
			return x
		}
		if fs.bits == 32 {
			return c.Fp("f32tof64", ts, x)
		}
		return c.Fp("f64tof32", ts, x)
	}
	if isFloat(to) {
		if x.sort == IntS {
			x = c.Int2BV(x, 64)
		} else if x.sort.bits < 64 {
			x = c.Resize(x, 64, isSigned(from))
		} else if !isSigned(from) {
			return c.App("u2f", ts, x)
		}
		r := c.Fp("i2f", c.BV(64), x)
		if ts.bits == 32 {
			return c.Fp("f64tof32", ts, r)
		}
		return r
	}
	if fs.bits == 32 {
		x = c.Fp("f32tof64", c.BV(64), x)
	}
	r := c.Fp("f2i", c.BV(64), x)
	if ts == IntS {
		return c.BV2Int(r, true)
	}
	return c.Resize(r, ts.bits, true)
}

// ---- floats as bit patterns

func (c *Ctx) fexp(t *Term) (mask, inf, sign *big.Int) {
	if t.sort.bits == 32 {
		return new(big.Int).SetUint64(0x7fffffff), new(big.Int).SetUint64(0x7f800000), pow2(31)
	}
	return new(big.Int).SetUint64(0x7fffffffffffffff), new(big.Int).SetUint64(0x7ff0000000000000), pow2(63)
}
func (c *Ctx) FNaN(t *Term) *Term {
	m, inf, _ := c.fexp(t)
	n := t.sort.bits
	return c.bvcmp("bvult", c.BVc(inf, n), c.bvop("bvand", t, c.BVc(m, n)))
}
func (c *Ctx) FZero(t *Term) *Term {
	m, _, _ := c.fexp(t)
	n := t.sort.bits
	return c.Eq(c.bvop("bvand", t, c.BVc(m, n)), c.BVc(bz, n))
}
func (c *Ctx) FEq(a, b *Term) *Term {
	return c.And(c.Not(c.FNaN(a)), c.Not(c.FNaN(b)), c.Or(c.Eq(a, b), c.And(c.FZero(a), c.FZero(b))))
}
func (c *Ctx) FLt(a, b *Term) *Term {
	n := a.sort.bits
	_, _, s := c.fexp(a)
	sg := func(x *Term) *Term { return c.bvcmp("bvule", c.BVc(s, n), x) }
	lt := c.Ite(sg(a), c.Ite(sg(b), c.bvcmp("bvult", b, a), c.True()), c.Ite(sg(b), c.False(), c.bvcmp("bvult", a, b)))
	return c.And(c.Not(c.FNaN(a)), c.Not(c.FNaN(b)), c.Not(c.And(c.FZero(a), c.FZero(b))), lt)
}

func (ex *Exec) binop(st *State, op token.Token, a, b Val, ta, tb types.Type) Val {
	c := ex.c
	switch op {
	case token.EQL:
		return ex.equal(st, a, b, ta, tb)
	case token.NEQ:
		return c.Not(ex.equal(st, a, b, ta, tb))
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		fail("binop %s on %T %T", op, a, b)
	}
	if isFloat(ta) {
		switch op {
		case token.LSS:
			return c.FLt(x, y)
		case token.LEQ:
			return c.Or(c.FLt(x, y), c.FEq(x, y))
		case token.GTR:
			return c.FLt(y, x)
		case token.GEQ:
			return c.Or(c.FLt(y, x), c.FEq(x, y))
		}
		ops := map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}
		if o, ok := ops[op]; ok && x.sort.bits == 64 {
			return c.Fp(o, x.sort, x, y)
		}
		fail("float op %s", op)
	}
	if isString(ta) {
		switch op {
		case token.ADD:
			return c.Cat(c.Bytes(), x, y)
		}
		l := ex.specApp(st, "vs.Lex", x, y)
		switch op {
		case token.LSS:
			return c.Lt(l, c.Int(0))
		case token.LEQ:
			return c.Le(l, c.Int(0))
		case token.GTR:
			return c.Gt(l, c.Int(0))
		case token.GEQ:
			return c.Ge(l, c.Int(0))
		}
	}
	if x.sort == BoolS {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	if op == token.SHL || op == token.SHR {
		return ex.shift(st, op, x, y, ta, tb)
	}
	if x.sort == IntS {
		if y.sort != IntS {
			fail("int op with %s", y.sort.name)
		}
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.LSS:
			return c.Lt(x, y)
		case token.LEQ:
			return c.Le(x, y)
		case token.GTR:
			return c.Gt(x, y)
		case token.GEQ:
			return c.Ge(x, y)
		case token.QUO, token.REM:
			if y.op == "int" && y.i.Sign() > 0 {
				// truncated division
				neg := c.Lt(x, c.Int(0))
				nx := c.lin(x, bm1, nil, nil, bz)
				if op == token.QUO {
					return c.Ite(neg, c.lin(c.Div(nx, y.i), bm1, nil, nil, bz), c.Div(x, y.i))
				}
				return c.Ite(neg, c.lin(c.Mod(nx, y.i), bm1, nil, nil, bz), c.Mod(x, y.i))
			}
		}
		// bit operations on int
		bx, by := c.Int2BV(x, 64), c.Int2BV(y, 64)
		r := ex.binop(st, op, bx, by, types.Typ[types.Int64], types.Typ[types.Int64])
		return c.BV2Int(r.(*Term), true)
	}
	if x.sort.k != SBV {
		fail("binop %s on sort %s", op, x.sort.name)
	}
	sg := isSigned(ta)
	pick := func(u, s string) string {
		if sg {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return c.bvop("bvadd", x, y)
	case token.SUB:
		return c.bvop("bvsub", x, y)
	case token.MUL:
		return c.bvop("bvmul", x, y)
	case token.QUO, token.REM:
		ex.safe(st, "division by zero", c.Not(c.Eq(y, c.BVu(0, y.sort.bits))))
		if op == token.QUO {
			return c.bvop(pick("bvudiv", "bvsdiv"), x, y)
		}
		return c.bvop(pick("bvurem", "bvsrem"), x, y)
	case token.AND:
		return c.bvop("bvand", x, y)
	case token.OR:
		return c.bvop("bvor", x, y)
	case token.XOR:
		return c.bvop("bvxor", x, y)
	case token.AND_NOT:
		return c.bvop("bvand", x, c.bvop("bvnot", y))
	case token.LSS:
		return c.bvcmp(pick("bvult", "bvslt"), x, y)
	case token.LEQ:
		return c.bvcmp(pick("bvule", "bvsle"), x, y)
	case token.GTR:
		return c.bvcmp(pick("bvult", "bvslt"), y, x)
	case token.GEQ:
		return c.bvcmp(pick("bvule", "bvsle"), y, x)
	}
	fail("binop %s", op)
	return nil
}

func (ex *Exec) shift(st *State, op token.Token, x, y *Term, ta, tb types.Type) Val {
	c := ex.c
	wasInt := x.sort == IntS
	if wasInt {
		if y.op == "int" && op == token.SHL && y.i.IsInt64() && y.i.Int64() < 62 {
			return c.Mul(x, c.IntB(pow2(int(y.i.Int64()))))
		}
		x = c.Int2BV(x, 64)
	}
	n := x.sort.bits
	if isSigned(tb) {
		yi := ex.toInt(y, tb)
		ex.safe(st, "negative shift", c.Le(c.Int(0), yi))
	}
	if y.sort == IntS {
		if y.op == "int" {
			if y.i.Cmp(big.NewInt(int64(n))) >= 0 {
				y = c.BVu(uint64(n), n)
			} else {
				y = c.BVc(y.i, n)
			}
		} else {
			y = c.Ite(c.Lt(y, c.Int(int64(n))), c.Int2BV(y, n), c.BVu(uint64(n), n))
		}
	} else if y.sort.bits > n {
		m := y.sort.bits
		y = c.Ite(c.bvcmp("bvult", y, c.BVu(uint64(n), m)), c.Resize(y, n, false), c.BVu(uint64(n), n))
	} else {
		y = c.Resize(y, n, false)
	}
	o := "bvshl"
	if op == token.SHR {
		o = "bvlshr"
		if isSigned(ta) {
			o = "bvashr"
		}
	}
	r := c.bvop(o, x, y)
	if wasInt {
		return c.BV2Int(r, true)
	}
	return r
}

func (ex *Exec) equal(st *State, a, b Val, ta, tb types.Type) *Term {
	c := ex.c
	if x, ok := a.(*Term); ok {
		if y, ok := b.(*Term); ok {
			if isFloat(ta) {
				return c.FEq(x, y)
			}
			if x.sort != y.sort {
				fail("equal: %s %s", x.sort.name, y.sort.name)
			}
			if x.sort == ValS {
				// Go interface equality: bytes are not comparable; nil tests only
				if x.op == "vnil" || y.op == "vnil" {
					return c.Eq(x, y)
				}
			}
			return c.Eq(x, y)
		}
		if y, ok := b.(*IfaceV); ok && x.sort == ValS {
			if y.typ == nil {
				return c.IsV("vnil", x)
			}
			return c.Eq(x, ex.reify(st, y, ta))
		}
	}
	if _, ok := b.(*Term); ok {
		if _, ok := a.(*Term); !ok {
			return ex.equal(st, b, a, tb, ta)
		}
	}
	switch x := a.(type) {
	case *SliceV:
		y := b.(*SliceV)
		if y.base.obj == 0 && y.isnil.isTrue() {
			return x.isnil
		}
		if x.base.obj == 0 && x.isnil.isTrue() {
			return y.isnil
		}
		fail("slice comparison")
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			break
		}
		u := ta.Underlying().(*types.Struct)
		var es []*Term
		for i := range x.fields {
			es = append(es, ex.equal(st, x.fields[i], y.fields[i], u.Field(i).Type(), u.Field(i).Type()))
		}
		return c.And(es...)
	case *ArrV:
		y := b.(*ArrV)
		return c.Eq(ex.arrSeq(st, x), ex.arrSeq(st, y))
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			return ex.ptrEq(x, y)
		}
		if y, ok := b.(*IfaceV); ok && y.typ != nil {
			return ex.equal(st, a, y.v, ta, y.typ)
		}
		if y, ok := b.(*FuncV); ok {
			if x.obj == 0 {
				return c.Bool(y.fn == nil && y.nat == nil)
			}
		}
	case *FuncV:
		if y, ok := b.(*PtrV); ok && y.obj == 0 {
			return c.Bool(x.fn == nil && x.nat == nil)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.typ == nil || y.typ == nil {
				return c.Bool(x.typ == nil && y.typ == nil)
			}
			if !types.Identical(x.typ, y.typ) {
				return c.False()
			}
			return ex.equal(st, x.v, y.v, x.typ, y.typ)
		}
	case *TypeV:
		if y, ok := b.(*TypeV); ok {
			return c.Bool(types.Identical(x.typ, y.typ))
		}
		if y, ok := b.(*IfaceV); ok && y.typ == nil {
			return c.False()
		}
	}
	if y, ok := b.(*TypeV); ok {
		if _, ok := a.(*TypeV); !ok {
			return ex.equal(st, y, a, tb, ta)
		}
	}
	// references
	p, q := ex.reify(st, a, ta), ex.reify(st, b, tb)
	if x, ok := a.(*RefV); ok {
		if y, ok := b.(*PtrV); ok && y.obj != 0 {
			if o, ok := st.refObj[x.t.id]; ok && len(y.path) == 0 {
				return c.Bool(o == y.obj)
			}
		}
	}
	return c.Eq(p, q)
}

func (ex *Exec) ptrEq(x, y *PtrV) *Term {
	c := ex.c
	if x.obj != y.obj || len(x.path) != len(y.path) {
		return c.False()
	}
	var es []*Term
	for i := range x.path {
		if x.path[i].field != y.path[i].field {
			return c.False()
		}
		if x.path[i].field < 0 {
			es = append(es, c.Eq(x.path[i].idx, y.path[i].idx))
		}
	}
	return c.And(es...)
}

// ---- type assertions

func (ex *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) []Outcome {
	c := ex.c
	v := ex.val(fr, st, x.X)
	at := x.AssertedType
	_, toIface := at.Underlying().(*types.Interface)
	var cond *Term // assertion succeeds
	var res func(st *State) Val
	switch y := v.(type) {
	case *Term: // types.Value
		if toIface {
			cond = c.Not(c.IsV("vnil", y))
			res = func(st *State) Val { return ex.changeIface(st, y, x.X.Type(), at) }
		} else if k := valueCtor(at); k != "" {
			cond = c.IsV(k, y)
			res = func(st *State) Val { return ex.reflectV(st, c.VSel(k, y), at) }
		} else {
			cond = c.False()
		}
	case *IfaceV:
		if y.typ == nil {
			cond = c.False()
		} else if toIface {
			cond = c.Bool(types.Implements(y.typ, at.Underlying().(*types.Interface)))
			res = func(*State) Val {
				if isValueIface(at) {
					return c.VCtor(valueCtor(y.typ), ex.reify(st, y.v, y.typ))
				}
				return y
			}
		} else {
			cond = c.Bool(types.Identical(y.typ, at))
			res = func(*State) Val { return y.v }
		}
	case *RefV:
		notNil := c.Not(c.Eq(y.t, ex.nilRef()))
		if toIface {
			switch {
			case typeStr(at) == "runtime.Error":
				cond = c.And(notNil, c.App("isRuntimeError", BoolS, y.t))
				if strings.HasPrefix(y.t.s, "err!") {
					cond = c.False()
				}
			case types.Implements(y.typ, at.Underlying().(*types.Interface)):
				cond = notNil
			case typeStr(at) == "error" && strings.HasPrefix(y.t.s, "err!"):
				cond = c.True()
			default:
				if y.t.op == "app" && y.t.s == "val2any" && isValueIface(at) {
					cond = c.Not(c.IsV("vnil", y.t.args[0]))
					res = func(*State) Val { return y.t.args[0] }
					break
				}
				cond = c.And(notNil, c.App("impl."+typeStr(at), BoolS, y.t))
			}
			if res == nil {
				res = func(*State) Val { return &RefV{y.t, at} }
			}
		} else {
			n := ex.tname(at)
			cond = c.And(notNil, c.Eq(c.App("dyn", IntS, y.t), c.Int(c.typeCode(n))))
			res = func(st *State) Val {
				return ex.reflectV(st, c.App("payload."+n, ex.sortOf(at), y.t), at)
			}
		}
	case *PtrV:
		if y.obj != 0 {
			fail("type assertion on pointer")
		}
		cond = c.False()
	case *TypeV:
		cond = c.Bool(toIface)
		res = func(*State) Val { return y }
	default:
		fail("type assertion on %T", v)
	}
	if !x.CommaOk {
		ex.safe(st, "type assertion to "+typeStr(at), cond)
		if ex.spec > 0 {
			st.assume(c, cond)
		}
		if st.dead || cond.isFalse() {
			st.dead = true
			return []Outcome{{st: st, res: ex.zero(at)}}
		}
		return []Outcome{{st: st, res: res(st)}}
	}
	no := func(st *State) Outcome {
		return Outcome{st: st, res: TupleV{ex.zero(at), c.False()}}
	}
	if cond.isFalse() {
		return []Outcome{no(st)}
	}
	if cond.isTrue() {
		return []Outcome{{st: st, res: TupleV{res(st), c.True()}}}
	}
	ft := ex.feasible(st, cond)
	ff := !ft || ex.feasible(st, c.Not(cond))
	var outs []Outcome
	if ft {
		s1 := st
		if ff {
			s1 = st.clone()
		}
		s1.assume(c, cond)
		outs = append(outs, Outcome{st: s1, res: TupleV{res(s1), c.True()}})
	}
	if ff {
		st.assume(c, c.Not(cond))
		outs = append(outs, no(st))
	}
	return outs
}

// ---- maps

func (ex *Exec) derefMap(st *State, v Val, t types.Type) *PtrV {
	switch x := v.(type) {
	case *PtrV:
		if x.obj == 0 {
			return nil
		}
		return x
	case *RefV:
		if o, ok := st.refObj[x.t.id]; ok {
			return &PtrV{obj: o}
		}
		mt := t.Underlying().(*types.Map)
		o := st.alloc(t, ex.symMap(st, mt, trimName(x.t.String())), "map")
		o.lazy, o.fresh = true, false
		st.refObj[x.t.id] = o.id
		ex.termOfObj[o.id] = x.t
		st.fact(ex.c, ex.c.Imp(ex.c.Eq(x.t, ex.nilRef()), ex.c.Eq(o.v.(*MapV).size, ex.c.Int(0))))
		return &PtrV{obj: o.id}
	}
	fail("map %T", v)
	return nil
}

func (ex *Exec) symMap(st *State, mt *types.Map, name string) *MapV {
	c := ex.c
	k, v := ex.sortOf(mt.Key()), ex.sortOf(mt.Elem())
	m := &MapV{typ: mt, present: c.Fresh(name+".p", c.Arr(k, BoolS)), val: c.Fresh(name+".v", c.Arr(k, v)), size: c.Fresh(name+".n", IntS)}
	st.fact(c, c.Le(c.Int(0), m.size))
	b := c.Bound("k", k)
	sel := c.Select(m.present, b)
	st.fact(c, c.Or(c.Not(c.Eq(m.size, c.Int(0))), c.Forall([]*Term{b}, c.Not(sel), [][]*Term{{sel}})))
	return m
}

func (ex *Exec) mapGet(st *State, m *MapV, key Val) (*Term, Val) {
	c := ex.c
	if m.conc {
		k := ex.reify(st, key, m.typ.Key())
		ok := c.False()
		var v Val = ex.zero(m.typ.Elem())
		for i := range m.keys {
			e := c.Eq(ex.reify(st, m.keys[i], m.typ.Key()), k)
			if e.isTrue() {
				return c.True(), m.vals[i]
			}
			if e.isFalse() {
				continue
			}
			ok = c.Or(ok, e)
			v = ex.merge(st, e, m.vals[i], v, m.typ.Elem())
		}
		return ok, v
	}
	k := ex.reify(st, key, m.typ.Key())
	ok := c.Select(m.present, k)
	return ok, ex.reflectV(st, c.Select(m.val, k), m.typ.Elem())
}

func (ex *Exec) mapLookup(fr *Frame, st *State, x *ssa.Lookup) Val {
	c := ex.c
	mt := x.X.Type().Underlying().(*types.Map)
	p := ex.derefMap(st, ex.val(fr, st, x.X), x.X.Type())
	var ok *Term
	var v Val
	if p == nil {
		ok, v = c.False(), ex.zero(mt.Elem())
	} else {
		ex.checkGuard(st, p, false)
		m := st.heap[p.obj].v.(*MapV)
		ok, v = ex.mapGet(st, m, ex.val(fr, st, x.Index))
		if !m.conc {
			v = ex.merge(st, ok, v, ex.zero(mt.Elem()), mt.Elem())
		}
	}
	if x.CommaOk {
		return TupleV{v, ok}
	}
	return v
}

func (ex *Exec) mapUpdate(st *State, mv, key, val Val, t types.Type) {
	c := ex.c
	p := ex.derefMap(st, mv, t)
	if p == nil {
		ex.safe(st, "assignment to nil map", c.False())
		st.dead = true
		return
	}
	ex.checkGuard(st, p, true)
	m := st.heap[p.obj].v.(*MapV)
	if m.conc {
		k := ex.reify(st, key, m.typ.Key())
		n := &MapV{typ: m.typ, conc: true, keys: append([]Val{}, m.keys...), vals: append([]Val{}, m.vals...)}
		for i := range m.keys {
			e := c.Eq(ex.reify(st, m.keys[i], m.typ.Key()), k)
			if e.isTrue() {
				n.vals[i] = val
				st.set(p.obj, n)
				return
			}
			if !e.isFalse() {
				// symbolic key: leave the concrete representation
				m = ex.symbolicMap(st, m)
				goto sym
			}
		}
		if isConst(k) || true {
			n.keys = append(n.keys, key)
			n.vals = append(n.vals, val)
			st.set(p.obj, n)
			return
		}
	}
sym:
	k := ex.reify(st, key, m.typ.Key())
	v := ex.reify(st, val, m.typ.Elem())
	was := c.Select(m.present, k)
	st.set(p.obj, &MapV{typ: m.typ, present: c.Store(m.present, k, c.True()), val: c.Store(m.val, k, v), size: c.Ite(was, m.size, c.AddK(m.size, 1))})
}

// symbolicMap turns a concrete map into array form.
func (ex *Exec) symbolicMap(st *State, m *MapV) *MapV {
	c := ex.c
	ks, vs := ex.sortOf(m.typ.Key()), ex.sortOf(m.typ.Elem())
	pa := c.ConstArr(c.Arr(ks, BoolS), c.False())
	va := c.Fresh("mapv", c.Arr(ks, vs))
	for i := range m.keys {
		k := ex.reify(st, m.keys[i], m.typ.Key())
		pa = c.Store(pa, k, c.True())
		va = c.Store(va, k, ex.reify(st, m.vals[i], m.typ.Elem()))
	}
	return &MapV{typ: m.typ, present: pa, val: va, size: c.Int(int64(len(m.keys)))}
}

func (ex *Exec) next(fr *Frame, st *State, x *ssa.Next) Val {
	c := ex.c
	it := ex.val(fr, st, x.Iter).(*IterV)
	pos := st.heap[it.cell].v.(*Term)
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		s := ex.val(fr, st, x.Iter.(*ssa.Range).X).(*Term)
		ok := c.Lt(pos, c.Len(s))
		w := c.App("nat.runelen", IntS, s, pos)
		st.fact(c, c.And(c.Le(c.Int(1), w), c.Le(w, c.Int(4))))
		st.fact(c, c.Imp(ok, c.Le(c.Add(pos, w), c.Len(s))))
		st.set(it.cell, c.Add(pos, w))
		return TupleV{ok, pos, c.App("runeat", c.BV(32), s, pos)}
	}
	if it.obj == 0 {
		return TupleV{c.False(), ex.zero(tt.At(1).Type()), ex.zero(tt.At(2).Type())}
	}
	m := st.heap[it.obj].v.(*MapV)
	zk := func(i int, v Val) Val {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return v
	}
	if m.conc && pos.op == "int" {
		k := pos.i.Int64()
		if k >= int64(len(m.keys)) {
			return TupleV{c.False(), zk(1, nil), zk(2, nil)}
		}
		st.set(it.cell, c.AddK(pos, 1))
		return TupleV{c.True(), zk(1, m.keys[k]), zk(2, m.vals[k])}
	}
	if m.conc {
		m = ex.symbolicMap(st, m)
	}
	ok := c.Fresh("next.ok", BoolS)
	st.assume(c, c.Imp(c.Eq(pos, c.Int(0)), c.Eq(ok, c.Lt(c.Int(0), m.size))))
	st.set(it.cell, c.AddK(pos, 1))
	key := ex.symbolic(st, m.typ.Key(), "next.k")
	kt := ex.reify(st, key, m.typ.Key())
	st.assume(c, c.Imp(ok, c.Select(m.present, kt)))
	return TupleV{ok, zk(1, key), zk(2, ex.reflectV(st, c.Select(m.val, kt), m.typ.Elem()))}
}

// ---- guards (lock discipline)

func (ex *Exec) checkGuard(st *State, p *PtrV, write bool) {
	if len(ex.w.monitors)+len(ex.w.guards) == 0 || ex.spec > 0 {
		return
	}
	ex.guardAccess(st, p, write)
}

var _ = sort.Ints
