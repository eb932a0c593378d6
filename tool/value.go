package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Step struct {
	field int   // -1: index
	idx   *Term // Int
}

type PtrV struct {
	obj  int // 0 = nil
	path []Step
}

type RefV struct { // symbolic pointer, interface, map, func
	t   *Term
	typ types.Type
}

type SliceV struct {
	base  PtrV // pointer to an array value; obj 0: nil slice
	off   *Term
	len   *Term
	cap   *Term
	isnil *Term
}

type StructV struct {
	fields []Val
}

type ArrV struct {
	elem types.Type
	vec  []Val
	seq  *Term // if not nil, the content
}

type IfaceV struct {
	typ types.Type // nil: nil interface
	v   Val
}

type FuncV struct {
	fn    *ssa.Function
	binds []Val
	nat   func(ex *Exec, st *State, args []Val) []Outcome
}

type MapV struct { // content of a map object
	typ     *types.Map
	present *Term // Arr K Bool; nil when concrete
	val     *Term // Arr K V
	size    *Term
	keys    []Val // concrete entries, in insertion order
	vals    []Val
	conc    bool
}

type IterV struct {
	obj  int // map object
	pos  int
	sym  bool
	cell int
}

type TupleV []Val

type TypeV struct{ typ types.Type } // reflect.Type
type ReflV struct {                 // reflect.Value
	typ  types.Type
	v    Val
	ptr  *PtrV // addressable
	zero bool
}

type Obj struct {
	id      int
	typ     types.Type // content type
	v       Val
	name    string
	alias   []Alias
	lazy    bool
	init    Val  // value when the object came into being
	fresh   bool // allocated by the code during this run
	sym     bool // its content is not known
	exposed bool // given away by Bytes
	born    int  // terms with a smaller number denote values from before
}

type Alias struct {
	obj   int
	limit *Term // writes at index >= limit do not concern obj
	fuzzy bool
}

type State struct {
	heap   map[int]*Obj
	shared bool
	pc     []*Term
	pcset  map[int]bool
	refObj map[int]int // ref term -> object
	ghosts map[string]int
	dead   bool
	next   *int
	ctx    *Ctx
	trace  []string
	splits []*Term
	locks  *lockState
	facts  map[int]bool
	wild   string
}

func (st *State) clone() *State {
	n := &State{locks: st.locks, splits: st.splits, pc: st.pc[:len(st.pc):len(st.pc)], next: st.next, ctx: st.ctx, dead: st.dead, wild: st.wild}
	n.facts = make(map[int]bool, len(st.facts)+4)
	for k := range st.facts {
		n.facts[k] = true
	}
	n.heap = make(map[int]*Obj, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pcset = make(map[int]bool, len(st.pcset)+4)
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.refObj = make(map[int]int, len(st.refObj))
	for k, v := range st.refObj {
		n.refObj[k] = v
	}
	n.ghosts = make(map[string]int, len(st.ghosts))
	for k, v := range st.ghosts {
		n.ghosts[k] = v
	}
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	return n
}

func (st *State) alloc(typ types.Type, v Val, name string) *Obj {
	*st.next++
	o := &Obj{id: *st.next, typ: typ, v: v, name: name, fresh: true, init: v, born: st.ctx.n}
	st.heap[o.id] = o
	return o
}

func (st *State) set(id int, v Val) {
	o := *st.heap[id]
	o.v = v
	st.heap[id] = &o
}

// fact records something true of freshly introduced terms on every path.
func (st *State) fact(c *Ctx, t *Term) {
	if t.op == "and" {
		for _, a := range t.args {
			st.fact(c, a)
		}
		return
	}
	if t.isTrue() || st.pcset[t.id] {
		return
	}
	st.facts[t.id] = true
	st.assume(c, t)
}

func (st *State) assume(c *Ctx, t *Term) {
	if t.isTrue() || st.pcset[t.id] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(c, a)
		}
		return
	}
	if t.isFalse() || st.pcset[c.Not(t).id] {
		st.dead = true
	}
	st.pc = append(st.pc, t)
	st.pcset[t.id] = true
}

type toolErr struct{ msg string }

func fail(f string, a ...interface{}) {
	panic(toolErr{fmt.Sprintf(f, a...)})
}

// ---- types

func isValueIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "maho/types")
}

var valueCtors = map[string]string{"BoolValue": "vbool", "Int64Value": "vint", "Float64Value": "vflt", "StringValue": "vstr", "BytesValue": "vbytes"}

func valueCtor(t types.Type) string {
	n, ok := t.(*types.Named)
	if ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "maho/types") {
		return valueCtors[n.Obj().Name()]
	}
	return ""
}

func typeStr(t types.Type) string {
	s := types.TypeString(t, nil)
	return strings.ReplaceAll(s, "github.com/leftmike/maho/", "")
}

func (ex *Exec) sortOf(t types.Type) *Sort {
	c := ex.c
	if isValueIface(t) {
		return ValS
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return BoolS
		case types.Int, types.UntypedInt:
			return IntS
		case types.Int8, types.Uint8:
			return c.BV(8)
		case types.Int16, types.Uint16:
			return c.BV(16)
		case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
			return c.BV(32)
		case types.Int64, types.Uint64, types.Uint, types.Uintptr, types.Float64, types.UntypedFloat:
			return c.BV(64)
		case types.String, types.UntypedString:
			return c.Bytes()
		case types.UnsafePointer, types.UntypedNil:
			return RefS
		}
	case *types.Slice:
		return c.Seq(ex.sortOf(u.Elem()))
	case *types.Array:
		return c.Seq(ex.sortOf(u.Elem()))
	case *types.Struct:
		var fs []*Sort
		var ns []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ex.sortOf(u.Field(i).Type()))
			ns = append(ns, u.Field(i).Name())
		}
		if len(fs) == 0 {
			fs, ns = []*Sort{BoolS}, []string{"_"}
		}
		return c.Tup(typeStr(t), fs, ns)
	}
	return RefS
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// symbolic makes an arbitrary value of a type.
func (ex *Exec) symbolic(st *State, t types.Type, name string) Val {
	c := ex.c
	if isValueIface(t) {
		return c.Fresh(name, ValS)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return &RefV{c.Fresh(name, RefS), t}
		}
		return c.Fresh(name, ex.sortOf(t))
	case *types.Slice:
		return ex.sliceOfTerm(st, c.Fresh(name, ex.sortOf(t)), t, name)
	case *types.Struct:
		s := &StructV{}
		if sp := ex.opaqueStruct(t); sp {
			return &RefV{c.Fresh(name, RefS), t}
		}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, ex.symbolic(st, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Array:
		a := &ArrV{elem: u.Elem()}
		if u.Len() <= 32 {
			for i := int64(0); i < u.Len(); i++ {
				a.vec = append(a.vec, ex.symbolic(st, u.Elem(), fmt.Sprintf("%s.%d", name, i)))
			}
		} else {
			a.seq = c.Fresh(name, ex.sortOf(t))
			st.fact(c, c.Eq(c.Len(a.seq), c.Int(u.Len())))
		}
		return a
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.symbolic(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
		}
		return tv
	}
	return &RefV{c.Fresh(name, RefS), t}
}

// structs of other modules that are never looked into
func (ex *Exec) opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if p == "reflect" && n.Obj().Name() == "StructField" || p == "strings" && (n.Obj().Name() == "Builder" || n.Obj().Name() == "Reader") || p == "bytes" && n.Obj().Name() == "Buffer" {
		return false
	}
	return !strings.HasPrefix(p, "github.com/leftmike/maho")
}

func (ex *Exec) sliceOfTerm(st *State, s *Term, t types.Type, name string) *SliceV {
	c := ex.c
	el := t.Underlying().(*types.Slice).Elem()
	if s.op == "empty" {
		o := st.alloc(types.NewSlice(el), &ArrV{elem: el, seq: s}, name)
		return &SliceV{base: PtrV{obj: o.id}, off: c.Int(0), len: c.Int(0), cap: c.Fresh("cap", IntS), isnil: c.Fresh("isnil", BoolS)}
	}
	o := st.alloc(types.NewSlice(el), &ArrV{elem: el, seq: s}, name)
	o.fresh = false
	cp := c.Fresh("cap."+name, IntS)
	n := c.Len(s)
	st.fact(c, c.Le(n, cp))
	nilT := c.App("isnil."+s.sort.name, BoolS, s)
	st.fact(c, c.Imp(nilT, c.Eq(n, c.Int(0))))
	return &SliceV{base: PtrV{obj: o.id}, off: c.Int(0), len: n, cap: cp, isnil: nilT}
}

func (ex *Exec) zero(t types.Type) Val {
	c := ex.c
	if isValueIface(t) {
		return c.VCtor("vnil", nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := ex.sortOf(t)
		switch s.k {
		case SBool:
			return c.False()
		case SInt:
			return c.Int(0)
		case SBV:
			return c.BVu(0, s.bits)
		case SSeq:
			return c.Empty(s)
		}
		return &PtrV{}
	case *types.Slice:
		return ex.nilSlice()
	case *types.Struct:
		if ex.opaqueStruct(t) {
			return &RefV{c.App("zero."+typeStr(t), RefS), t}
		}
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, ex.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			a.vec = append(a.vec, ex.zero(u.Elem()))
		}
		return a
	case *types.Interface:
		return &IfaceV{}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.zero(u.At(i).Type()))
		}
		return tv
	}
	return &PtrV{}
}

func (ex *Exec) nilSlice() *SliceV {
	c := ex.c
	return &SliceV{off: c.Int(0), len: c.Int(0), cap: c.Int(0), isnil: c.True()}
}

func (ex *Exec) nilRef() *Term { return ex.c.mk(&Term{op: "newref", sort: RefS, s: "ref!nil"}) }

// reify turns a value into a term.
func (ex *Exec) reify(st *State, v Val, t types.Type) *Term {
	c := ex.c
	switch x := v.(type) {
	case *Term:
		return x
	case *StructV:
		u := t.Underlying().(*types.Struct)
		var fs []*Term
		for i, f := range x.fields {
			fs = append(fs, ex.reify(st, f, u.Field(i).Type()))
		}
		if len(fs) == 0 {
			fs = []*Term{c.True()}
		}
		return c.MkTup(ex.sortOf(t), fs...)
	case *SliceV:
		return ex.sliceSeq(st, x, t)
	case *ArrV:
		return ex.arrSeq(st, x)
	case *RefV:
		return x.t
	case *PtrV:
		if x.obj == 0 {
			return ex.nilRef()
		}
		if len(x.path) == 0 {
			if id := ex.refTermOf(st, x.obj); id != nil {
				return id
			}
			r := c.mk(&Term{op: "newref", sort: RefS, s: fmt.Sprintf("ref!%d", x.obj)})
			ex.refOfObj[r.id] = x.obj
			if o := st.heap[x.obj]; o != nil && o.fresh {
				c.birth[r.id] = o.born
			}
			return r
		}
		nm := fmt.Sprintf("ref!%d", x.obj)
		for _, s := range x.path {
			if s.field >= 0 {
				nm += fmt.Sprintf(".%d", s.field)
			} else if s.idx.op == "int" {
				nm += "[" + s.idx.i.String() + "]"
			} else {
				nm += fmt.Sprintf("[t%d]", s.idx.id)
			}
		}
		r := c.mk(&Term{op: "newref", sort: RefS, s: nm})
		ex.ptrOfRef[r.id] = x
		return r
	case *IfaceV:
		if x.typ == nil {
			if isValueIface(t) {
				return c.VCtor("vnil", nil)
			}
			return ex.nilRef()
		}
		if k := valueCtor(x.typ); k != "" && isValueIface(t) {
			return c.VCtor(k, ex.reify(st, x.v, x.typ))
		}
		return c.App("mk."+ex.tname(x.typ), RefS, ex.reify(st, x.v, x.typ))
	case *FuncV:
		if x.fn == nil && x.nat == nil {
			return ex.nilRef()
		}
		nm := fmt.Sprintf("func!%p", x)
		if x.fn != nil && len(x.binds) == 0 {
			nm = "func!" + x.fn.String()
		}
		r := c.mk(&Term{op: "newref", sort: RefS, s: nm})
		ex.funcOfRef[r.id] = x
		return r
	case *TypeV:
		return c.mk(&Term{op: "newref", sort: RefS, s: "type!" + typeStr(x.typ)})
	}
	fail("reify %T", v)
	return nil
}

func (ex *Exec) tname(t types.Type) string {
	s := typeStr(t)
	ex.typeByName[s] = t
	c := ex.c
	_ = c
	return s
}

// the symbolic term an object was materialised from, if any
func (ex *Exec) refTermOf(st *State, obj int) *Term { return ex.termOfObj[obj] }

func (ex *Exec) arrSeq(st *State, a *ArrV) *Term {
	if a.seq != nil {
		return a.seq
	}
	s := ex.c.Seq(ex.sortOf(a.elem))
	var ps []*Term
	for _, e := range a.vec {
		ps = append(ps, ex.c.Unit(ex.reify(st, e, a.elem)))
	}
	return ex.c.Cat(s, ps...)
}

func (ex *Exec) sliceSeq(st *State, s *SliceV, t types.Type) *Term {
	c := ex.c
	so := ex.sortOf(t)
	if s.base.obj == 0 {
		return c.Empty(so)
	}
	a := ex.loadPtr(st, &s.base).(*ArrV)
	if a.vec != nil && s.off.op == "int" && s.len.op == "int" {
		lo, n := s.off.i.Int64(), s.len.i.Int64()
		if lo >= 0 && lo+n <= int64(len(a.vec)) {
			return ex.arrSeq(st, &ArrV{elem: a.elem, vec: a.vec[lo : lo+n]})
		}
	}
	return c.SubSeq(ex.arrSeq(st, a), s.off, c.Add(s.off, s.len))
}

// reflectV turns a term into a value of a type.
func (ex *Exec) reflectV(st *State, x *Term, t types.Type) Val {
	c := ex.c
	if isValueIface(t) {
		return x
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return &RefV{x, t}
		}
		return x
	case *types.Slice:
		// a slice taken out of a value: the value does not see writes to it, so
		// there must not be any
		sv := ex.sliceOfTerm(st, x, t, "the contents of a value")
		if o := st.heap[sv.base.obj]; o != nil {
			o.lazy, o.init = true, o.v
		}
		return sv
	case *types.Struct:
		if ex.opaqueStruct(t) {
			return &RefV{x, t}
		}
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, ex.reflectV(st, c.Sel(x, i), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			a.vec = append(a.vec, ex.reflectV(st, c.At(x, c.Int(i)), u.Elem()))
		}
		return a
	}
	return ex.refVal(x, t)
}

// refVal resolves reference constants to what they denote.
func (ex *Exec) refVal(x *Term, t types.Type) Val {
	if x == ex.nilRef() {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return &IfaceV{}
		}
		return &PtrV{}
	}
	if o, ok := ex.refOfObj[x.id]; ok {
		return &PtrV{obj: o}
	}
	if p, ok := ex.ptrOfRef[x.id]; ok {
		return p
	}
	if f, ok := ex.funcOfRef[x.id]; ok {
		return f
	}
	if x.op == "app" && strings.HasPrefix(x.s, "mk.") {
		if ty, ok := ex.typeByName[x.s[3:]]; ok {
			if st := ex.curSt; st != nil {
				return &IfaceV{ty, ex.reflectV(st, x.args[0], ty)}
			}
		}
	}
	return &RefV{x, t}
}
