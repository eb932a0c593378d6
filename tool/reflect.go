package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Reflection on types known to the executor, strings.Builder, and functions
// on strings that are known.

var kindOf = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
	types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8,
	types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64,
	types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func reflectKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kindOf[u.Kind()]
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Array:
		return reflect.Array
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func litOf(v Val) (string, bool) {
	t, ok := v.(*Term)
	if !ok {
		return "", false
	}
	if t.op == "empty" {
		return "", true
	}
	return t.s, t.op == "lit"
}

func mustLit(v Val, what string) string {
	s, ok := litOf(v)
	if !ok {
		fail("%s of a string that is not known", what)
	}
	return s
}

func (ex *Exec) reflVal(st *State, r *ReflV) Val {
	if r.ptr != nil {
		return ex.loadPtr(st, r.ptr)
	}
	return r.v
}

func reflRecv(v Val, what string) *ReflV {
	r, ok := v.(*ReflV)
	if !ok || r.typ == nil {
		fail("%s of an unknown reflect.Value", what)
	}
	return r
}

// must: a method that panics on the wrong kind
func (ex *Exec) kindIs(st *State, r *ReflV, what string, ok bool) bool {
	if !ok {
		ex.safe(st, fmt.Sprintf("reflect.Value.%s of %s", what, r.typ), ex.c.False())
		st.dead = true
	}
	return ok
}

func init() {
	natives["reflect.TypeOf"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		x, ok := args[0].(*IfaceV)
		if !ok {
			fail("reflect.TypeOf an unknown type")
		}
		if x.typ == nil {
			return one(st, &IfaceV{})
		}
		return one(st, &TypeV{x.typ})
	}
	typ := func(f func(ex *Exec, st *State, t types.Type, args []Val) Val) natFn {
		return func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			return one(st, f(ex, st, args[0].(*TypeV).typ, args[1:]))
		}
	}
	natReflType["Kind"] = typ(func(ex *Exec, st *State, t types.Type, args []Val) Val {
		return ex.c.BVu(uint64(reflectKind(t)), 64)
	})
	natReflType["String"] = typ(func(ex *Exec, st *State, t types.Type, args []Val) Val {
		return ex.c.Lit(typeStr(t))
	})
	natReflType["Elem"] = typ(func(ex *Exec, st *State, t types.Type, args []Val) Val {
		e, ok := t.Underlying().(interface{ Elem() types.Type })
		if !ok {
			ex.safe(st, "reflect.Type.Elem of "+t.String(), ex.c.False())
			st.dead = true
			return &TypeV{t}
		}
		return &TypeV{e.Elem()}
	})
	natReflType["NumField"] = typ(func(ex *Exec, st *State, t types.Type, args []Val) Val {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			ex.safe(st, "reflect.Type.NumField of "+t.String(), ex.c.False())
			st.dead = true
			return ex.c.Int(0)
		}
		return ex.c.Int(int64(u.NumFields()))
	})
	natReflType["Size"] = typ(func(ex *Exec, st *State, t types.Type, args []Val) Val {
		return ex.c.BVu(uint64(types.SizesFor("gc", "amd64").Sizeof(t)), 64)
	})
	idx := func(v Val, what string) int {
		t, ok := v.(*Term)
		if !ok || t.op != "int" {
			fail("%s with an index that is not known", what)
		}
		return int(t.i.Int64())
	}
	natReflType["Field"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		u, ok := args[0].(*TypeV).typ.Underlying().(*types.Struct)
		if !ok {
			fail("reflect.Type.Field of %s", args[0].(*TypeV).typ)
		}
		i := idx(args[1], "reflect.Type.Field")
		if i < 0 || i >= u.NumFields() {
			ex.safe(st, "reflect.Type.Field out of range", ex.c.False())
			st.dead = true
			i = 0
		}
		ft := ex.w.extType("reflect", "StructField")
		if ft == nil {
			fail("no type reflect.StructField")
		}
		s := ex.zero(ft).(*StructV)
		fu := ft.Underlying().(*types.Struct)
		for k := 0; k < fu.NumFields(); k++ {
			switch fu.Field(k).Name() {
			case "Name":
				s.fields[k] = ex.c.Lit(u.Field(i).Name())
			case "Type":
				s.fields[k] = &TypeV{u.Field(i).Type()}
			case "Tag":
				s.fields[k] = ex.c.Lit(u.Tag(i))
			case "Anonymous":
				s.fields[k] = ex.c.Bool(u.Field(i).Anonymous())
			}
		}
		return one(st, s)
	}
	natives["(reflect.StructTag).Get"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, ex.c.Lit(reflect.StructTag(mustLit(args[0], "reflect.StructTag.Get")).Get(mustLit(args[1], "reflect.StructTag.Get"))))
	}
	natives["(reflect.StructTag).Lookup"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		v, ok := reflect.StructTag(mustLit(args[0], "reflect.StructTag.Lookup")).Lookup(mustLit(args[1], "reflect.StructTag.Lookup"))
		return one(st, TupleV{ex.c.Lit(v), ex.c.Bool(ok)})
	}

	natives["reflect.ValueOf"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		x, ok := args[0].(*IfaceV)
		if !ok || x.typ == nil {
			fail("reflect.ValueOf an unknown type")
		}
		return one(st, &ReflV{typ: x.typ, v: x.v})
	}
	natives["reflect.New"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		t, ok := args[0].(*TypeV)
		if !ok {
			fail("reflect.New of an unknown type")
		}
		o := st.alloc(t.typ, ex.zero(t.typ), "reflect.New")
		return one(st, &ReflV{typ: types.NewPointer(t.typ), v: &PtrV{obj: o.id}})
	}
	natives["reflect.Zero"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		t, ok := args[0].(*TypeV)
		if !ok {
			fail("reflect.Zero of an unknown type")
		}
		return one(st, &ReflV{typ: t.typ, v: ex.zero(t.typ)})
	}
	natives["reflect.Indirect"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		r := reflRecv(args[0], "reflect.Indirect")
		if reflectKind(r.typ) == reflect.Pointer {
			return natives["(reflect.Value).Elem"](ex, fr, st, args)
		}
		return one(st, r)
	}
	val := func(name string, f func(ex *Exec, st *State, r *ReflV, args []Val) Val) {
		natives["(reflect.Value)."+name] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			v := f(ex, st, reflRecv(args[0], "reflect.Value."+name), args[1:])
			if st.dead {
				return nil
			}
			return one(st, v)
		}
	}
	val("Elem", func(ex *Exec, st *State, r *ReflV, args []Val) Val {
		if !ex.kindIs(st, r, "Elem", reflectKind(r.typ) == reflect.Pointer) {
			return nil
		}
		p := ex.deref(st, ex.reflVal(st, r), "reflect.Value.Elem")
		return &ReflV{typ: elemType(r.typ), ptr: p}
	})
	val("Field", func(ex *Exec, st *State, r *ReflV, args []Val) Val {
		u, ok := r.typ.Underlying().(*types.Struct)
		if !ex.kindIs(st, r, "Field", ok) {
			return nil
		}
		i := idx(args[0], "reflect.Value.Field")
		if i < 0 || i >= u.NumFields() {
			ex.safe(st, "reflect.Value.Field out of range", ex.c.False())
			st.dead = true
			return nil
		}
		if r.ptr == nil {
			return &ReflV{typ: u.Field(i).Type(), v: r.v.(*StructV).fields[i]}
		}
		p := *r.ptr
		p.path = append(append([]Step{}, p.path...), Step{field: i})
		return &ReflV{typ: u.Field(i).Type(), ptr: &p}
	})
	val("NumField", func(ex *Exec, st *State, r *ReflV, args []Val) Val {
		u, ok := r.typ.Underlying().(*types.Struct)
		if !ex.kindIs(st, r, "NumField", ok) {
			return nil
		}
		return ex.c.Int(int64(u.NumFields()))
	})
	val("Kind", func(ex *Exec, st *State, r *ReflV, args []Val) Val { return ex.c.BVu(uint64(reflectKind(r.typ)), 64) })
	val("Type", func(ex *Exec, st *State, r *ReflV, args []Val) Val { return &TypeV{r.typ} })
	val("IsValid", func(ex *Exec, st *State, r *ReflV, args []Val) Val { return ex.c.True() })
	val("CanSet", func(ex *Exec, st *State, r *ReflV, args []Val) Val { return ex.c.Bool(r.ptr != nil) })
	val("IsNil", func(ex *Exec, st *State, r *ReflV, args []Val) Val {
		switch x := ex.reflVal(st, r).(type) {
		case *PtrV:
			return ex.c.Bool(x.obj == 0)
		case *RefV:
			return ex.c.Eq(x.t, ex.nilRef())
		case *SliceV:
			return x.isnil
		}
		ex.kindIs(st, r, "IsNil", false)
		return nil
	})
	get := func(name string, to types.Type, kinds ...reflect.Kind) {
		val(name, func(ex *Exec, st *State, r *ReflV, args []Val) Val {
			k, ok := reflectKind(r.typ), false
			for _, x := range kinds {
				ok = ok || x == k
			}
			if !ex.kindIs(st, r, name, ok) {
				return nil
			}
			return ex.convert(st, ex.reflVal(st, r), r.typ, to)
		})
	}
	get("Bool", types.Typ[types.Bool], reflect.Bool)
	get("Int", types.Typ[types.Int64], reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	get("Uint", types.Typ[types.Uint64], reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64)
	get("Float", types.Typ[types.Float64], reflect.Float32, reflect.Float64)
	get("String", types.Typ[types.String], reflect.String)
	val("Bytes", func(ex *Exec, st *State, r *ReflV, args []Val) Val {
		s, ok := r.typ.Underlying().(*types.Slice)
		if !ex.kindIs(st, r, "Bytes", ok && reflectKind(s.Elem()) == reflect.Uint8) {
			return nil
		}
		return ex.reflVal(st, r)
	})
	set := func(name string, from types.Type, kinds ...reflect.Kind) {
		val(name, func(ex *Exec, st *State, r *ReflV, args []Val) Val {
			k, ok := reflectKind(r.typ), false
			for _, x := range kinds {
				ok = ok || x == k
			}
			if !ex.kindIs(st, r, name, ok && r.ptr != nil) {
				return nil
			}
			ex.storePtr(st, r.ptr, ex.convert(st, args[0], from, r.typ))
			return TupleV{}
		})
	}
	set("SetBool", types.Typ[types.Bool], reflect.Bool)
	set("SetInt", types.Typ[types.Int64], reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	set("SetFloat", types.Typ[types.Float64], reflect.Float32, reflect.Float64)
	set("SetString", types.Typ[types.String], reflect.String)
	set("SetBytes", types.NewSlice(types.Typ[types.Byte]), reflect.Slice)
	val("SetZero", func(ex *Exec, st *State, r *ReflV, args []Val) Val {
		if !ex.kindIs(st, r, "SetZero", r.ptr != nil) {
			return nil
		}
		ex.storePtr(st, r.ptr, ex.zero(r.typ))
		return TupleV{}
	})
	val("Set", func(ex *Exec, st *State, r *ReflV, args []Val) Val {
		x := reflRecv(args[0], "reflect.Value.Set")
		if !ex.kindIs(st, r, "Set to "+x.typ.String(), r.ptr != nil && types.AssignableTo(x.typ, r.typ)) {
			return nil
		}
		ex.storePtr(st, r.ptr, ex.reflVal(st, x))
		return TupleV{}
	})

	// strings.Builder and bytes.Buffer, which is not read from: the buf field
	for typ, field := range map[string]int{"strings.Builder": 1, "bytes.Buffer": 0} {
		typ, field := typ, field
		buf := func(ex *Exec, st *State, p Val) (*PtrV, *Term) {
			d := ex.deref(st, p, typ)
			if d == nil {
				return nil, nil
			}
			q := *d
			q.path = append(append([]Step{}, q.path...), Step{field: field})
			s := ex.loadPtr(st, &q).(*SliceV)
			return &q, ex.sliceSeq(st, s, types.NewSlice(types.Typ[types.Byte]))
		}
		// what Bytes gave is written over
		over := func(ex *Exec, st *State, p *PtrV) {
			s := ex.loadPtr(st, p).(*SliceV)
			if o := st.heap[s.base.obj]; o != nil && o.exposed {
				st.set(s.base.obj, ex.symbolic(st, o.typ, "overwritten"))
			}
		}
		add := func(name string, f func(ex *Exec, st *State, v Val) (*Term, Val)) {
			natives["(*"+typ+")."+name] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
				p, s := buf(ex, st, args[0])
				t, res := f(ex, st, args[1])
				if p == nil {
					return one(st, res)
				}
				over(ex, st, p)
				ex.storePtr(st, p, ex.newSlice(st, types.Typ[types.Byte], ex.c.Cat(ex.c.Bytes(), s, t)))
				return one(st, res)
			}
		}
		add("WriteRune", func(ex *Exec, st *State, v Val) (*Term, Val) {
			t := ex.utf8(v.(*Term))
			return t, TupleV{ex.c.Len(t), &IfaceV{}}
		})
		add("WriteByte", func(ex *Exec, st *State, v Val) (*Term, Val) {
			return ex.c.Unit(v.(*Term)), &IfaceV{}
		})
		add("WriteString", func(ex *Exec, st *State, v Val) (*Term, Val) {
			return v.(*Term), TupleV{ex.c.Len(v.(*Term)), &IfaceV{}}
		})
		natives["(*"+typ+").String"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			p, s := buf(ex, st, args[0])
			if p == nil {
				return one(st, ex.c.Empty(ex.c.Bytes()))
			}
			return one(st, s)
		}
		natives["(*"+typ+").Len"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			p, s := buf(ex, st, args[0])
			if p == nil {
				return one(st, ex.c.Int(0))
			}
			return one(st, ex.c.Len(s))
		}
		natives["(*"+typ+").Reset"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			if p, _ := buf(ex, st, args[0]); p != nil {
				over(ex, st, p)
				ex.storePtr(st, p, ex.nilSlice())
			}
			return one(st, TupleV{})
		}
	}
	natives["(*bytes.Buffer).Bytes"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		d := ex.deref(st, args[0], "bytes.Buffer")
		if d == nil {
			return one(st, ex.nilSlice())
		}
		q := *d
		q.path = append(append([]Step{}, q.path...), Step{field: 0})
		s := ex.loadPtr(st, &q).(*SliceV)
		if o := st.heap[s.base.obj]; o != nil {
			x := *o
			x.exposed = true
			st.heap[s.base.obj] = &x
		}
		return one(st, s)
	}
	natives["(*strings.Builder).Grow"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		return one(st, TupleV{})
	}

	// strings.Reader over a string that is known
	natives["strings.NewReader"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		mustLit(args[0], "strings.NewReader")
		t := ex.w.extType("strings", "Reader")
		if t == nil {
			fail("no type strings.Reader")
		}
		u := t.Underlying().(*types.Struct)
		s := ex.zeroFields(u)
		s.fields[0] = args[0]
		o := st.alloc(t, s, "strings.Reader")
		return one(st, &PtrV{obj: o.id})
	}
	natives["(*strings.Reader).ReadRune"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		p := ex.deref(st, args[0], "strings.Reader")
		s, ok := ex.loadPtr(st, p).(*StructV)
		if !ok {
			fail("unknown strings.Reader")
		}
		str, i := mustLit(s.fields[0], "strings.Reader.ReadRune"), s.fields[1].(*Term)
		n, known := bvVal(i)
		if !known {
			fail("unknown position of strings.Reader")
		}
		if int(n) >= len(str) {
			for _, pk := range ex.w.prog.AllPackages() {
				if pk.Pkg.Path() == "io" {
					id := ex.global(st, pk.Var("EOF"))
					return one(st, TupleV{ex.c.BVu(0, 32), ex.c.Int(0), st.heap[id].v})
				}
			}
			fail("no io.EOF")
		}
		r, w := utf8.DecodeRuneInString(str[n:])
		nf := append([]Val{}, s.fields...)
		nf[1] = ex.c.BVu(n+uint64(w), 64)
		st.set(p.obj, &StructV{fields: nf})
		return one(st, TupleV{ex.c.BVu(uint64(uint32(r)), 32), ex.c.Int(int64(w)), &IfaceV{}})
	}
	natives["strings.Split"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		a := &ArrV{elem: types.Typ[types.String]}
		for _, s := range strings.Split(mustLit(args[0], "strings.Split"), mustLit(args[1], "strings.Split")) {
			a.vec = append(a.vec, ex.c.Lit(s))
		}
		n := ex.c.Int(int64(len(a.vec)))
		o := st.alloc(types.NewSlice(a.elem), a, "Split")
		return one(st, &SliceV{base: PtrV{obj: o.id}, off: ex.c.Int(0), len: n, cap: n, isnil: ex.c.False()})
	}
	atoi := natives["strconv.Atoi"]
	natives["strconv.Atoi"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		if s, ok := litOf(args[0]); ok {
			n, err := strconv.Atoi(s)
			if err != nil {
				return one(st, TupleV{ex.c.Int(int64(n)), ex.nonNilErr(st, "Atoi")})
			}
			return one(st, TupleV{ex.c.Int(int64(n)), &IfaceV{}})
		}
		return atoi(ex, fr, st, args)
	}
	natives["unicode/utf8.ValidRune"] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
		c, r := ex.c, args[0].(*Term)
		k := func(n uint64) *Term { return c.BVu(n, 32) }
		return one(st, c.And(c.bvcmp("bvule", r, k(0x10FFFF)), c.Not(c.And(c.bvcmp("bvule", k(0xD800), r), c.bvcmp("bvule", r, k(0xDFFF))))))
	}
	for n, f := range map[string]func(rune) bool{"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsLetter": unicode.IsLetter,
		"IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsNumber": unicode.IsNumber, "IsPrint": unicode.IsPrint} {
		n, f := n, f
		natives["unicode."+n] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			if r, ok := bvVal(args[0].(*Term)); ok {
				return one(st, ex.c.Bool(f(rune(r))))
			}
			if n == "IsLetter" || n == "IsDigit" || n == "IsSpace" {
				return one(st, ex.runeClass("nat.unicode."+n, f, args[0].(*Term)))
			}
			return one(st, ex.c.App("nat.unicode."+n, BoolS, args[0].(*Term)))
		}
	}
	for n, f := range map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper} {
		uf, f := natives["unicode."+n], f
		natives["unicode."+n] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			if r, ok := bvVal(args[0].(*Term)); ok {
				return one(st, ex.c.BVu(uint64(uint32(f(rune(r)))), 32))
			}
			return uf(ex, fr, st, args)
		}
	}
}

// runeClass: a class of runes is known in Latin-1, and it has no negative ones.
func (ex *Exec) runeClass(name string, f func(rune) bool, r *Term) *Term {
	c := ex.c
	in := []*Term{}
	for lo := rune(0); lo < 256; lo++ {
		if !f(lo) {
			continue
		}
		hi := lo
		for hi < 255 && f(hi+1) {
			hi++
		}
		if lo == hi {
			in = append(in, c.Eq(r, c.BVu(uint64(lo), 32)))
		} else {
			in = append(in, c.And(c.bvcmp("bvule", c.BVu(uint64(lo), 32), r), c.bvcmp("bvule", r, c.BVu(uint64(hi), 32))))
		}
		lo = hi
	}
	// the classes have no rune in common
	beyond := c.And(c.bvcmp("bvule", r, c.BVu(0x7FFFFFFF, 32)), c.App(name, BoolS, r))
	for _, n := range []string{"nat.unicode.IsLetter", "nat.unicode.IsDigit", "nat.unicode.IsSpace"} {
		if n == name {
			break
		}
		beyond = c.And(beyond, c.Not(c.App(n, BoolS, r)))
	}
	return c.Ite(c.bvcmp("bvule", r, c.BVu(255, 32)), c.Or(in...), beyond)
}

func bvVal(t *Term) (uint64, bool) {
	if t.op != "bv" {
		return 0, false
	}
	return t.i.Uint64(), true
}

// utf8 is the encoding of a rune.
func (ex *Exec) utf8(r *Term) *Term {
	if n, ok := bvVal(r); ok {
		return ex.c.Lit(string(rune(int32(n))))
	}
	return ex.c.App("utf8enc", ex.c.Bytes(), r)
}

func (ex *Exec) zeroFields(u *types.Struct) *StructV {
	s := &StructV{}
	for i := 0; i < u.NumFields(); i++ {
		s.fields = append(s.fields, ex.zero(u.Field(i).Type()))
	}
	return s
}

// extType is a type of another module.
func (w *World) extType(pkg, name string) types.Type {
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}
