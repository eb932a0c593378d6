package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State protected by a mutex.
//
// A function with //vs:monitor M G... says that the package variables G (and
// the content of those that are maps) are touched only while the mutex M is
// held.  Its parameters are, for each G, the value before and the value now;
// what it returns relates two states of the monitor that follow one another
// and includes whatever holds of every single state.
type Monitor struct {
	h     *Harness
	mutex *ssa.Global
	owned []*ssa.Global
}

// lockState is what a goroutine knows about the mutexes it uses.
type lockState struct {
	mode map[string]int   // mutex -> 1 read, 2 write
	acq  map[string][]Val // monitor state when it was acquired
	last map[string][]Val // monitor state when it was last seen
	objs map[int]Val      // struct with a mutex when that was acquired
}

// guard says that a field of a struct is protected by a mutex in the struct.
type guard struct {
	typ          string
	mutex, field string
}

func (l *lockState) clone() *lockState {
	n := &lockState{map[string]int{}, map[string][]Val{}, map[string][]Val{}, map[int]Val{}}
	if l != nil {
		for k, v := range l.mode {
			n.mode[k] = v
		}
		for k, v := range l.acq {
			n.acq[k] = v
		}
		for k, v := range l.objs {
			n.objs[k] = v
		}
		for k, v := range l.last {
			n.last[k] = v
		}
	}
	return n
}

func sameLocks(a, b *lockState) bool {
	if a == b {
		return true
	}
	var x, y map[string]int
	if a != nil {
		x = a.mode
	}
	if b != nil {
		y = b.mode
	}
	for k, v := range x {
		if y[k] != v {
			return false
		}
	}
	for k, v := range y {
		if x[k] != v {
			return false
		}
	}
	if len(a.clone().acq) > 0 || len(b.clone().acq) > 0 {
		return false
	}
	return true
}

func (w *World) findGlobal(name string) *ssa.Global {
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && strings.ReplaceAll(g.String(), modPath+"/", "") == name {
				return g
			}
		}
	}
	return nil
}

func (w *World) addMonitor(h *Harness) {
	f := strings.Fields(h.Target)
	m := &Monitor{h: h}
	for i, n := range f {
		g := w.findGlobal(n)
		if g == nil {
			h.Missing = "no variable " + n
			return
		}
		if i == 0 {
			m.mutex = g
		} else {
			m.owned = append(m.owned, g)
		}
	}
	w.monitors = append(w.monitors, m)
}

func (ex *Exec) lockKey(st *State, v Val) (string, *Monitor) {
	p := ex.deref(st, v, "mutex")
	if p == nil {
		return "", nil
	}
	k := fmt.Sprint(p.obj)
	for _, s := range p.path {
		k += fmt.Sprintf(".%d", s.field)
	}
	for _, m := range ex.w.monitors {
		if ex.globals[m.mutex] == p.obj && len(p.path) == 0 {
			return k, m
		}
	}
	return k, nil
}

func (ex *Exec) monSnap(st *State, m *Monitor) []Val {
	var r []Val
	for _, g := range m.owned {
		v := st.heap[ex.globals[g]].v
		t := elemType(g.Type())
		if _, ok := t.Underlying().(*types.Map); ok {
			if p := ex.derefMap(st, v, t); p != nil {
				o := st.alloc(t, st.heap[p.obj].v, g.Name()+"'")
				v = &PtrV{obj: o.id}
			}
		}
		r = append(r, v)
	}
	return r
}

func (ex *Exec) monRel(st *State, m *Monitor, old, now []Val) *Term {
	var args []Val
	for i := range old {
		args = append(args, old[i], now[i])
	}
	ex.spec++
	ex.dry++
	outs := ex.runFunc(m.h.fn, args, nil, st.clone(), nil, nil, nil)
	ex.spec--
	ex.dry--
	c := ex.c
	n0 := len(st.pc)
	var conj []*Term
	for _, o := range outs {
		if o.st.dead || o.pan != nil {
			continue
		}
		br, _ := ex.suffix(o.st, n0)
		conj = append(conj, c.Imp(br, o.res.(*Term)))
	}
	return c.And(conj...)
}

func (ex *Exec) lock(st *State, v Val, write bool) {
	k, m := ex.lockKey(st, v)
	l := st.locks.clone()
	ex.safe(st, "locking a mutex this goroutine holds already", ex.c.Bool(l.mode[k] == 0))
	l.mode[k] = 1
	if write {
		l.mode[k] = 2
	}
	if p, ok := v.(*PtrV); ok && m == nil && len(p.path) == 1 && !st.dead {
		// others may have changed what the mutex protects
		o := st.heap[p.obj]
		if sv, ok := o.v.(*StructV); ok {
			u := o.typ.Underlying().(*types.Struct)
			n := &StructV{append([]Val{}, sv.fields...)}
			for _, g := range ex.w.guards {
				if g.typ == typeStr(o.typ) && u.Field(p.path[0].field).Name() == g.mutex {
					for i := 0; i < u.NumFields(); i++ {
						if u.Field(i).Name() == g.field {
							n.fields[i] = ex.symbolic(st, u.Field(i).Type(), g.field)
							if r, ok := n.fields[i].(*RefV); ok {
								// never nil while the mutex is free: see unlock
								st.assume(ex.c, ex.c.Not(ex.c.Eq(r.t, ex.nilRef())))
							}
						}
					}
				}
			}
			st.set(p.obj, n)
			l.objs[p.obj] = n
		}
	}
	if m != nil {
		old := l.last[k]
		if old == nil {
			old = ex.monSnap(st, m)
		}
		// others may have been here
		for _, g := range m.owned {
			id := ex.globals[g]
			t := elemType(g.Type())
			if _, ok := t.Underlying().(*types.Map); ok {
				if p := ex.derefMap(st, st.heap[id].v, t); p != nil {
					st.set(p.obj, ex.symMap(st, t.Underlying().(*types.Map), g.Name()))
				}
				continue
			}
			st.set(id, ex.symbolic(st, t, g.Name()))
		}
		now := ex.monSnap(st, m)
		st.assume(ex.c, ex.monRel(st, m, old, now))
		l.acq[k] = now
	}
	st.locks = l
}

func (ex *Exec) unlock(st *State, v Val, write bool) {
	k, m := ex.lockKey(st, v)
	l := st.locks.clone()
	want := 1
	if write {
		want = 2
	}
	ex.safe(st, "unlocking a mutex that is not held", ex.c.Bool(l.mode[k] == want))
	delete(l.mode, k)
	if p, ok := v.(*PtrV); ok && m == nil && len(p.path) == 1 && !st.dead {
		o := st.heap[p.obj]
		if sv, ok := o.v.(*StructV); ok {
			u := o.typ.Underlying().(*types.Struct)
			for _, g := range ex.w.guards {
				if g.typ == typeStr(o.typ) && u.Field(p.path[0].field).Name() == g.mutex {
					for i := 0; i < u.NumFields(); i++ {
						if _, isP := u.Field(i).Type().Underlying().(*types.Pointer); isP && u.Field(i).Name() == g.field {
							ex.safe(st, g.typ+"."+g.field+" is nil when the mutex is released", ex.c.Not(ex.c.Eq(ex.reify(st, sv.fields[i], u.Field(i).Type()), ex.nilRef())))
						}
					}
				}
			}
		}
	}
	if m != nil {
		now := ex.monSnap(st, m)
		if write && l.acq[k] != nil {
			ex.oblige(st, "monitor", m.h.Name+": holds when the mutex is released", ex.monRel(st, m, l.acq[k], now))
		}
		delete(l.acq, k)
		l.last[k] = now
	}
	st.locks = l
}

// guardAccess: state of a monitor is touched.
func (ex *Exec) guardAccess(st *State, p *PtrV, write bool) {
	if o := st.heap[p.obj]; o != nil && o.typ != nil && len(p.path) > 0 && p.path[0].field >= 0 && !o.fresh {
		if u, ok := o.typ.Underlying().(*types.Struct); ok {
			for _, g := range ex.w.guards {
				if g.typ != typeStr(o.typ) || u.Field(p.path[0].field).Name() != g.field {
					continue
				}
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == g.mutex {
						what := "reading "
						if write {
							what = "writing "
						}
						ok := st.locks != nil && st.locks.mode[fmt.Sprintf("%d.%d", p.obj, i)] > 0
						ex.safe(st, what+g.typ+"."+g.field+" without its mutex", ex.c.Bool(ok))
					}
				}
			}
		}
	}
	for _, m := range ex.w.monitors {
		k := fmt.Sprint(ex.globals[m.mutex])
		for _, g := range m.owned {
			id := ex.globals[g]
			hit := p.obj == id
			t := elemType(g.Type())
			if _, ok := t.Underlying().(*types.Map); ok && !hit {
				if q, ok := st.heap[id].v.(*PtrV); ok && q.obj == p.obj {
					hit = true
				}
				if r, ok := st.heap[id].v.(*RefV); ok && st.refObj[r.t.id] == p.obj {
					hit = true
				}
				// reading the variable itself is reading where the map is: only its content changes
				if p.obj == id && !write && !ex.w.mutGlob[g] {
					hit = false
				}
			} else if hit && ok && !write && !ex.w.mutGlob[g] {
				hit = false
			}
			if hit {
				mode := 0
				if st.locks != nil {
					mode = st.locks.mode[k]
				}
				need, what := 1, "reading "
				if write {
					need, what = 2, "writing "
				}
				ex.safe(st, what+g.Name()+" without its mutex", ex.c.Bool(mode >= need))
			}
		}
	}
}

// locksReleased: at the end of a function the mutexes of monitors are free.
func (ex *Exec) locksReleased(st *State) {
	if st.locks == nil {
		return
	}
	for _, m := range ex.w.monitors {
		k := fmt.Sprint(ex.globals[m.mutex])
		if st.locks.mode[k] != 0 {
			ex.oblige(st, "safety", m.mutex.Name()+" is released", ex.c.False())
		}
	}
}

// uncovered lists functions that touch state of the monitors of a property but
// were not part of any verified harness.
func (w *World) uncovered(prop string, covered map[string]bool) []string {
	var bad []string
	for _, m := range w.monitors {
		mine := false
		for _, p := range m.h.Props {
			mine = mine || p == prop
		}
		if !mine {
			continue
		}
		own := map[*ssa.Global]bool{}
		for _, g := range m.owned {
			own[g] = true
		}
		w.eachFunc(func(f *ssa.Function) {
			if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || covered[shortName(f)] {
				return
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if g, ok := (*o).(*ssa.Global); ok && own[g] {
							if s := shortName(f) + " touches " + g.Name() + " and is not covered by a contract"; len(bad) == 0 || bad[len(bad)-1] != s {
								bad = append(bad, s)
							}
						}
					}
				}
			}
		})
	}
	sort.Strings(bad)
	return bad
}

// eachFunc visits the functions of the repository.
func (w *World) eachFunc(do func(f *ssa.Function)) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || f.Synthetic != "" {
			return
		}
		seen[f] = true
		do(f)
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, p := range w.pkgs {
		if p.Pkg.Path() == "vs" {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				if !strings.HasPrefix(fileBase(w.fset.Position(x.Pos()).Filename), "zz_") {
					visit(x)
				}
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						visit(w.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
}

func fileBase(s string) string { return s[strings.LastIndex(s, "/")+1:] }

func init() {
	for _, r := range []struct {
		name        string
		acq, writes bool
	}{
		{"(*sync.RWMutex).Lock", true, true}, {"(*sync.RWMutex).Unlock", false, true},
		{"(*sync.RWMutex).RLock", true, false}, {"(*sync.RWMutex).RUnlock", false, false},
		{"(*sync.Mutex).Lock", true, true}, {"(*sync.Mutex).Unlock", false, true},
	} {
		r := r
		natives[r.name] = func(ex *Exec, fr *Frame, st *State, args []Val) []Outcome {
			if ex.booting {
				return one(st, TupleV{}) // initialisers run before anything else
			}
			if r.acq {
				ex.lock(st, args[0], r.writes)
			} else {
				ex.unlock(st, args[0], r.writes)
			}
			return one(st, TupleV{})
		}
	}
}
