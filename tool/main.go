package main

import (
	"cmp"
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (w *World) newExec(h *Harness) *Exec {
	ex := &Exec{c: NewCtx(), w: w, h: h, used: map[string]bool{}, inl: map[string]bool{}, assume: map[string]bool{}, natUse: map[string]bool{},
		refOfObj: map[int]int{}, newRef: map[int]int{}, ptrOfRef: map[int]*PtrV{}, funcOfRef: map[int]*FuncV{}, termOfObj: map[int]*Term{}, typeByName: map[string]types.Type{},
		feasCache: map[string]bool{}, globals: map[*ssa.Global]int{}, labels: map[string]bool{}, notes: map[string]bool{}, vac: map[string]bool{},
		ghostRef: map[string]*Term{}, stepLimit: 20000000}
	if h != nil && h.opts["fuel"] != "" {
		fmt.Sscan(h.opts["fuel"], &ex.c.fuel)
	}
	if h != nil {
		ex.c.fuels = map[string]int{}
		for _, f := range strings.Fields(h.opts["fuels"]) {
			if i := strings.Index(f, "="); i > 0 {
				n := 0
				fmt.Sscan(f[i+1:], &n)
				ex.c.fuels[f[:i]] = n
			}
		}
	}
	ex.feas = NewSolver("z3-new", "-in")
	ex.prv = NewSolver("cvc5", "--lang=smt2", "--incremental")
	return ex
}

// boot runs the package initialisers.
func (ex *Exec) boot() {
	n := 0
	st := &State{heap: map[int]*Obj{}, pcset: map[int]bool{}, refObj: map[int]int{}, ghosts: map[string]int{}, facts: map[int]bool{}, next: &n, ctx: ex.c}
	for _, p := range ex.w.pkgs {
		names := make([]string, 0, len(p.Members))
		for nm := range p.Members {
			names = append(names, nm)
		}
		sort.Strings(names)
		for _, nm := range names {
			if g, ok := p.Members[nm].(*ssa.Global); ok {
				t := elemType(g.Type())
				o := st.alloc(t, ex.zero(t), g.Name())
				ex.globals[g] = o.id
			}
		}
	}
	ex.base = st
	ex.spec, ex.dry, ex.booting = 1, 1, true
	for _, p := range ex.w.pkgs {
		if p.Pkg.Path() == "vs" || p.Func("init") == nil {
			continue
		}
		if !ex.w.imports(ex.h, p.Pkg) {
			continue // not part of a program that contains the code under contract
		}
		snapshot := st.clone()
		func() {
			defer func() {
				if r := recover(); r != nil {
					te, ok := r.(toolErr)
					if !ok {
						panic(r)
					}
					ex.assume["package initialiser of "+p.Pkg.Path()+" not executed ("+te.msg+"): its globals are arbitrary"] = true
					st = snapshot
					for _, m := range p.Members {
						if g, ok := m.(*ssa.Global); ok {
							st.set(ex.globals[g], ex.symbolic(st, elemType(g.Type()), g.Name()))
						}
					}
				}
			}()
			outs := ex.runFunc(p.Func("init"), nil, nil, st, nil, nil, nil)
			if len(outs) != 1 || outs[0].pan != nil {
				fail("initialiser forks")
			}
			st = outs[0].st
		}()
	}
	ex.spec, ex.dry, ex.booting = 0, 0, false
	for g := range ex.w.mutCont {
		id := ex.globals[g]
		if id == 0 || ex.w.mutGlob[g] || ex.h.opts["init"] != "" {
			continue
		}
		if mt, ok := elemType(g.Type()).Underlying().(*types.Map); ok {
			if p, ok := st.heap[id].v.(*PtrV); ok && p.obj != 0 {
				st.set(p.obj, ex.symMap(st, mt, g.Name()))
				continue
			}
		}
		st.set(id, ex.symbolic(st, elemType(g.Type()), g.Name()))
	}
	for g := range ex.w.mutGlob {
		id := ex.globals[g]
		if id == 0 || ex.h.opts["init"] != "" {
			continue
		}
		t := elemType(g.Type())
		st.set(id, ex.symbolic(st, t, g.Name()))
	}
	for id, o := range st.heap {
		p := *o
		p.fresh = false
		p.init = p.v
		st.heap[id] = &p
	}
	ex.base = st
	ex.steps = 0
}

// imports: the package of the harness is p or imports it.
func (w *World) imports(h *Harness, p *types.Package) bool {
	if h == nil || h.fn == nil || h.fn.Package() == nil {
		return true
	}
	q := h.fn.Package().Pkg
	w.impMu.Lock()
	if w.impCache == nil {
		w.impCache = map[*types.Package]map[*types.Package]bool{}
	}
	m := w.impCache[q]
	w.impMu.Unlock()
	if m == nil {
		m = map[*types.Package]bool{}
		var visit func(x *types.Package)
		visit = func(x *types.Package) {
			if !m[x] {
				m[x] = true
				for _, y := range x.Imports() {
					visit(y)
				}
			}
		}
		visit(q)
		w.impMu.Lock()
		w.impCache[q] = m
		w.impMu.Unlock()
	}
	return m[p]
}

func (ex *Exec) initState() *State { return ex.base.clone() }

type Report struct {
	H       *Harness
	Obls    []*Obligation
	Err     string
	Log     []string
	Used    []string
	Inlined []string
	Assume  []string
	Natives []string
	Dur     time.Duration
	Paths   int
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		if k != "" {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// generate symbolically executes a harness and returns its obligations with
// the solver scripts.
func (w *World) generate(h *Harness) (rep *Report) {
	t0 := time.Now()
	rep = &Report{H: h}
	if h.fn == nil || h.Missing != "" {
		rep.Err = "contract does not apply: " + h.Missing
		return
	}
	ex := w.newExec(h)
	defer func() {
		rep.Obls = ex.obls
		rep.Log = ex.loopLog
		rep.Used, rep.Inlined, rep.Assume, rep.Natives = keys(ex.used), keys(ex.inl), keys(ex.assume), keys(ex.natUse)
		rep.Paths = ex.paths
		for _, o := range ex.obls {
			if o.Result == "" && o.script == "" {
				q := &Query{c: ex.c, as: append(append([]*Term{}, o.as...), ex.c.Not(o.goal))}
				o.script = q.script()
				q.inst = true
				if s := q.script(); q.ninst > 0 {
					o.script2 = s
				}
			}
			o.as = nil
		}
		rep.Dur = time.Since(t0)
		ex.feas.Close()
		ex.prv.Close()
	}()
	defer func() {
		if r := recover(); r != nil {
			if te, ok := r.(toolErr); ok {
				rep.Err = fmt.Sprintf("%s: %s", ex.curPos, te.msg)
				if os.Getenv("VT_STACK") != "" {
					rep.Err += "\n" + string(debug.Stack())
				}
				return
			}
			rep.Err = fmt.Sprintf("%s: internal: %v\n%s", ex.curPos, r, debug.Stack())
		}
	}()
	ex.boot()
	ex.verifyHarness(h)
	return
}

// ---- discharging

// deadline: obligations not discharged by then count as failed.
var deadline time.Time

func late() bool { return !deadline.IsZero() && time.Now().After(deadline) }

type stage struct {
	name string
	args []string
	ms   int
}

func stages(tier string) []stage {
	s := []stage{
		{"z3-new", []string{"z3-new", "-in"}, 4000},
		{"cvc5", []string{"cvc5", "--lang=smt2", "--incremental"}, 8000},
		{"z3", []string{"z3", "-in"}, 8000},
		{"z3-new/seed", []string{"z3-new", "-in", "smt.random_seed=7", "smt.arith.solver=2"}, 15000},
		{"z3-new/again", []string{"z3-new", "-in"}, 20000},
		{"cvc5/long", []string{"cvc5", "--lang=smt2", "--incremental"}, 30000},
	}
	if tier == "thorough" {
		s[5].ms = 60000
		s = append(s, stage{"z3-new/long", []string{"z3-new", "-in"}, 60000})
	}
	return s
}

type Pool struct {
	mu   sync.Mutex
	free map[string][]*Solver
	sem  chan bool
}

var pool = &Pool{free: map[string][]*Solver{}, sem: make(chan bool, runtime.NumCPU())}

func (p *Pool) check(sg stage, script string) (string, string) {
	p.mu.Lock()
	var s *Solver
	if l := p.free[sg.name]; len(l) > 0 {
		s = l[len(l)-1]
		p.free[sg.name] = l[:len(l)-1]
	}
	p.mu.Unlock()
	if s == nil {
		s = NewSolver(sg.args...)
	}
	r, m := s.Check(script, sg.ms, true)
	p.mu.Lock()
	p.free[sg.name] = append(p.free[sg.name], s)
	p.mu.Unlock()
	return r, m
}

func (p *Pool) close() {
	for _, l := range p.free {
		for _, s := range l {
			s.Close()
		}
	}
}

func discharge(rep *Report, tier string) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := 0
	for _, o := range rep.Obls {
		if o.Result != "" {
			continue
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			pool.sem <- true
			defer func() { <-pool.sem }()
			mu.Lock()
			f := failed
			mu.Unlock()
			if f >= 4 || late() {
				o.Result = "not tried"
				return
			}
			t0 := time.Now()
			sgs := stages(tier)
			if o.script2 != "" {
				sgs = append(sgs[:1:1], sgs...)
			}
			script := o.script
			for i, sg := range sgs {
				if i == 1 && o.script2 != "" {
					script = o.script2
				}
				r, m := pool.check(sg, script)
				o.Result, o.Solver = r, sg.name
				if r == "unsat" {
					break
				}
				if r == "sat" || o.Model == "" {
					o.Model = m
				}
				if r == "sat" && sg.name == "z3-new" && (i > 0 || o.script2 == "") {
					break
				}
				mu.Lock()
				f := failed
				mu.Unlock()
				if f >= 4 || late() {
					break
				}
			}
			o.Ms = time.Since(t0).Milliseconds()
			if o.Result != "unsat" {
				mu.Lock()
				failed++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vt check|run|list ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	switch os.Args[1] {
	case "run":
		runCmd(os.Args[2:])
	case "list":
		listCmd(os.Args[2:])
	case "falsify":
		os.Exit(falsifyCmd(os.Args[2:]))
	case "check":
		os.Exit(checkCmd(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func flags(args []string, f *flag.FlagSet) (repo, cdir *string) {
	repo = f.String("repo", "/repo", "")
	cdir = f.String("contracts", "/verif/contracts", "")
	return
}

func trunc(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func runCmd(args []string) {
	f := flag.NewFlagSet("run", flag.ExitOnError)
	repo, cdir := flags(args, f)
	verbose := f.Bool("v", false, "")
	dump := f.String("dump", "", "")
	tier := f.String("tier", "quick", "")
	f.Parse(args)
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
		dbgDump = func(script, msg string) {
			os.WriteFile(*dump+"/err.smt2", []byte(script), 0o644)
			fmt.Fprintln(os.Stderr, "solver error:", msg)
		}
	} else {
		dbgDump = func(script, msg string) { fmt.Fprintln(os.Stderr, "solver error:", msg) }
	}
	t0 := time.Now()
	w, err := LoadWorld(*repo, *cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Printf("loaded in %v\n", time.Since(t0).Round(time.Millisecond))
	for _, d := range w.Dropped {
		fmt.Println("dropped:", d)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, runtime.NumCPU())
	tot, ok := 0, 0
	for _, h := range w.hs {
		if h.Kind != "contract" && h.Kind != "lemma" && h.Kind != "theorem" {
			continue
		}
		sel := f.NArg() == 0
		for _, a := range f.Args() {
			if strings.Contains(h.Name, a) {
				sel = true
			}
			for _, p := range h.Props {
				if p == a {
					sel = true
				}
			}
		}
		if !sel {
			continue
		}
		h := h
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			rep := w.generate(h)
			<-sem
			discharge(rep, *tier)
			mu.Lock()
			defer mu.Unlock()
			tot++
			n, bad := 0, 0
			for _, o := range rep.Obls {
				if o.Result == "unsat" {
					n++
				} else {
					bad++
				}
			}
			st := "ok"
			if bad > 0 || rep.Err != "" {
				st = "FAIL"
			} else {
				ok++
			}
			fmt.Printf("%-5s %-40s %d/%d obligations, %v\n", st, h.Name, n, n+bad, rep.Dur.Round(time.Millisecond))
			if rep.Err != "" {
				fmt.Println("    error:", rep.Err)
			}
			if *verbose || st == "FAIL" {
				for _, l := range rep.Log {
					fmt.Println("    log:", l)
				}
				fmt.Println("    used:", rep.Used, "inlined:", rep.Inlined)
				if *verbose {
					for _, a := range rep.Assume {
						fmt.Println("    assume:", a)
					}
				}
			}
			shown := 0
			for i, o := range rep.Obls {
				if o.Result != "unsat" {
					shown++
				}
				if o.Result != "unsat" && (shown <= 5 && o.Result != "not tried" || *verbose) || *verbose {
					fmt.Printf("    [%s] %s %s: %s (%s %dms)\n", o.Result, o.Pos, o.Kind, o.Label, o.Solver, o.Ms)
					if *dump != "" && o.script != "" {
						fn := fmt.Sprintf("%s/%s-%d.smt2", *dump, h.Name, i)
						os.WriteFile(fn, []byte(cmp.Or(o.script2, o.script)+"(check-sat)\n"), 0o644)
						fmt.Println("       ", fn, trunc(fmt.Sprint(o.path), 300))
						if *verbose {
							fmt.Println("        goal:", o.goal)
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	pool.close()
	fmt.Printf("%d/%d harnesses, %d queries, solver %v, total %v\n", ok, tot, nQueries, time.Duration(nSolverNs).Round(time.Millisecond), time.Since(t0).Round(time.Millisecond))
}

func listCmd(args []string) {
	f := flag.NewFlagSet("list", flag.ExitOnError)
	repo, cdir := flags(args, f)
	ext := f.Bool("ext", false, "")
	f.Parse(args)
	w, err := LoadWorld(*repo, *cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	for _, h := range w.hs {
		fmt.Println(h.Kind, h.Name, h.Target, h.Props, h.Missing)
	}
	if *ext {
		ns := map[string]map[string]bool{}
		for _, p := range w.pkgs {
			var visit func(fn *ssa.Function)
			visit = func(fn *ssa.Function) {
				if fn == nil || strings.HasPrefix(w.fset.Position(fn.Pos()).Filename, *cdir) {
					return
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok {
							cc := ci.Common()
							nm := ""
							if cc.IsInvoke() {
								nm = typeStr(cc.Value.Type()) + "." + cc.Method.Name() + " (iface)"
							} else if sf := cc.StaticCallee(); sf != nil {
								if sf.Blocks == nil {
									nm = shortName(sf)
								}
							} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
								nm = "dyn " + cc.Value.Type().String()
							}
							if nm != "" {
								if ns[nm] == nil {
									ns[nm] = map[string]bool{}
								}
								ns[nm][shortName(fn)] = true
							}
						}
					}
				}
				for _, a := range fn.AnonFuncs {
					visit(a)
				}
			}
			for _, m := range p.Members {
				switch x := m.(type) {
				case *ssa.Function:
					visit(x)
				case *ssa.Type:
					for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
						ms := w.prog.MethodSets.MethodSet(t)
						for i := 0; i < ms.Len(); i++ {
							if fn := w.prog.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" {
								visit(fn)
							}
						}
					}
				}
			}
		}
		var ks []string
		for k := range ns {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c := keys(ns[k])
			if len(c) > 4 {
				c = append(c[:4], "...")
			}
			fmt.Println(k, "<-", c)
		}
	}
}
