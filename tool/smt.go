package main

import (
	"bufio"
	"bytes"
	"cmp"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A query: are the assertions unsatisfiable?

type Query struct {
	c     *Ctx
	as    []*Term
	light bool // feasibility: no extensionality
	inst  bool // unfold definitions in instances of what is known of all things
	ninst int
}

func (c *Ctx) flatAnd(as []*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "and" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == "not" && t.args[0].op == "or" {
			for _, a := range t.args[0].args {
				add(c.Not(a))
			}
			return
		}
		if t.isTrue() || seen[t.id] {
			return
		}
		seen[t.id] = true
		out = append(out, t)
	}
	for _, a := range as {
		add(a)
	}
	return out
}

func occurs(v, t *Term) bool {
	seen := map[int]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == v {
			return true
		}
		if len(t.args) == 0 || seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// solveEqs eliminates variables defined by top-level equalities.
func (c *Ctx) solveEqs(as []*Term) []*Term {
	for round := 0; round < 40; round++ {
		as = c.flatAnd(as)
		m := map[*Term]*Term{}
		used := map[int]bool{}
		var rest []*Term
		try := func(v, t *Term) bool {
			if v.op != "var" || m[v] != nil || used[v.id] || t.bnd {
				return false
			}
			if occurs(v, t) {
				return false
			}
			for x := range m {
				if occurs(x, t) {
					return false
				}
			}
			// v must not occur in already chosen right-hand sides
			for _, y := range m {
				if occurs(v, y) {
					return false
				}
			}
			m[v] = t
			return true
		}
		for _, a := range as {
			ok := false
			switch a.op {
			case "eq":
				x, y := a.args[0], a.args[1]
				if x.op == "var" && y.op == "var" && x.id < y.id {
					x, y = y, x
				}
				ok = try(x, y) || try(y, x)
			case "eq0":
				d := a.args[0]
				if d.op == "var" {
					ok = try(d, c.Int(0))
				} else if d.op == "lin" {
					for i := len(d.args) - 1; i >= 0 && !ok; i-- {
						x := d.args[i]
						if x.op == "var" && new(big.Int).Abs(d.ks[i]).Cmp(b1) == 0 {
							// k*x + R = 0  => x = -k*R
							r := c.lin(d, b1, x, new(big.Int).Neg(d.ks[i]), bz)
							ok = try(x, c.lin(r, new(big.Int).Neg(d.ks[i]), nil, nil, bz))
						}
					}
				}
			case "var":
				ok = try(a, c.True())
			case "not":
				if a.args[0].op == "var" {
					ok = try(a.args[0], c.False())
				}
			case "isv":
				// v is a constructor application: split
				if v := a.args[0]; v.op == "var" && a.s == "vnil" {
					ok = try(v, c.VCtor("vnil", nil))
				} else if v.op == "var" {
					ok = try(v, c.VCtor(a.s, c.Fresh("vp", c.vArg(a.s))))
				}
			}
			if !ok {
				rest = append(rest, a)
			}
			if len(m) > 30 {
				// apply in batches
			}
		}
		if len(m) == 0 {
			return as
		}
		memo := map[*Term]*Term{}
		for i, a := range rest {
			rest[i] = c.subst(a, m, memo)
			if rest[i].isFalse() {
				return []*Term{c.False()}
			}
		}
		as = rest
	}
	return c.flatAnd(as)
}

func collect(as []*Term, f func(t *Term)) {
	seen := map[int]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			w(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				w(x)
			}
		}
		f(t)
	}
	for _, a := range as {
		w(a)
	}
}

func (q *Query) prepare() []*Term {
	c := q.c
	as := c.propagate(c.solveEqs(c.skolem(c.flatAnd(q.as))))
	// unfold recursive definitions
	done := map[int]bool{}
	depth := map[int]int{}
	maxInst := 160
	if q.light {
		maxInst = 20
	}
	n, nres := 0, 0
	insts := map[string]bool{}
	for round := 0; round < 60; round++ {
		var add []*Term
		var apps []*Term
		if q.inst && round < 4 {
			if xs := c.instances(as, insts, 60); len(xs) > 0 {
				q.ninst += len(xs)
				as = c.propagate(c.skolem(c.flatAnd(append(as, xs...))))
			}
		}
		collect(as, func(t *Term) {
			if t.op == "app" && !t.bnd {
				if d := c.defs[t.s]; d != nil && d.body != nil && !done[t.id] {
					apps = append(apps, t)
				}
			}
		})
		if len(apps) == 0 {
			break
		}
		sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
		isApps := map[int]bool{}
		for _, t := range apps {
			isApps[t.id] = true
		}
		body := func(t *Term) *Term {
			d := c.defs[t.s]
			m := map[*Term]*Term{}
			for i, f := range d.formals {
				m[f] = t.args[i]
			}
			return c.Subst(d.body, m)
		}
		// those whose case is decided by what is known
		fs := c.factsOf(as)
		for _, t := range apps {
			if c.fuelOf(c.defs[t.s]) == 0 || nres >= 400 || depth[t.id] > 40 {
				continue
			}
			arg := false // an argument is about to be rewritten
			for _, a := range t.args {
				if fs.m[a] != nil {
					arg = true
				}
			}
			if arg {
				continue
			}
			b := fs.simp(body(t))
			if b.op == "ite" || b.sort.k == SBool && !b.isTrue() && !b.isFalse() {
				continue
			}
			done[t.id] = true
			nres++
			n++
			collect([]*Term{b}, func(x *Term) {
				if x.op == "app" && c.defs[x.s] != nil && !done[x.id] && !isApps[x.id] {
					if _, ok := depth[x.id]; !ok {
						depth[x.id] = depth[t.id]
					}
				}
			})
			add = append(add, c.Eq(t, b))
		}
		if len(add) > 0 {
			as = c.propagate(c.skolem(c.flatAnd(append(as, add...))))
			continue
		}
		any := false
		for _, t := range apps {
			d := c.defs[t.s]
			if depth[t.id] >= c.fuelOf(d) || n-nres >= maxInst {
				continue
			}
			done[t.id] = true
			n++
			b := body(t)
			collect([]*Term{b}, func(x *Term) {
				if x.op == "app" && c.defs[x.s] != nil && !done[x.id] && !isApps[x.id] {
					if _, ok := depth[x.id]; !ok {
						depth[x.id] = depth[t.id] + 1
					}
				}
			})
			add = append(add, c.Eq(t, b))
			any = true
		}
		if !any {
			break
		}
		as = append(as, add...)
		as = c.propagate(c.skolem(c.flatAnd(as)))
	}
	if n > 0 {
		as = c.propagate(c.solveEqs(as))
	}
	// extensionality
	if !q.light {
		done := map[[2]int]bool{}
		for round := 0; round < 3; round++ {
			var add []*Term
			ext := func(a, b *Term) {
				if a.bnd || b.bnd || a == b {
					return
				}
				k := [2]int{a.id, b.id}
				if done[k] || done[[2]int{b.id, a.id}] {
					return
				}
				done[k] = true
				sk := c.Var(fmt.Sprintf("ext!%d!%d", a.id, b.id), IntS)
				la, lb := c.Len(a), c.Len(b)
				dif := c.And(c.Le(c.Int(0), sk), c.Lt(sk, la), c.Not(c.Eq(c.At(a, sk), c.At(b, sk))))
				add = append(add, c.Or(c.mk(&Term{op: "eq", sort: BoolS, args: []*Term{a, b}}), c.Not(c.Eq(la, lb)), dif))
			}
			byFn := map[string][]*Term{}
			pos := topEqs(as)
			collect(as, func(t *Term) {
				if t.op == "eq" && t.args[0].sort.k == SSeq && !pos[t.id] {
					ext(t.args[0], t.args[1])
				}
				if t.op == "app" && !t.bnd {
					byFn[t.s] = append(byFn[t.s], t)
				}
			})
			if round == 0 {
				for _, ts := range byFn {
					cnt := 0
					for i := range ts {
						for j := 0; j < i; j++ {
							for k, a := range ts[i].args {
								b := ts[j].args[k]
								if a.sort.k == SSeq && a != b && (isCompound(a) || isCompound(b)) && cnt < 40 {
									if d := c.Sub(c.Len(a), c.Len(b)); d.op == "int" && d.i.Sign() != 0 {
										continue
									}
									cnt++
									ext(a, b)
								}
							}
						}
					}
				}
			}
			if len(add) == 0 {
				break
			}
			as = append(as, add...)
		}
	}
	return as
}

// equalities asserted at top level (positive only)
func topEqs(as []*Term) map[int]bool {
	pos := map[int]bool{}
	for _, a := range as {
		if a.op == "eq" {
			pos[a.id] = true
		}
	}
	// but not if it also occurs elsewhere
	for _, a := range as {
		if a.op == "eq" {
			continue
		}
		collect([]*Term{a}, func(t *Term) {
			if pos[t.id] {
				delete(pos, t.id)
			}
		})
	}
	return pos
}

func isCompound(t *Term) bool {
	switch t.op {
	case "cat", "sub", "unit", "lit", "empty":
		return true
	}
	return false
}

// script prints the query.
func (q *Query) script() string {
	c := q.c
	as := q.prepare()
	var facts []string
	p := &printer{c: c, names: map[int]string{}, decl: map[string]string{}, sorts: map[string]bool{}}
	// sequence facts
	done := map[int]bool{}
	var seqTerms []*Term
	bndCompound := map[*Sort]bool{}
	all := as
	lits := []*Term{}
	gather := func(ts []*Term) (added bool) {
		collect(ts, func(t *Term) {
			if t.sort.k == SSeq && !done[t.id] {
				if t.bnd {
					if isCompound(t) {
						bndCompound[t.sort] = true
					}
					done[t.id] = true
					return
				}
				done[t.id] = true
				if isCompound(t) {
					seqTerms = append(seqTerms, t)
					added = true
				}
			}
		})
		return
	}
	gather(all)
	var factTerms []*Term
	processed := 0
	for processed < len(seqTerms) {
		t := seqTerms[processed]
		processed++
		if t.op == "lit" {
			lits = append(lits, t)
		}
		// len
		lt := c.mk(&Term{op: "len", sort: IntS, args: []*Term{t}})
		fs := []*Term{c.mk(&Term{op: "eq", sort: BoolS, args: []*Term{lt, c.Len(t)}})}
		if t.op == "lit" {
			for i := 0; i < len(t.s) && i < 48; i++ {
				fs = append(fs, c.mk(&Term{op: "eq", sort: BoolS, args: []*Term{c.mk(&Term{op: "at", sort: t.sort.elem, args: []*Term{t, c.Int(int64(i))}}), c.BVu(uint64(t.s[i]), 8)}}))
			}
		} else if t.op == "unit" {
			fs = append(fs, c.mk(&Term{op: "eq", sort: BoolS, args: []*Term{c.mk(&Term{op: "at", sort: t.sort.elem, args: []*Term{t, c.Int(0)}}), t.args[0]}}))
		} else if t.op != "empty" {
			b := c.Bound("i", IntS)
			at := c.mk(&Term{op: "at", sort: t.sort.elem, args: []*Term{t, b}})
			ex := c.At(t, b)
			if at != ex {
				body := c.Or(c.Not(c.Le(c.Int(0), b)), c.Not(c.Lt(b, c.Len(t))), c.mk(&Term{op: "eq", sort: BoolS, args: []*Term{at, ex}}))
				fs = append(fs, c.Forall([]*Term{b}, body, [][]*Term{{at}}))
				// reverse direction
				pos := c.Int(0)
				for _, pc := range c.pieces(t) {
					bs, lo, hi := c.asSub(pc)
					if bs != nil && pc.op != "unit" {
						j := c.Bound("j", IntS)
						atb := c.mk(&Term{op: "at", sort: t.sort.elem, args: []*Term{bs, j}})
						idx := c.Add(c.Sub(j, lo), pos)
						at2 := c.mk(&Term{op: "at", sort: t.sort.elem, args: []*Term{t, idx}})
						body := c.Or(c.Not(c.Le(lo, j)), c.Not(c.Lt(j, hi)), c.mk(&Term{op: "eq", sort: BoolS, args: []*Term{at2, atb}}))
						if !isCompound(bs) {
							fs = append(fs, c.Forall([]*Term{j}, body, [][]*Term{{atb}}))
						}
					} else if pc.op == "unit" {
						at2 := c.mk(&Term{op: "at", sort: t.sort.elem, args: []*Term{t, pos}})
						fs = append(fs, c.mk(&Term{op: "eq", sort: BoolS, args: []*Term{at2, pc.args[0]}}))
					}
					pos = c.Add(pos, c.Len(pc))
				}
			}
		}
		factTerms = append(factTerms, fs...)
		gather(fs)
	}
	all = append(append([]*Term{}, as...), factTerms...)
	if len(all) == 0 {
		all = []*Term{c.True()}
	}
	// typed facts on newrefs: distinct
	var newrefs []*Term
	var fps []*Term
	seqSorts := map[*Sort]bool{}
	dynSeen := map[string]bool{}
	atomSeqs := map[*Term]bool{}
	collect(all, func(t *Term) {
		if t.op == "newref" {
			newrefs = append(newrefs, t)
		}
		if t.op == "fpop" {
			fps = append(fps, t)
		}
		if t.sort.k == SSeq {
			seqSorts[t.sort] = true
			if !t.bnd && !isCompound(t) {
				atomSeqs[t] = true
			}
		}
		if t.op == "app" && strings.HasPrefix(t.s, "mk.") {
			dynSeen[t.s] = true
		}
	})
	var body bytes.Buffer
	p.count(all)
	for _, a := range all {
		s := p.str(a)
		body.WriteString("(assert " + s + ")\n")
	}
	for _, f := range fps {
		if !f.bnd {
			p.fpFact(f, &body)
		}
	}
	if len(newrefs) > 1 {
		body.WriteString("(assert (distinct")
		for _, r := range newrefs {
			body.WriteString(" " + p.str(r))
		}
		body.WriteString("))\n")
	}
	bySort := map[string][]string{}
	for _, l := range lits {
		bySort[l.sort.name] = append(bySort[l.sort.name], p.str(l))
	}
	for _, ls := range bySort {
		if len(ls) > 1 {
			body.WriteString("(assert (distinct " + strings.Join(ls, " ") + "))\n")
		}
	}
	for s := range seqSorts {
		p.sort(s)
		n := s.name
		p.decl["len."+n] = fmt.Sprintf("(declare-fun len.%s (%s) Int)", n, n)
		p.decl["empty."+n] = fmt.Sprintf("(declare-const empty.%s %s)", n, n)
		facts = append(facts, fmt.Sprintf("(assert (forall ((s %s)) (! (>= (len.%s s) 0) :pattern ((len.%s s)))))", n, n, n))
		facts = append(facts, fmt.Sprintf("(assert (= (len.%s empty.%s) 0))", n, n))
		if !q.light {
			facts = append(facts, fmt.Sprintf("(assert (forall ((s %s)) (! (=> (= (len.%s s) 0) (= s empty.%s)) :pattern ((len.%s s)))))", n, n, n, n))
		}
		if bndCompound[s] {
			en := p.sort(s.elem)
			p.decl["at."+n] = fmt.Sprintf("(declare-fun at.%s (%s Int) %s)", n, n, en)
			p.decl["cat."+n] = fmt.Sprintf("(declare-fun cat.%s (%s %s) %s)", n, n, n, n)
			p.decl["sub."+n] = fmt.Sprintf("(declare-fun sub.%s (%s Int Int) %s)", n, n, n)
			p.decl["unit."+n] = fmt.Sprintf("(declare-fun unit.%s (%s) %s)", n, en, n)
			facts = append(facts,
				fmt.Sprintf("(assert (forall ((a %s) (b %s)) (! (= (len.%s (cat.%s a b)) (+ (len.%s a) (len.%s b))) :pattern ((cat.%s a b)))))", n, n, n, n, n, n, n),
				fmt.Sprintf("(assert (forall ((a %s) (b %s) (i Int)) (! (=> (and (<= 0 i) (< i (+ (len.%s a) (len.%s b)))) (= (at.%s (cat.%s a b) i) (ite (< i (len.%s a)) (at.%s a i) (at.%s b (- i (len.%s a)))))) :pattern ((at.%s (cat.%s a b) i)))))", n, n, n, n, n, n, n, n, n, n, n, n),
				fmt.Sprintf("(assert (forall ((a %s) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len.%s a))) (= (len.%s (sub.%s a l h)) (- h l))) :pattern ((sub.%s a l h)))))", n, n, n, n, n),
				fmt.Sprintf("(assert (forall ((a %s) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len.%s a)) (<= 0 i) (< i (- h l))) (= (at.%s (sub.%s a l h) i) (at.%s a (+ l i)))) :pattern ((at.%s (sub.%s a l h) i)))))", n, n, n, n, n, n, n),
				fmt.Sprintf("(assert (forall ((x %s)) (! (and (= (len.%s (unit.%s x)) 1) (= (at.%s (unit.%s x) 0) x)) :pattern ((unit.%s x)))))", en, n, n, n, n, n))
		}
	}
	for k := range dynSeen {
		// dyn and payload of constructors
		arg := ""
		for _, t := range c.tab {
			if t.op == "app" && t.s == k {
				arg = p.sort(t.args[0].sort)
				break
			}
		}
		p.decl["dyn"] = "(declare-fun dyn (Ref) Int)"
		fn := k
		facts = append(facts, fmt.Sprintf("(assert (forall ((x %s)) (! (= (dyn (%s x)) %d) :pattern ((%s x)))))", arg, p.sym(fn), c.typeCode(k[3:]), p.sym(fn)))
		p.decl["payload."+k[3:]] = fmt.Sprintf("(declare-fun %s (Ref) %s)", p.sym("payload."+k[3:]), arg)
		facts = append(facts, fmt.Sprintf("(assert (forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x)))))", arg, p.sym("payload."+k[3:]), p.sym(fn), p.sym(fn)))
	}
	var out bytes.Buffer
	out.WriteString("(declare-sort Ref 0)\n")
	p.emitSorts(&out)
	var ks []string
	for k := range p.decl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out.WriteString(p.decl[k] + "\n")
	}
	sort.Strings(facts)
	for _, f := range facts {
		out.WriteString(f + "\n")
	}
	out.Write(p.defs.Bytes())
	out.Write(body.Bytes())
	return out.String()
}

type printer struct {
	c     *Ctx
	names map[int]string
	decl  map[string]string
	sorts map[string]bool
	sortl []*Sort
	refs  map[int]int
	defs  bytes.Buffer
	nfp   int
}

func (p *printer) sym(s string) string { return "|" + strings.ReplaceAll(s, "|", "!") + "|" }

func (p *printer) sort(s *Sort) string {
	if !p.sorts[s.name] {
		p.sorts[s.name] = true
		switch s.k {
		case SSeq:
			p.sort(s.elem)
		case SArr:
			p.sort(s.key)
			p.sort(s.elem)
		case STup:
			for _, f := range s.fields {
				p.sort(f)
			}
		case SVal:
			p.sort(p.c.Bytes())
		}
		p.sortl = append(p.sortl, s)
	}
	return s.name
}

func (p *printer) emitSorts(w io.Writer) {
	for _, s := range p.sortl {
		switch s.k {
		case SSeq:
			fmt.Fprintf(w, "(declare-sort %s 0)\n", s.name)
		case SVal:
			fmt.Fprintf(w, "(declare-datatypes ((Val 0)) (((vnil) (vbool (vboolx Bool)) (vint (vintx (_ BitVec 64))) (vflt (vfltx (_ BitVec 64))) (vstr (vstrx Seq.b8)) (vbytes (vbytesx Seq.b8)))))\n")
		case STup:
			fmt.Fprintf(w, "(declare-datatypes ((%s 0)) (((mk.%s", s.name, s.name)
			for i, f := range s.fields {
				fmt.Fprintf(w, " (%s.%d %s)", s.name, i, f.name)
			}
			fmt.Fprintf(w, "))))\n")
		}
	}
}

func (p *printer) count(as []*Term) {
	p.refs = map[int]int{}
	var w func(t *Term)
	w = func(t *Term) {
		p.refs[t.id]++
		if p.refs[t.id] > 1 {
			return
		}
		for _, a := range t.args {
			w(a)
		}
		for _, x := range t.pats {
			for _, y := range x {
				w(y)
			}
		}
	}
	for _, a := range as {
		w(a)
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t.id]; ok {
		return n
	}
	s := p.raw(t)
	if !t.bnd && len(t.args) > 0 && p.refs[t.id] > 1 {
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, p.sort(t.sort), s)
		p.names[t.id] = n
		return n
	}
	if len(s) < 200 || !t.bnd {
		p.names[t.id] = s
	}
	return s
}

func intStr(i *big.Int) string {
	if i.Sign() < 0 {
		return "(- " + new(big.Int).Neg(i).String() + ")"
	}
	return i.String()
}

func (p *printer) args(t *Term) string {
	var b strings.Builder
	for _, a := range t.args {
		b.WriteString(" ")
		b.WriteString(p.str(a))
	}
	return b.String()
}

func (p *printer) raw(t *Term) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return intStr(t.i)
	case "bv":
		return fmt.Sprintf("(_ bv%s %d)", t.i, t.sort.bits)
	case "var", "newref":
		n := p.sym(t.s)
		p.decl["v:"+t.s+t.sort.name] = fmt.Sprintf("(declare-const %s %s)", n, p.sort(t.sort))
		return n
	case "bound":
		p.sort(t.sort)
		return p.sym(t.s)
	case "lit":
		n := p.sym(fmt.Sprintf("lit:%d:%.20s", t.id, sanit(t.s)))
		p.decl["v:"+n] = fmt.Sprintf("(declare-const %s %s)", n, p.sort(t.sort))
		return n
	case "empty":
		n := "empty." + t.sort.name
		p.decl[n] = fmt.Sprintf("(declare-const %s %s)", n, p.sort(t.sort))
		return n
	case "app":
		n := p.sym(t.s)
		if len(t.args) == 0 {
			p.decl[t.s] = fmt.Sprintf("(declare-const %s %s)", n, p.sort(t.sort))
			return n
		}
		var as []string
		for _, a := range t.args {
			as = append(as, p.sort(a.sort))
		}
		if t.s == "dyn" {
			n = "dyn"
		}
		p.decl[t.s] = fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(as, " "), p.sort(t.sort))
		return "(" + n + p.args(t) + ")"
	case "lin":
		var b strings.Builder
		b.WriteString("(+")
		for i, a := range t.args {
			s := p.str(a)
			if t.ks[i].Cmp(b1) == 0 {
				b.WriteString(" " + s)
			} else {
				b.WriteString(" (* " + intStr(t.ks[i]) + " " + s + ")")
			}
		}
		b.WriteString(" " + intStr(t.i) + ")")
		return b.String()
	case "imul":
		return "(*" + p.args(t) + ")"
	case "mod", "div":
		return "(" + t.op + p.args(t) + " " + t.i.String() + ")"
	case "ge0":
		return "(>= " + p.str(t.args[0]) + " 0)"
	case "eq0":
		return "(= " + p.str(t.args[0]) + " 0)"
	case "eq":
		return "(=" + p.args(t) + ")"
	case "int2bv":
		return fmt.Sprintf("((_ int2bv %d)%s)", t.sort.bits, p.args(t))
	case "bv2int":
		return "(bv2nat" + p.args(t) + ")"
	case "sbv2int":
		x := p.str(t.args[0])
		n := t.args[0].sort.bits
		return fmt.Sprintf("(let ((x!b %s)) (ite (= ((_ extract %d %d) x!b) #b1) (- (bv2nat x!b) %s) (bv2nat x!b)))", x, n-1, n-1, pow2(n))
	case "zext":
		return fmt.Sprintf("((_ zero_extend %d)%s)", t.sort.bits-t.args[0].sort.bits, p.args(t))
	case "sext":
		return fmt.Sprintf("((_ sign_extend %d)%s)", t.sort.bits-t.args[0].sort.bits, p.args(t))
	case "trunc":
		return fmt.Sprintf("((_ extract %d 0)%s)", t.sort.bits-1, p.args(t))
	case "vnil":
		p.sort(ValS)
		return "vnil"
	case "isv":
		p.sort(ValS)
		return fmt.Sprintf("((_ is %s)%s)", t.s, p.args(t))
	case "vsel":
		p.sort(ValS)
		return fmt.Sprintf("(%sx%s)", t.s, p.args(t))
	case "tup":
		p.sort(t.sort)
		return "(mk." + t.sort.name + p.args(t) + ")"
	case "sel":
		p.sort(t.args[0].sort)
		return "(" + t.args[0].sort.name + "." + t.s + p.args(t) + ")"
	case "constarr":
		return "((as const " + p.sort(t.sort) + ")" + p.args(t) + ")"
	case "len":
		s := t.args[0].sort
		p.decl["len."+s.name] = fmt.Sprintf("(declare-fun len.%s (%s) Int)", s.name, p.sort(s))
		return "(len." + s.name + p.args(t) + ")"
	case "at":
		s := t.args[0].sort
		p.decl["at."+s.name] = fmt.Sprintf("(declare-fun at.%s (%s Int) %s)", s.name, p.sort(s), p.sort(s.elem))
		return "(at." + s.name + p.args(t) + ")"
	case "unit":
		s := t.sort
		p.decl["unit."+s.name] = fmt.Sprintf("(declare-fun unit.%s (%s) %s)", s.name, p.sort(s.elem), p.sort(s))
		return "(unit." + s.name + p.args(t) + ")"
	case "sub":
		s := t.sort
		p.decl["sub."+s.name] = fmt.Sprintf("(declare-fun sub.%s (%s Int Int) %s)", s.name, p.sort(s), s.name)
		return "(sub." + s.name + p.args(t) + ")"
	case "cat":
		s := t.sort
		p.decl["cat."+s.name] = fmt.Sprintf("(declare-fun cat.%s (%s %s) %s)", s.name, p.sort(s), s.name, s.name)
		r := p.str(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			r = "(cat." + s.name + " " + p.str(t.args[i]) + " " + r + ")"
		}
		return r
	case "forall":
		var b strings.Builder
		b.WriteString("(forall (")
		for _, v := range t.qv {
			fmt.Fprintf(&b, "(%s %s)", p.sym(v.s), p.sort(v.sort))
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! " + p.str(t.args[0]))
			for _, x := range t.pats {
				b.WriteString(" :pattern (")
				for _, y := range x {
					b.WriteString(p.str(y) + " ")
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(p.str(t.args[0]))
		}
		b.WriteString(")")
		return b.String()
	case "fpop":
		n := p.sym(fmt.Sprintf("fp!%d", t.id))
		p.decl["v:"+n] = fmt.Sprintf("(declare-const %s %s)", n, p.sort(t.sort))
		return n
	}
	return "(" + t.op + p.args(t) + ")"
}

// facts about floating point operations on bit patterns
func (p *printer) fpFact(t *Term, w io.Writer) {
	n := p.str(t)
	fp := func(x string) string { return "((_ to_fp 11 53) " + x + ")" }
	a := make([]string, len(t.args))
	for i, x := range t.args {
		a[i] = p.str(x)
	}
	isnan := func(x string) string { return "(fp.isNaN " + fp(x) + ")" }
	switch t.s {
	case "i2f": // int64 -> float64
		fmt.Fprintf(w, "(assert (= %s ((_ to_fp 11 53) RNE %s)))\n", fp(n), a[0])
		fmt.Fprintf(w, "(assert (not (= %s (_ bv%s 64))))\n", n, pow2(63))
	case "f2i":
		fmt.Fprintf(w, "(assert (=> (and (fp.leq %s %s) (fp.lt %s %s)) (= %s ((_ fp.to_sbv 64) RTZ %s))))\n",
			fp("(_ bv14114281232179134464 64)"), fp(a[0]), fp(a[0]), fp("(_ bv4890909195324358656 64)"), n, fp(a[0]))
	case "add", "sub", "mul", "div":
		fmt.Fprintf(w, "(assert (= %s (fp.%s RNE %s %s)))\n", fp(n), t.s, fp(a[0]), fp(a[1]))
	case "f32tof64":
		fmt.Fprintf(w, "(assert (= %s ((_ to_fp 11 53) RNE ((_ to_fp 8 24) %s))))\n", fp(n), a[0])
	case "f64tof32":
		fmt.Fprintf(w, "(assert (= ((_ to_fp 8 24) %s) ((_ to_fp 8 24) RNE %s)))\n", n, fp(a[0]))
	default:
		panic("fp " + t.s)
	}
	_ = isnan
}

// ---- solver processes

type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	args []string
	dead bool
}

var nQueries, nSolverNs int64

func NewSolver(args ...string) *Solver {
	s := &Solver{args: args}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.dead = false
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Check returns sat, unsat or unknown.
func (s *Solver) Check(script string, ms int, model bool) (string, string) {
	t0 := time.Now()
	atomic.AddInt64(&nQueries, 1)
	defer func() { atomic.AddInt64(&nSolverNs, int64(time.Since(t0))) }()
	if s.dead {
		s.start()
	}
	timer := time.AfterFunc(time.Duration(ms+2000)*time.Millisecond, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	var b bytes.Buffer
	if strings.Contains(s.args[0], "z3") {
		fmt.Fprintf(&b, "(reset)\n(set-option :timeout %d)\n", ms)
	} else {
		fmt.Fprintf(&b, "(set-option :tlimit-per %d)\n(set-logic ALL)\n", ms)
	}
	b.WriteString(script)
	b.WriteString("(check-sat)\n(echo \"<<done>>\")\n")
	go func(data []byte, in io.WriteCloser) { in.Write(data) }(b.Bytes(), s.in)
	res := "unknown"
	var msg strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.cmd.Wait()
			s.dead = true
			return "unknown", "solver died or timed out"
		}
		l = strings.TrimSpace(l)
		if strings.Contains(l, "<<done>>") {
			break
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
		} else if l != "" {
			msg.WriteString(l + "\n")
			if strings.Contains(l, "error") {
				if dbgDump != nil {
					dbgDump(script, l)
				}
			}
		}
	}
	m := msg.String()
	if model && res != "unsat" {
		io.WriteString(s.in, "(get-model)\n(echo \"<<done>>\")\n")
		var mb strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				s.dead = true
				s.cmd.Wait()
				break
			}
			if strings.Contains(l, "<<done>>") {
				break
			}
			mb.WriteString(l)
		}
		m += mb.String()
	}
	if !strings.Contains(s.args[0], "z3") {
		s.Close()
		s.dead = true
	}
	return res, m
}

var dbgDump func(script, msg string)
var solverMu sync.Mutex

func (c *Ctx) fuelOf(d *RecDef) int {
	if n, ok := c.fuels[d.name[strings.LastIndex(d.name, ".")+1:]]; ok {
		return n
	}
	return max(d.fuel, c.fuel)
}

// What a list of assertions states outright.
type factSet struct {
	c     *Ctx
	m     map[*Term]*Term
	lits  map[int]bool
	bound map[string]*big.Int // linear form -> it is at least this
	isvOf map[int]string
	eqs   [][2]*Term
}

func (c *Ctx) factsOf(as []*Term) *factSet {
	fs := &factSet{c: c, m: map[*Term]*Term{}, lits: map[int]bool{}, bound: map[string]*big.Int{}, isvOf: map[int]string{}}
	m := fs.m
	low := func(t *Term) {
		k, n := linKey(t)
		n = new(big.Int).Neg(n)
		if o := fs.bound[k]; o == nil || o.Cmp(n) < 0 {
			fs.bound[k] = n
		}
	}
	// equations that define smaller applications come first
	key := func(a *Term) int {
		if a.op != "eq" {
			return 1 << 60
		}
		x, y := a.args[0], a.args[1]
		if !isApp(x) || isApp(y) && y.id > x.id {
			x, y = y, x
		}
		if !isApp(x) {
			return 1 << 60
		}
		return x.id
	}
	as = slices.Clone(as)
	slices.SortStableFunc(as, func(a, b *Term) int { return cmp.Compare(key(a), key(b)) })
	for _, a := range as {
		t, v := a, c.True()
		if t.op == "not" {
			t, v = t.args[0], c.False()
		}
		switch t.op {
		case "forall", "or", "and", "ite", "not":
			continue
		}
		if t.bnd || m[t] != nil || t.op == "true" || t.op == "false" {
			continue
		}
		if v.isTrue() && t.op == "eq" {
			x, y := t.args[0], t.args[1]
			if !isApp(x) || isApp(y) && y.id > x.id {
				x, y = y, x
			}
			if isApp(x) && c.defs[x.s] != nil && m[x] == nil && y.op != "ite" && len(fs.eqs) < 60 {
				em := map[*Term]*Term{}
				ok := true
				for _, e := range fs.eqs {
					em[e[0]] = e[1]
					ok = ok && !occurs(x, e[0]) && !occurs(e[0], x)
				}
				if ok {
					y2 := c.Subst(y, em)
					if !occurs(x, y2) {
						for i, e := range fs.eqs {
							fs.eqs[i][1] = c.Subst(e[1], map[*Term]*Term{x: y2})
							m[e[0]] = fs.eqs[i][1]
						}
						fs.eqs = append(fs.eqs, [2]*Term{x, y2})
						m[x] = y2
						fs.lits[a.id] = true
						continue
					}
				}
			}
		}
		fs.lits[a.id] = true
		m[t] = v
		if v.isTrue() {
			switch t.op {
			case "isv":
				fs.isvOf[t.args[0].id] = t.s
			case "ge0":
				low(t.args[0])
			}
		} else if t.op == "ge0" {
			low(c.lin(t.args[0], bm1, nil, nil, bm1))
		}
	}
	return fs
}

// learn adds what the facts say about the atoms of some terms.
func (fs *factSet) learn(as []*Term) {
	c, m := fs.c, fs.m
	collect(as, func(t *Term) {
		if t.bnd || m[t] != nil {
			return
		}
		switch t.op {
		case "isv":
			if k, ok := fs.isvOf[t.args[0].id]; ok {
				m[t] = c.Bool(k == t.s)
			}
		case "ge0":
			k, n := linKey(t.args[0])
			if b := fs.bound[k]; b != nil && new(big.Int).Add(b, n).Sign() >= 0 {
				m[t] = c.True()
				return
			}
			k, n = linKey(c.lin(t.args[0], bm1, nil, nil, bz))
			if b := fs.bound[k]; b != nil && new(big.Int).Sub(new(big.Int).Add(b, n), big.NewInt(1)).Sign() >= 0 {
				m[t] = c.False()
			}
		case "eq0":
			k, n := linKey(t.args[0])
			if b := fs.bound[k]; b != nil && new(big.Int).Add(b, n).Sign() > 0 {
				m[t] = c.False()
				return
			}
			k, n = linKey(c.lin(t.args[0], bm1, nil, nil, bz))
			if b := fs.bound[k]; b != nil && new(big.Int).Add(b, n).Sign() > 0 {
				m[t] = c.False()
			}
		}
	})
}

func (fs *factSet) simp(t *Term) *Term {
	for i := 0; i < 4; i++ {
		fs.learn([]*Term{t})
		u := fs.c.Subst(t, fs.m)
		if u == t {
			break
		}
		t = u
	}
	return t
}

// propagate rewrites assertions with what the others state outright.
func (c *Ctx) propagate(as []*Term) []*Term {
	for round := 0; round < 6; round++ {
		fs := c.factsOf(as)
		m := fs.m
		if len(m) == 0 {
			return as
		}
		fs.learn(as)
		memo := map[*Term]*Term{}
		changed := false
		var out []*Term
		for _, a := range as {
			if fs.lits[a.id] {
				b := a
				if a.op == "eq" {
					x, y := a.args[0], a.args[1]
					u, v := x, y
					if _, ok := m[x]; !ok {
						u = c.subst(x, m, memo)
					}
					if _, ok := m[y]; !ok {
						v = c.subst(y, m, memo)
					}
					if u != x || v != y {
						b = c.Eq(u, v)
						changed = true
					}
				} else if a.op == "not" && a.args[0].op == "eq" {
					e := a.args[0]
					u, v := c.subst(e.args[0], m, memo), c.subst(e.args[1], m, memo)
					if u != e.args[0] || v != e.args[1] {
						b = c.Not(c.Eq(u, v))
						changed = true
					}
				} else if n := a; n.op == "not" && (n.args[0].op == "and" || n.args[0].op == "or") {
					var xs []*Term
					same := true
					for _, x := range n.args[0].args {
						u := c.subst(x, m, memo)
						same = same && u == x
						xs = append(xs, u)
					}
					if !same {
						changed = true
						if n.args[0].op == "and" {
							b = c.Not(c.And(xs...))
						} else {
							b = c.Not(c.Or(xs...))
						}
					}
				} else if t := a; t.op == "ge0" || t.op == "eq0" || t.op == "not" && (t.args[0].op == "ge0" || t.args[0].op == "eq0") {
					if t.op == "not" {
						t = t.args[0]
					}
					if u := c.subst(t.args[0], m, memo); u != t.args[0] {
						changed = true
						if t.op == "ge0" {
							b = c.Le(c.Int(0), u)
						} else {
							b = c.Eq(c.Int(0), u)
						}
						if t != a {
							b = c.Not(b)
						}
					}
				}
				if b.isFalse() {
					return []*Term{b}
				}
				out = append(out, b)
				continue
			}
			b := c.subst(a, m, memo)
			if b != a {
				changed = true
			}
			if b.isFalse() {
				return []*Term{b}
			}
			out = append(out, b)
		}
		if !changed {
			return as
		}
		as = c.flatAnd(out)
	}
	return as
}

// linKey names a linear form without its constant.
func linKey(t *Term) (string, *big.Int) {
	if t.op != "lin" {
		return fmt.Sprintf("%d*1 ", t.id), new(big.Int)
	}
	var b strings.Builder
	for i, a := range t.args {
		fmt.Fprintf(&b, "%d*%s ", a.id, t.ks[i])
	}
	return b.String(), t.i
}

func isApp(t *Term) bool { return t.op == "app" }

// skolem names the witnesses of what the assertions say exists, so that the
// definitions of what is said about them can be unfolded.
func (c *Ctx) skolem(as []*Term) []*Term {
	memo := map[[2]int]*Term{}
	var walk func(t *Term, pos bool) *Term
	walk = func(t *Term, pos bool) *Term {
		if t.bnd {
			return t
		}
		k := [2]int{t.id, 0}
		if pos {
			k[1] = 1
		}
		if r := memo[k]; r != nil {
			return r
		}
		r := t
		switch t.op {
		case "forall":
			if !pos && c.unfolds(t) {
				m := map[*Term]*Term{}
				for i, v := range t.qv {
					m[v] = c.Var(fmt.Sprintf("wit!%d!%d", t.id, i), v.sort)
				}
				r = walk(c.Subst(t.args[0], m), false)
			}
		case "not":
			r = c.Not(walk(t.args[0], !pos))
		case "and", "or":
			xs := make([]*Term, len(t.args))
			diff := false
			for i, a := range t.args {
				xs[i] = walk(a, pos)
				diff = diff || xs[i] != a
			}
			if diff {
				if t.op == "and" {
					r = c.And(xs...)
				} else {
					r = c.Or(xs...)
				}
			}
		}
		memo[k] = r
		return r
	}
	out := make([]*Term, len(as))
	diff := false
	for i, a := range as {
		out[i] = walk(a, true)
		diff = diff || out[i] != a
	}
	if !diff {
		return as
	}
	return c.flatAnd(out)
}

// instances of what is known of all things with recursive definitions in it, for
// the things the assertions are about: their definitions can then be unfolded.
func (c *Ctx) instances(as []*Term, done map[string]bool, limit int) (out []*Term) {
	var qs []*Term
	for _, a := range as {
		if a.op != "forall" || a.bnd || len(a.qv) > 2 {
			continue
		}
		if c.unfolds(a) {
			qs = append(qs, a)
		}
	}
	if len(qs) == 0 {
		return nil
	}
	byOp := map[string][]*Term{}
	collect(as, func(t *Term) {
		if !t.bnd && len(t.args) > 0 {
			byOp[t.op+" "+t.s] = append(byOp[t.op+" "+t.s], t)
		}
	})
	for _, ts := range byOp {
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	}
	for _, q := range qs {
		isq := map[*Term]bool{}
		for _, v := range q.qv {
			isq[v] = true
		}
		for _, pat := range q.pats {
			var try func(i int, m map[*Term]*Term)
			try = func(i int, m map[*Term]*Term) {
				if len(out) >= limit || len(done) >= 4*limit {
					return
				}
				if i == len(pat) {
					if len(m) != len(q.qv) {
						return
					}
					k := fmt.Sprint(q.id)
					for _, v := range q.qv {
						k += fmt.Sprint(" ", m[v].id)
					}
					if !done[k] {
						done[k] = true
						if x := c.Subst(q.args[0], m); !x.isTrue() {
							out = append(out, x)
						}
					}
					return
				}
				for _, g := range byOp[pat[i].op+" "+pat[i].s] {
					m2 := map[*Term]*Term{}
					for k, v := range m {
						m2[k] = v
					}
					if matches(pat[i], g, isq, m2) {
						try(i+1, m2)
					}
				}
			}
			try(0, map[*Term]*Term{})
		}
	}
	return out
}

func matches(p, g *Term, isq map[*Term]bool, m map[*Term]*Term) bool {
	if isq[p] {
		if m[p] != nil {
			return m[p] == g
		}
		if p.sort != g.sort {
			return false
		}
		m[p] = g
		return true
	}
	if p == g {
		return true
	}
	if !p.bnd || p.op != g.op || p.s != g.s || len(p.args) != len(g.args) || p.sort != g.sort || p.op == "lin" || p.op == "forall" {
		return false
	}
	for i := range p.args {
		if !matches(p.args[i], g.args[i], isq, m) {
			return false
		}
	}
	return true
}

// unfolds: a definition that can be unfolded is applied to what is bound.
func (c *Ctx) unfolds(q *Term) (use bool) {
	collect(q.args, func(t *Term) {
		if t.op == "app" && t.bnd {
			if d := c.defs[t.s]; d != nil && d.body != nil && c.fuelOf(d) > 0 {
				use = true
			}
		}
	})
	return
}
