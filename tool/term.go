package main

// Terms: hash-consed, simplified on construction.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type SK int

const (
	SBool SK = iota
	SInt
	SBV
	SSeq
	SRef
	SVal
	STup
	SArr
	SMap
)

type Sort struct {
	k      SK
	bits   int
	elem   *Sort   // Seq elem, Arr/Map value
	key    *Sort   // Arr/Map key
	fields []*Sort // Tup
	name   string  // SMT name
	fnames []string
}

var (
	BoolS = &Sort{k: SBool, name: "Bool"}
	IntS  = &Sort{k: SInt, name: "Int"}
	RefS  = &Sort{k: SRef, name: "Ref"}
	ValS  = &Sort{k: SVal, name: "Val"}
)

type Ctx struct {
	fuel  int
	fuels map[string]int
	sorts map[string]*Sort
	tab   map[string]*Term
	n     int
	fresh map[string]int
	tups  []*Sort
	// definitions of recursive spec functions
	defs  map[string]*RecDef
	vars  map[string]*Term
	fact  func(*Term) []*Term
	birth map[int]int // when the value of a term came into being, where that is not when the term did
}

type RecDef struct {
	name    string
	formals []*Term
	body    *Term
	res     *Sort
	fuel    int
}

func NewCtx() *Ctx {
	return &Ctx{sorts: map[string]*Sort{}, tab: map[string]*Term{}, fresh: map[string]int{}, defs: map[string]*RecDef{}, vars: map[string]*Term{}, birth: map[int]int{}}
}

func (c *Ctx) BV(n int) *Sort {
	nm := fmt.Sprintf("(_ BitVec %d)", n)
	if s, ok := c.sorts[nm]; ok {
		return s
	}
	s := &Sort{k: SBV, bits: n, name: nm}
	c.sorts[nm] = s
	return s
}

func sanit(s string) string {
	var b strings.Builder
	for _, r := range s {
		if (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (r >= '0' && r <= '9') || r == '_' || r == '.' || r == '!' || r == '$' {
			b.WriteRune(r)
		} else {
			b.WriteString("_")
		}
	}
	return b.String()
}

func (c *Ctx) Seq(e *Sort) *Sort {
	nm := "Seq." + sanit(e.name)
	if e.k == SBV {
		nm = fmt.Sprintf("Seq.b%d", e.bits)
	}
	if s, ok := c.sorts[nm]; ok {
		return s
	}
	s := &Sort{k: SSeq, elem: e, name: nm}
	c.sorts[nm] = s
	return s
}

func (c *Ctx) Bytes() *Sort { return c.Seq(c.BV(8)) }

func (c *Ctx) Arr(k, v *Sort) *Sort {
	nm := "(Array " + k.name + " " + v.name + ")"
	if s, ok := c.sorts[nm]; ok {
		return s
	}
	s := &Sort{k: SArr, key: k, elem: v, name: nm}
	c.sorts[nm] = s
	return s
}

func (c *Ctx) Tup(name string, fields []*Sort, fnames []string) *Sort {
	nm := "T." + sanit(name)
	if s, ok := c.sorts[nm]; ok {
		return s
	}
	s := &Sort{k: STup, fields: fields, name: nm, fnames: fnames}
	c.sorts[nm] = s
	c.tups = append(c.tups, s)
	return s
}

type Term struct {
	op   string
	args []*Term
	sort *Sort
	s    string
	i    *big.Int
	ks   []*big.Int // lin coefficients
	id   int
	qv   []*Term // bound variables of a quantifier
	pats [][]*Term
	bnd  bool // contains bound variables
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.sort.name)
	b.WriteByte('|')
	b.WriteString(t.s)
	if t.i != nil {
		b.WriteByte('#')
		b.WriteString(t.i.String())
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, k := range t.ks {
		b.WriteByte('*')
		b.WriteString(k.String())
	}
	for _, v := range t.qv {
		b.WriteByte('@')
		b.WriteString(strconv.Itoa(v.id))
	}
	for _, p := range t.pats {
		b.WriteByte('!')
		for _, x := range p {
			b.WriteByte('!')
			b.WriteString(strconv.Itoa(x.id))
		}
	}
	key := b.String()
	if x, ok := c.tab[key]; ok {
		return x
	}
	c.n++
	t.id = c.n
	if t.op == "bound" {
		t.bnd = true
	}
	for _, a := range t.args {
		if a.bnd {
			t.bnd = true
		}
	}
	c.tab[key] = t
	return t
}

var (
	bz   = big.NewInt(0)
	b1   = big.NewInt(1)
	bm1  = big.NewInt(-1)
	two  = big.NewInt(2)
	big0 = bz
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(b1, uint(n)) }

func (c *Ctx) True() *Term  { return c.mk(&Term{op: "true", sort: BoolS}) }
func (c *Ctx) False() *Term { return c.mk(&Term{op: "false", sort: BoolS}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

func (c *Ctx) IntB(i *big.Int) *Term { return c.mk(&Term{op: "int", sort: IntS, i: i}) }
func (c *Ctx) Int(i int64) *Term     { return c.IntB(big.NewInt(i)) }
func (c *Ctx) BVc(i *big.Int, n int) *Term {
	m := new(big.Int).Mod(i, pow2(n))
	return c.mk(&Term{op: "bv", sort: c.BV(n), i: m})
}
func (c *Ctx) BVu(u uint64, n int) *Term { return c.BVc(new(big.Int).SetUint64(u), n) }

func (c *Ctx) Var(name string, s *Sort) *Term {
	return c.mk(&Term{op: "var", sort: s, s: name})
}
func (c *Ctx) Fresh(name string, s *Sort) *Term {
	name = sanit(name)
	c.fresh[name]++
	return c.Var(fmt.Sprintf("%s!%d", name, c.fresh[name]), s)
}
func (c *Ctx) Bound(name string, s *Sort) *Term {
	c.fresh["?"+name]++
	return c.mk(&Term{op: "bound", sort: s, s: fmt.Sprintf("%s?%d", sanit(name), c.fresh["?"+name])})
}

func (c *Ctx) App(name string, res *Sort, args ...*Term) *Term {
	// iface constructors
	if strings.HasPrefix(name, "payload.") && len(args) == 1 {
		a := args[0]
		if a.op == "app" && a.s == "mk."+name[8:] {
			return a.args[0]
		}
	}
	if name == "dyn" && args[0].op == "app" && strings.HasPrefix(args[0].s, "mk.") {
		return c.Int(c.typeCode(args[0].s[3:]))
	}
	if (name == "dyn" || strings.HasPrefix(name, "payload.")) && args[0].op == "ite" {
		x := args[0]
		return c.Ite(x.args[0], c.App(name, res, x.args[1]), c.App(name, res, x.args[2]))
	}
	return c.mk(&Term{op: "app", sort: res, s: name, args: args})
}

var tcMu sync.Mutex

var typeCodes = map[string]int64{}

func (c *Ctx) typeCode(s string) int64 {
	tcMu.Lock()
	defer tcMu.Unlock()
	if n, ok := typeCodes[s]; ok {
		return n
	}
	n := int64(len(typeCodes) + 1)
	typeCodes[s] = n
	return n
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return a.args[0]
	case "ge0":
		// not (l >= 0)  <=>  -l-1 >= 0
		return c.ge0(c.lin(a.args[0], bm1, nil, nil, bm1))
	}
	return c.mk(&Term{op: "not", sort: BoolS, args: []*Term{a}})
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary("and", as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary("or", as) }

func (c *Ctx) nary(op string, as []*Term) *Term {
	var flat []*Term
	seen := map[int]bool{}
	unit, zero := "true", "false"
	if op == "or" {
		unit, zero = "false", "true"
	}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.op == unit {
			return true
		}
		if a.op == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[c.Not(a).id] {
			return false
		}
		seen[a.id] = true
		flat = append(flat, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.mk(&Term{op: zero, sort: BoolS})
		}
	}
	if len(flat) == 0 {
		return c.mk(&Term{op: unit, sort: BoolS})
	}
	if len(flat) == 1 {
		return flat[0]
	}
	return c.mk(&Term{op: op, sort: BoolS, args: flat})
}

func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.isTrue() {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if p.op == "not" {
		return c.Ite(p.args[0], b, a)
	}
	if a.sort == BoolS {
		if a.isTrue() {
			return c.Or(p, b)
		}
		if a.isFalse() {
			return c.And(c.Not(p), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.isFalse() {
			return c.And(p, a)
		}
	}
	if a.op == "ite" && a.args[0] == p {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == p {
		b = b.args[2]
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts: %s %s", a.sort.name, b.sort.name))
	}
	return c.mk(&Term{op: "ite", sort: a.sort, args: []*Term{p, a, b}})
}

// ---- equality

func isConst(t *Term) bool {
	switch t.op {
	case "int", "bv", "true", "false", "newref", "lit":
		return true
	}
	return false
}

// the error of a library function that failed, which is not nil
func isErrApp(a *Term) bool { return a.op == "app" && strings.HasPrefix(a.s, "err!") }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts: %s %s: %s %s", a.sort.name, b.sort.name, a, b))
	}
	if isConst(a) && isConst(b) {
		return c.False() // hash-consed constants of the same sort
	}
	if isErrApp(a) && b.op == "newref" && b.s == "ref!nil" || isErrApp(b) && a.op == "newref" && a.s == "ref!nil" {
		return c.False()
	}
	switch a.sort.k {
	case SBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	case SInt:
		d := c.Sub(a, b)
		if d.op == "int" {
			return c.Bool(d.i.Sign() == 0)
		}
		// single bv2int atom against constant or another
		if r := c.eqConv(a, b); r != nil {
			return r
		}
		if d.op == "lin" || true {
			// canonical sign: leading coefficient positive
			neg := false
			if d.op == "lin" && d.ks[0].Sign() < 0 {
				neg = true
			}
			if neg {
				d = c.lin(d, bm1, nil, nil, bz)
			}
			if d.op == "lin" {
				// gcd test
				g := new(big.Int)
				for _, k := range d.ks {
					g.GCD(nil, nil, g, new(big.Int).Abs(k))
				}
				if g.Cmp(b1) > 0 {
					if new(big.Int).Mod(d.i, g).Sign() != 0 {
						return c.False()
					}
				}
			}
			if iteArg := c.liftIteEq(a, b); iteArg != nil {
				return iteArg
			}
			return c.mk(&Term{op: "eq0", sort: BoolS, args: []*Term{d}})
		}
	case SBV:
		if r := c.liftIteEq(a, b); r != nil {
			return r
		}
		// zext/concat against const: leave
		if a.op == "int2bv" || b.op == "int2bv" {
			x, y := c.asInt(a), c.asInt(b)
			if x != nil && y != nil {
				return c.Eq(c.Mod(x, pow2(a.sort.bits)), c.Mod(y, pow2(a.sort.bits)))
			}
		}
		if a.op == "zext" && b.op == "bv" {
			x := a.args[0]
			if b.i.BitLen() > x.sort.bits {
				return c.False()
			}
			return c.Eq(x, c.BVc(b.i, x.sort.bits))
		}
		if b.op == "zext" && a.op == "bv" {
			return c.Eq(b, a)
		}
		if a.op == "bvnot" && b.op == "bvnot" {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == "zext" && b.op == "zext" && a.args[0].sort == b.args[0].sort {
			return c.Eq(a.args[0], b.args[0])
		}
	case SVal:
		if r := c.liftIteEq(a, b); r != nil {
			return r
		}
		if isVCtor(a) && isVCtor(b) {
			if a.op != b.op {
				return c.False()
			}
			if len(a.args) == 0 {
				return c.True()
			}
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == "vnil" {
			return c.IsV("vnil", b)
		}
		if b.op == "vnil" {
			return c.IsV("vnil", a)
		}
		if isVCtor(b) {
			a, b = b, a
		}
		if isVCtor(a) {
			return c.And(c.IsV(a.op, b), c.Eq(a.args[0], c.VSel(a.op, b)))
		}
	case STup:
		if a.op == "tup" && b.op == "tup" {
			var es []*Term
			for i := range a.args {
				es = append(es, c.Eq(a.args[i], b.args[i]))
			}
			return c.And(es...)
		}
		if a.op == "tup" || b.op == "tup" {
			var es []*Term
			for i := range a.sort.fields {
				es = append(es, c.Eq(c.Sel(a, i), c.Sel(b, i)))
			}
			return c.And(es...)
		}
	case SRef:
		if r := c.liftIteEq(a, b); r != nil {
			return r
		}
		am, bm := a.op == "app" && strings.HasPrefix(a.s, "mk."), b.op == "app" && strings.HasPrefix(b.s, "mk.")
		if am && bm {
			if a.s != b.s {
				return c.False()
			}
			return c.Eq(a.args[0], b.args[0])
		}
		if am && b.op == "newref" || bm && a.op == "newref" {
			return c.False()
		}
		if am := strings.HasPrefix(a.s, "err!"); a.op == "app" && am && b.op == "newref" || b.op == "app" && strings.HasPrefix(b.s, "err!") && a.op == "newref" {
			return c.False() // an error made by errors.New and the like
		}
		if a.op == "newref" {
			if t, ok := c.birth[a.id]; ok && c.bornBefore(b, t) {
				return c.False()
			}
		}
		if b.op == "newref" {
			if t, ok := c.birth[b.id]; ok && c.bornBefore(a, t) {
				return c.False()
			}
		}
	case SSeq:
		if r := c.seqEq(a, b); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: "eq", sort: BoolS, args: []*Term{a, b}})
}

// bornBefore: the value of t existed before time n.
func (c *Ctx) bornBefore(t *Term, n int) bool {
	switch t.op {
	case "var":
		if b, ok := c.birth[t.id]; ok {
			return b < n
		}
		return t.id < n
	case "sel", "at", "select":
		return c.bornBefore(t.args[0], n)
	}
	return false
}

func (c *Ctx) birthOf(t *Term) (int, bool) {
	switch t.op {
	case "var":
		if b, ok := c.birth[t.id]; ok {
			return b, true
		}
		return t.id, true
	case "sel", "at", "select":
		return c.birthOf(t.args[0])
	}
	return 0, false
}

// eq(ite(c,k1,k2), k) for constants
func (c *Ctx) liftIteEq(a, b *Term) *Term {
	if b.op == "ite" && a.op != "ite" {
		a, b = b, a
	}
	if a.op != "ite" {
		return nil
	}
	leaf := func(t *Term) bool {
		return isConst(t) || isVCtor(t) || (t.op == "app" && (strings.HasPrefix(t.s, "mk.") || strings.HasPrefix(t.s, "err!")))
	}
	if leaf(b) && iteLeaves(a, leaf, 12) {
		return c.iteMap(a, func(t *Term) *Term { return c.Eq(t, b) })
	}
	return nil
}
func iteLeaves(a *Term, f func(*Term) bool, depth int) bool {
	if a.op == "ite" {
		return depth > 0 && (iteLeaves(a.args[1], f, depth-1) || iteLeaves(a.args[2], f, depth-1))
	}
	return f(a)
}
func (c *Ctx) iteMap(a *Term, f func(*Term) *Term) *Term {
	if a.op == "ite" {
		return c.Ite(a.args[0], c.iteMap(a.args[1], f), c.iteMap(a.args[2], f))
	}
	return f(a)
}

// ---- integers

// lin(a*ka + b*kb + k)
func (c *Ctx) lin(a *Term, ka *big.Int, b *Term, kb *big.Int, k *big.Int) *Term {
	m := map[int]*big.Int{}
	ts := map[int]*Term{}
	cst := new(big.Int).Set(k)
	add := func(t *Term, k *big.Int) {
		if t == nil {
			return
		}
		switch t.op {
		case "int":
			cst.Add(cst, new(big.Int).Mul(t.i, k))
		case "lin":
			cst.Add(cst, new(big.Int).Mul(t.i, k))
			for j, x := range t.args {
				ts[x.id] = x
				if m[x.id] == nil {
					m[x.id] = new(big.Int)
				}
				m[x.id].Add(m[x.id], new(big.Int).Mul(t.ks[j], k))
			}
		default:
			ts[t.id] = t
			if m[t.id] == nil {
				m[t.id] = new(big.Int)
			}
			m[t.id].Add(m[t.id], k)
		}
	}
	add(a, ka)
	add(b, kb)
	var ids []int
	for id, k := range m {
		if k.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	if len(ids) == 0 {
		return c.IntB(cst)
	}
	if len(ids) == 1 && cst.Sign() == 0 && m[ids[0]].Cmp(b1) == 0 {
		return ts[ids[0]]
	}
	t := &Term{op: "lin", sort: IntS, i: cst}
	for _, id := range ids {
		t.args = append(t.args, ts[id])
		t.ks = append(t.ks, m[id])
	}
	return c.mk(t)
}

func (c *Ctx) Add(a, b *Term) *Term { return c.lin(a, b1, b, b1, bz) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.lin(a, b1, b, bm1, bz) }
func (c *Ctx) AddK(a *Term, k int64) *Term {
	return c.lin(a, b1, nil, nil, big.NewInt(k))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == "int" {
		return c.lin(b, a.i, nil, nil, bz)
	}
	if b.op == "int" {
		return c.lin(a, b.i, nil, nil, bz)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: "imul", sort: IntS, args: []*Term{a, b}})
}
func (c *Ctx) Mod(a *Term, k *big.Int) *Term { // SMT mod (result >= 0)
	if a.op == "int" {
		return c.IntB(new(big.Int).Mod(a.i, k))
	}
	if a.op == "mod" && a.i.Cmp(k) == 0 {
		return a
	}
	if a.op == "bv2int" && pow2(a.args[0].sort.bits).Cmp(k) <= 0 {
		return a
	}
	return c.mk(&Term{op: "mod", sort: IntS, args: []*Term{a}, i: k})
}
func (c *Ctx) Div(a *Term, k *big.Int) *Term { // SMT div, k>0
	if a.op == "int" {
		q, _ := new(big.Int).DivMod(a.i, k, new(big.Int))
		return c.IntB(q)
	}
	return c.mk(&Term{op: "div", sort: IntS, args: []*Term{a}, i: k})
}

func (c *Ctx) nonneg(t *Term) bool {
	switch t.op {
	case "len", "bv2int", "mod":
		return true
	case "int":
		return t.i.Sign() >= 0
	case "app":
		return strings.HasPrefix(t.s, "nat.")
	}
	return false
}

func (c *Ctx) ge0(d *Term) *Term {
	if d.op == "int" {
		return c.Bool(d.i.Sign() >= 0)
	}
	if d.op == "ite" && (d.args[1].op == "int" || d.args[2].op == "int") {
		return c.Ite(d.args[0], c.ge0(d.args[1]), c.ge0(d.args[2]))
	}
	if d.op != "lin" {
		if c.nonneg(d) {
			return c.True()
		}
	} else {
		if len(d.args) == 1 && d.args[0].op == "ite" && iteLeaves(d.args[0], func(t *Term) bool { return t.op == "int" }, 6) {
			return c.iteMap(d.args[0], func(t *Term) *Term { return c.ge0(c.lin(t, d.ks[0], nil, nil, d.i)) })
		}
		pos, neg := true, true
		for j, a := range d.args {
			nn := c.nonneg(a)
			if !(nn && d.ks[j].Sign() > 0) {
				pos = false
			}
			if !(nn && d.ks[j].Sign() < 0) {
				neg = false
			}
		}
		if pos && d.i.Sign() >= 0 {
			return c.True()
		}
		if neg && d.i.Sign() < 0 {
			return c.False()
		}
		// divide by gcd
		g := new(big.Int)
		for _, k := range d.ks {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(b1) > 0 {
			t := &Term{op: "lin", sort: IntS, args: d.args}
			for _, k := range d.ks {
				t.ks = append(t.ks, new(big.Int).Quo(k, g))
			}
			q, _ := new(big.Int).DivMod(d.i, g, new(big.Int))
			t.i = q
			d = c.mk(t)
			if len(d.args) == 1 && d.i.Sign() == 0 && d.ks[0].Cmp(b1) == 0 {
				d = d.args[0]
			}
		}
		// bv2int comparisons
		if d.op == "lin" {
			if r := c.cmpConv(d); r != nil {
				return r
			}
		}
	}
	return c.mk(&Term{op: "ge0", sort: BoolS, args: []*Term{d}})
}

func isConv(t *Term) bool { return t.op == "bv2int" || t.op == "sbv2int" }

func (c *Ctx) eqConv(a, b *Term) *Term {
	if isConv(b) && !isConv(a) {
		a, b = b, a
	}
	if !isConv(a) {
		return nil
	}
	x := a.args[0]
	n := x.sort.bits
	if b.op == "int" {
		lo, hi := bz, pow2(n)
		if a.op == "sbv2int" {
			lo, hi = new(big.Int).Neg(pow2(n-1)), pow2(n-1)
		}
		if b.i.Cmp(lo) < 0 || b.i.Cmp(hi) >= 0 {
			return c.False()
		}
		return c.Eq(x, c.BVc(b.i, n))
	}
	if b.op == a.op && b.args[0].sort == x.sort {
		return c.Eq(x, b.args[0])
	}
	return nil
}

// k1*conv(x) + k >= 0 or conv(x) - conv(y) + k >= 0 with k in {0,-1}
func (c *Ctx) cmpConv(d *Term) *Term {
	if len(d.args) == 1 && isConv(d.args[0]) {
		x := d.args[0].args[0]
		n := x.sort.bits
		sg := d.args[0].op == "sbv2int"
		lo, hi := bz, new(big.Int).Sub(pow2(n), b1)
		if sg {
			lo, hi = new(big.Int).Neg(pow2(n-1)), new(big.Int).Sub(pow2(n-1), b1)
		}
		cmp := "bvule"
		if sg {
			cmp = "bvsle"
		}
		if d.ks[0].Cmp(b1) == 0 { // x >= -k
			v := new(big.Int).Neg(d.i)
			if v.Cmp(lo) <= 0 {
				return c.True()
			}
			if v.Cmp(hi) > 0 {
				return c.False()
			}
			return c.bvcmp(cmp, c.BVc(v, n), x)
		}
		if d.ks[0].Cmp(bm1) == 0 { // x <= k
			v := d.i
			if v.Cmp(hi) >= 0 {
				return c.True()
			}
			if v.Cmp(lo) < 0 {
				return c.False()
			}
			return c.bvcmp(cmp, x, c.BVc(v, n))
		}
	}
	if len(d.args) == 2 && isConv(d.args[0]) && isConv(d.args[1]) && d.args[0].op == d.args[1].op &&
		d.args[0].args[0].sort == d.args[1].args[0].sort && new(big.Int).Add(d.ks[0], d.ks[1]).Sign() == 0 && new(big.Int).Abs(d.ks[0]).Cmp(b1) == 0 {
		x, y := d.args[0].args[0], d.args[1].args[0]
		if d.ks[0].Sign() < 0 {
			x, y = y, x
		} // x - y + k >= 0
		le, lt := "bvule", "bvult"
		if d.args[0].op == "sbv2int" {
			le, lt = "bvsle", "bvslt"
		}
		if d.i.Sign() == 0 {
			return c.bvcmp(le, y, x)
		}
		if d.i.Cmp(bm1) == 0 {
			return c.bvcmp(lt, y, x)
		}
	}
	return nil
}

func (c *Ctx) Le(a, b *Term) *Term { return c.ge0(c.Sub(b, a)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.ge0(c.lin(b, b1, a, bm1, bm1)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// ---- bit vectors

func (c *Ctx) asInt(t *Term) *Term { // an Int congruent to t mod 2^n, or nil
	switch t.op {
	case "bv":
		return c.IntB(t.i)
	case "int2bv":
		return t.args[0]
	}
	return nil
}

func signed(i *big.Int, n int) *big.Int {
	if i.Bit(n-1) == 1 {
		return new(big.Int).Sub(i, pow2(n))
	}
	return i
}

func (c *Ctx) bvop(op string, args ...*Term) *Term {
	n := args[0].sort.bits
	s := c.BV(n)
	all := true
	for _, a := range args {
		if a.op != "bv" {
			all = false
		}
		if a.sort != s {
			panic("bvop sorts " + op + " " + a.String() + " " + args[0].String())
		}
	}
	if all {
		x := args[0].i
		var y *big.Int
		if len(args) > 1 {
			y = args[1].i
		}
		r := new(big.Int)
		switch op {
		case "bvadd":
			return c.BVc(r.Add(x, y), n)
		case "bvsub":
			return c.BVc(r.Sub(x, y), n)
		case "bvmul":
			return c.BVc(r.Mul(x, y), n)
		case "bvand":
			return c.BVc(r.And(x, y), n)
		case "bvor":
			return c.BVc(r.Or(x, y), n)
		case "bvxor":
			return c.BVc(r.Xor(x, y), n)
		case "bvnot":
			return c.BVc(r.Not(x), n)
		case "bvneg":
			return c.BVc(r.Neg(x), n)
		case "bvshl":
			if y.Cmp(big.NewInt(int64(n))) >= 0 {
				return c.BVc(bz, n)
			}
			return c.BVc(r.Lsh(x, uint(y.Int64())), n)
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(n))) >= 0 {
				return c.BVc(bz, n)
			}
			return c.BVc(r.Rsh(x, uint(y.Int64())), n)
		case "bvashr":
			k := uint(n)
			if y.Cmp(big.NewInt(int64(n))) < 0 {
				k = uint(y.Int64())
			}
			return c.BVc(r.Rsh(signed(x, n), k), n)
		case "bvudiv":
			if y.Sign() != 0 {
				return c.BVc(r.Quo(x, y), n)
			}
		case "bvurem":
			if y.Sign() != 0 {
				return c.BVc(r.Rem(x, y), n)
			}
		case "bvsdiv":
			if y.Sign() != 0 {
				return c.BVc(r.Quo(signed(x, n), signed(y, n)), n)
			}
		case "bvsrem":
			if y.Sign() != 0 {
				return c.BVc(r.Rem(signed(x, n), signed(y, n)), n)
			}
		}
	}
	// homomorphism with int2bv
	switch op {
	case "bvadd", "bvsub":
		if args[0].op == "int2bv" || args[1].op == "int2bv" {
			x, y := c.asInt(args[0]), c.asInt(args[1])
			if x != nil && y != nil {
				if op == "bvadd" {
					return c.Int2BV(c.Add(x, y), n)
				}
				return c.Int2BV(c.Sub(x, y), n)
			}
		}
		if args[1].op == "bv" && args[1].i.Sign() == 0 {
			return args[0]
		}
		if op == "bvadd" && args[0].op == "bv" && args[0].i.Sign() == 0 {
			return args[1]
		}
		if op == "bvsub" && args[0] == args[1] {
			return c.BVc(bz, n)
		}
	case "bvneg":
		if args[0].op == "int2bv" {
			return c.Int2BV(c.lin(args[0].args[0], bm1, nil, nil, bz), n)
		}
		if args[0].op == "bvneg" {
			return args[0].args[0]
		}
	case "bvnot":
		if args[0].op == "bvnot" {
			return args[0].args[0]
		}
	case "bvand", "bvor":
		if args[0] == args[1] {
			return args[0]
		}
		for k := 0; k < 2; k++ {
			if args[k].op == "bv" {
				z := args[k].i.Sign() == 0
				ones := args[k].i.Cmp(new(big.Int).Sub(pow2(n), b1)) == 0
				if z && op == "bvand" || ones && op == "bvor" {
					return args[k]
				}
				if z && op == "bvor" || ones && op == "bvand" {
					return args[1-k]
				}
			}
		}
	case "bvxor":
		if args[0] == args[1] {
			return c.BVc(bz, n)
		}
		for k := 0; k < 2; k++ {
			if args[k].op == "bv" && args[k].i.Sign() == 0 {
				return args[1-k]
			}
		}
	case "bvshl", "bvlshr", "bvashr":
		if args[1].op == "bv" && args[1].i.Sign() == 0 {
			return args[0]
		}
	}
	return c.mk(&Term{op: op, sort: s, args: args})
}

func (c *Ctx) bvcmp(op string, a, b *Term) *Term {
	n := a.sort.bits
	if a.sort != b.sort {
		panic("bvcmp sorts")
	}
	if a.op == "bv" && b.op == "bv" {
		x, y := a.i, b.i
		if op[2] == 's' {
			x, y = signed(x, n), signed(y, n)
		}
		switch op[3:] {
		case "lt":
			return c.Bool(x.Cmp(y) < 0)
		case "le":
			return c.Bool(x.Cmp(y) <= 0)
		}
	}
	if a == b {
		return c.Bool(op[3:] == "le")
	}
	if a.op == "int2bv" || b.op == "int2bv" {
		sg := op[2] == 's'
		x, y := c.BV2Int(a, sg), c.BV2Int(b, sg)
		if op[3:] == "lt" {
			return c.Lt(x, y)
		}
		return c.Le(x, y)
	}
	if op[2] == 'u' && b.op == "bv" && b.i.Sign() == 0 {
		if op == "bvult" {
			return c.False()
		}
		return c.Eq(a, b)
	}
	if op == "bvule" && a.op == "bv" && a.i.Sign() == 0 {
		return c.True()
	}
	if op[2] == 'u' && a.op == "zext" && b.op == "zext" && a.args[0].sort == b.args[0].sort {
		return c.bvcmp(op, a.args[0], b.args[0])
	}
	// not (a<b) => b<=a : canonical: use bvule/bvsle and their negation
	if op == "bvult" {
		return c.Not(c.bvcmp("bvule", b, a))
	}
	if op == "bvslt" {
		return c.Not(c.bvcmp("bvsle", b, a))
	}
	return c.mk(&Term{op: op, sort: BoolS, args: []*Term{a, b}})
}

func (c *Ctx) Int2BV(a *Term, n int) *Term {
	if a.op == "int" {
		return c.BVc(a.i, n)
	}
	if a.op == "ite" && (a.args[1].op == "int" || a.args[2].op == "int") {
		return c.Ite(a.args[0], c.Int2BV(a.args[1], n), c.Int2BV(a.args[2], n))
	}
	if a.op == "mod" && a.i.Cmp(pow2(n)) == 0 {
		return c.Int2BV(a.args[0], n)
	}
	if isConv(a) {
		return c.Resize(a.args[0], n, a.op == "sbv2int")
	}
	return c.mk(&Term{op: "int2bv", sort: c.BV(n), args: []*Term{a}})
}

func (c *Ctx) BV2Int(a *Term, sg bool) *Term {
	n := a.sort.bits
	if a.op == "bv" {
		if sg {
			return c.IntB(signed(a.i, n))
		}
		return c.IntB(a.i)
	}
	if a.op == "int2bv" && n == 64 && a.args[0].op == "len" {
		return a.args[0] // no object has 2^63 bytes
	}
	if a.op == "int2bv" {
		m := c.Mod(a.args[0], pow2(n))
		if !sg {
			return m
		}
		return c.Ite(c.Lt(m, c.IntB(pow2(n-1))), m, c.Sub(m, c.IntB(pow2(n))))
	}
	if a.op == "zext" {
		return c.BV2Int(a.args[0], false)
	}
	if a.op == "sext" && sg {
		return c.BV2Int(a.args[0], true)
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], c.BV2Int(a.args[1], sg), c.BV2Int(a.args[2], sg))
	}
	op := "bv2int"
	if sg {
		op = "sbv2int"
	}
	return c.mk(&Term{op: op, sort: IntS, args: []*Term{a}})
}

// Resize a bit vector to n bits, sign-extending if sg.
func (c *Ctx) Resize(a *Term, n int, sg bool) *Term {
	m := a.sort.bits
	if m == n {
		return a
	}
	if a.op == "bv" {
		if sg {
			return c.BVc(signed(a.i, m), n)
		}
		return c.BVc(a.i, n)
	}
	if a.op == "ite" && (a.args[1].op == "bv" || a.args[2].op == "bv") {
		return c.Ite(a.args[0], c.Resize(a.args[1], n, sg), c.Resize(a.args[2], n, sg))
	}
	if n < m {
		if a.op == "int2bv" {
			return c.Int2BV(a.args[0], n)
		}
		if (a.op == "zext" || a.op == "sext") && a.args[0].sort.bits >= n {
			return c.Resize(a.args[0], n, false)
		}
		if a.op == "zext" || a.op == "sext" {
			return c.Resize(a.args[0], n, a.op == "sext")
		}
		return c.mk(&Term{op: "trunc", sort: c.BV(n), args: []*Term{a}})
	}
	if a.op == "int2bv" {
		return c.Int2BV(c.BV2Int(a, sg), n)
	}
	if sg {
		if a.op == "zext" {
			return c.Resize(a.args[0], n, false)
		}
		return c.mk(&Term{op: "sext", sort: c.BV(n), args: []*Term{a}})
	}
	if a.op == "zext" {
		return c.Resize(a.args[0], n, false)
	}
	return c.mk(&Term{op: "zext", sort: c.BV(n), args: []*Term{a}})
}

// ---- types.Value

func isVCtor(t *Term) bool {
	switch t.op {
	case "vnil", "vbool", "vint", "vflt", "vstr", "vbytes":
		return true
	}
	return false
}

func (c *Ctx) vArg(op string) *Sort {
	switch op {
	case "vbool":
		return BoolS
	case "vint", "vflt":
		return c.BV(64)
	}
	return c.Bytes()
}
func (c *Ctx) VCtor(op string, a *Term) *Term {
	if a == nil {
		return c.mk(&Term{op: op, sort: ValS})
	}
	if a.op == "vsel" && a.s == op && false {
		return a
	}
	return c.mk(&Term{op: op, sort: ValS, args: []*Term{a}})
}
func (c *Ctx) IsV(op string, a *Term) *Term {
	if isVCtor(a) {
		return c.Bool(a.op == op)
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], c.IsV(op, a.args[1]), c.IsV(op, a.args[2]))
	}
	return c.mk(&Term{op: "isv", sort: BoolS, s: op, args: []*Term{a}})
}
func (c *Ctx) VSel(op string, a *Term) *Term {
	if a.op == op {
		return a.args[0]
	}
	if a.op == "ite" {
		l, r := a.args[1], a.args[2]
		if isVCtor(l) && l.op != op {
			return c.VSel(op, r)
		}
		if isVCtor(r) && r.op != op {
			return c.VSel(op, l)
		}
		return c.Ite(a.args[0], c.VSel(op, l), c.VSel(op, r))
	}
	return c.mk(&Term{op: "vsel", sort: c.vArg(op), s: op, args: []*Term{a}})
}

// ---- tuples

func (c *Ctx) MkTup(s *Sort, args ...*Term) *Term {
	if len(args) > 0 && args[0].op == "sel" && len(args) == len(s.fields) {
		base := args[0].args[0]
		ok := base.sort == s
		for i, a := range args {
			if !ok || a.op != "sel" || a.args[0] != base || a.s != strconv.Itoa(i) {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	for i, a := range args {
		if a.sort != s.fields[i] {
			panic(fmt.Sprintf("tuple %s field %d: %s", s.name, i, a.sort.name))
		}
	}
	return c.mk(&Term{op: "tup", sort: s, args: args})
}
func (c *Ctx) Sel(a *Term, i int) *Term {
	if a.op == "tup" {
		return a.args[i]
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], c.Sel(a.args[1], i), c.Sel(a.args[2], i))
	}
	return c.mk(&Term{op: "sel", sort: a.sort.fields[i], s: strconv.Itoa(i), args: []*Term{a}})
}

// ---- arrays

func (c *Ctx) Select(a, k *Term) *Term {
	if a.op == "store" {
		e := c.Eq(a.args[1], k)
		if e.isTrue() {
			return a.args[2]
		}
		if e.isFalse() {
			return c.Select(a.args[0], k)
		}
		return c.Ite(e, a.args[2], c.Select(a.args[0], k))
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], c.Select(a.args[1], k), c.Select(a.args[2], k))
	}
	return c.mk(&Term{op: "select", sort: a.sort.elem, args: []*Term{a, k}})
}
func (c *Ctx) Store(a, k, v *Term) *Term {
	if a.op == "store" && a.args[1] == k {
		return c.Store(a.args[0], k, v)
	}
	return c.mk(&Term{op: "store", sort: a.sort, args: []*Term{a, k, v}})
}
func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk(&Term{op: "constarr", sort: s, args: []*Term{v}})
}

// ---- quantifiers

func (c *Ctx) Forall(vs []*Term, body *Term, pats [][]*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	if !body.bnd {
		return body
	}
	t := c.mk(&Term{op: "forall", sort: BoolS, args: []*Term{body}, qv: vs, pats: pats})
	// bnd: only if other bound variables remain
	t.bnd = hasOtherBound(body, vs)
	return t
}

func hasOtherBound(t *Term, vs []*Term) bool {
	seen := map[int]bool{}
	var walk func(t *Term, vs []*Term) bool
	walk = func(t *Term, vs []*Term) bool {
		if !t.bnd || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == "bound" {
			for _, v := range vs {
				if v == t {
					return false
				}
			}
			return true
		}
		in := vs
		if t.op == "forall" {
			in = append(append([]*Term{}, vs...), t.qv...)
		}
		for _, a := range t.args {
			if walk(a, in) {
				return true
			}
		}
		return false
	}
	return walk(t, vs)
}

// ---- rebuilding (substitution)

func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return c.subst(t, m, memo)
}

func (c *Ctx) SubstMemo(t *Term, m, memo map[*Term]*Term) *Term { return c.subst(t, m, memo) }

func (c *Ctx) subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = c.subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		pats := t.pats
		if t.op == "forall" {
			pats = nil
			for _, p := range t.pats {
				var np []*Term
				for _, x := range p {
					np = append(np, c.subst(x, m, memo))
				}
				pats = append(pats, np)
			}
		}
		r = c.rebuild(t, args, pats)
	}
	memo[t] = r
	return r
}

func (c *Ctx) rebuild(t *Term, a []*Term, pats [][]*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "eq":
		return c.Eq(a[0], a[1])
	case "eq0":
		return c.Eq(a[0], c.Int(0))
	case "ge0":
		return c.ge0(a[0])
	case "lin":
		r := c.IntB(t.i)
		for i := range a {
			r = c.lin(r, b1, a[i], t.ks[i], bz)
		}
		return r
	case "imul":
		return c.Mul(a[0], a[1])
	case "mod":
		return c.Mod(a[0], t.i)
	case "div":
		return c.Div(a[0], t.i)
	case "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem":
		return c.bvop(t.op, a...)
	case "bvule", "bvsle", "bvult", "bvslt":
		return c.bvcmp(t.op, a[0], a[1])
	case "int2bv":
		return c.Int2BV(a[0], t.sort.bits)
	case "bv2int":
		return c.BV2Int(a[0], false)
	case "sbv2int":
		return c.BV2Int(a[0], true)
	case "zext", "trunc":
		return c.Resize(a[0], t.sort.bits, false)
	case "sext":
		return c.Resize(a[0], t.sort.bits, true)
	case "vbool", "vint", "vflt", "vstr", "vbytes":
		return c.VCtor(t.op, a[0])
	case "isv":
		return c.IsV(t.s, a[0])
	case "vsel":
		return c.VSel(t.s, a[0])
	case "tup":
		return c.MkTup(t.sort, a...)
	case "sel":
		n, _ := strconv.Atoi(t.s)
		return c.Sel(a[0], n)
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "constarr":
		return c.ConstArr(t.sort, a[0])
	case "app":
		return c.App(t.s, t.sort, a...)
	case "forall":
		return c.Forall(t.qv, a[0], pats)
	case "len":
		return c.Len(a[0])
	case "at":
		return c.At(a[0], a[1])
	case "cat":
		return c.Cat(t.sort, a...)
	case "unit":
		return c.Unit(a[0])
	case "sub":
		return c.SubSeq(a[0], a[1], a[2])
	case "fpop":
		return c.Fp(t.s, t.sort, a...)
	}
	panic("rebuild " + t.op)
}

func (c *Ctx) Fp(op string, s *Sort, a ...*Term) *Term {
	return c.mk(&Term{op: "fpop", s: op, sort: s, args: a})
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	switch t.op {
	case "int":
		return t.i.String()
	case "bv":
		return fmt.Sprintf("%s:%d", t.i, t.sort.bits)
	case "var", "bound", "newref":
		return t.s
	case "lit":
		return strconv.Quote(t.s)
	case "true", "false":
		return t.op
	}
	if d == 0 {
		return "..."
	}
	var b strings.Builder
	b.WriteString("(")
	b.WriteString(t.op)
	if t.s != "" {
		b.WriteString(":" + t.s)
	}
	if t.op == "lin" {
		for i, a := range t.args {
			b.WriteString(fmt.Sprintf(" %s*%s", t.ks[i], a.str(d-1)))
		}
		b.WriteString(" + " + t.i.String() + ")")
		return b.String()
	}
	for _, v := range t.qv {
		b.WriteString(" " + v.s)
	}
	for _, a := range t.args {
		b.WriteString(" " + a.str(d-1))
	}
	b.WriteString(")")
	return b.String()
}
