package main

// Sequences.  Normal form: cat of pieces; a piece is a unit, an atom (var,
// app, sel, vsel, at, select, lit, ite ...) or sub(atom, lo, hi).

func (c *Ctx) Lit(s string) *Term { // byte-string literal
	if s == "" {
		return c.Empty(c.Bytes())
	}
	return c.mk(&Term{op: "lit", sort: c.Bytes(), s: s})
}

func (c *Ctx) Empty(s *Sort) *Term { return c.mk(&Term{op: "empty", sort: s}) }

func (c *Ctx) Unit(x *Term) *Term {
	return c.mk(&Term{op: "unit", sort: c.Seq(x.sort), args: []*Term{x}})
}

func (c *Ctx) Len(s *Term) *Term {
	switch s.op {
	case "empty":
		return c.Int(0)
	case "lit":
		return c.Int(int64(len(s.s)))
	case "unit":
		return c.Int(1)
	case "sub":
		return c.Sub(s.args[2], s.args[1])
	case "cat":
		r := c.Int(0)
		for _, p := range s.args {
			r = c.Add(r, c.Len(p))
		}
		return r
	case "ite":
		return c.Ite(s.args[0], c.Len(s.args[1]), c.Len(s.args[2]))
	}
	return c.mk(&Term{op: "len", sort: IntS, args: []*Term{s}})
}

func (c *Ctx) pieces(s *Term) []*Term {
	if s.op == "cat" {
		return s.args
	}
	if s.op == "empty" {
		return nil
	}
	return []*Term{s}
}

// as a sub of an atom: base, lo, hi
func (c *Ctx) asSub(p *Term) (*Term, *Term, *Term) {
	switch p.op {
	case "sub":
		return p.args[0], p.args[1], p.args[2]
	case "unit":
		if a := p.args[0]; a.op == "at" {
			return a.args[0], a.args[1], c.AddK(a.args[1], 1)
		}
		return nil, nil, nil
	case "empty", "cat", "lit":
		return nil, nil, nil
	}
	return p, c.Int(0), c.Len(p)
}

func (c *Ctx) Cat(s *Sort, as ...*Term) *Term {
	var ps []*Term
	for _, a := range as {
		if a.sort != s {
			panic("cat sorts " + a.sort.name + " " + s.name)
		}
		for _, p := range c.pieces(a) {
			if len(ps) > 0 {
				q := ps[len(ps)-1]
				if b1, _, h1 := c.asSub(q); b1 != nil {
					if b2, l2, h2 := c.asSub(p); b2 == b1 && h1 == l2 {
						_, l1, _ := c.asSub(q)
						ps[len(ps)-1] = c.SubSeq(b1, l1, h2)
						continue
					}
				}
				if q.op == "lit" && p.op == "lit" {
					ps[len(ps)-1] = c.Lit(q.s + p.s)
					continue
				}
				if q.op == "lit" && p.op == "unit" && p.args[0].op == "bv" {
					ps[len(ps)-1] = c.Lit(q.s + string([]byte{byte(p.args[0].i.Int64())}))
					continue
				}
				if p.op == "lit" && q.op == "unit" && q.args[0].op == "bv" {
					ps[len(ps)-1] = c.Lit(string([]byte{byte(q.args[0].i.Int64())}) + p.s)
					continue
				}
			}
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		return c.Empty(s)
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return c.mk(&Term{op: "cat", sort: s, args: ps})
}

func (c *Ctx) At(s, i *Term) *Term {
	switch s.op {
	case "unit":
		return s.args[0]
	case "lit":
		if i.op == "int" && i.i.IsInt64() {
			if k := i.i.Int64(); k >= 0 && k < int64(len(s.s)) {
				return c.BVu(uint64(s.s[k]), 8)
			}
		}
	case "sub":
		return c.At(s.args[0], c.Add(s.args[1], i))
	case "ite":
		return c.Ite(s.args[0], c.At(s.args[1], i), c.At(s.args[2], i))
	case "cat":
		off := i
		var res func(ps []*Term, off *Term) *Term
		res = func(ps []*Term, off *Term) *Term {
			if len(ps) == 1 {
				return c.At(ps[0], off)
			}
			l := c.Len(ps[0])
			in := c.Lt(off, l)
			if in.isTrue() {
				return c.At(ps[0], off)
			}
			rest := func() *Term { return res(ps[1:], c.Sub(off, l)) }
			if in.isFalse() {
				return rest()
			}
			return c.Ite(in, c.At(ps[0], off), rest())
		}
		return res(s.args, off)
	}
	return c.mk(&Term{op: "at", sort: s.sort.elem, args: []*Term{s, i}})
}

func (c *Ctx) SubSeq(s, lo, hi *Term) *Term {
	if lo == hi {
		return c.Empty(s.sort)
	}
	if lo.op == "int" && lo.i.Sign() == 0 && hi == c.Len(s) {
		return s
	}
	switch s.op {
	case "empty":
		return s
	case "sub":
		return c.SubSeq(s.args[0], c.Add(s.args[1], lo), c.Add(s.args[1], hi))
	case "lit":
		if lo.op == "int" && hi.op == "int" && lo.i.Sign() >= 0 && hi.i.IsInt64() && hi.i.Int64() <= int64(len(s.s)) && lo.i.Cmp(hi.i) <= 0 {
			return c.Lit(s.s[lo.i.Int64():hi.i.Int64()])
		}
	case "unit":
		if lo.op == "int" && hi.op == "int" && lo.i.Sign() == 0 && hi.i.Cmp(b1) == 0 {
			return s
		}
	case "cat":
		// find the pieces when the boundaries are syntactically decidable
		var out []*Term
		pos := c.Int(0)
		started, ok := false, true
		done := false
		for _, p := range s.args {
			l := c.Len(p)
			end := c.Add(pos, l)
			if !started {
				// does lo lie in [pos,end)?
				a := c.Le(end, lo)
				if a.isTrue() {
					pos = end
					continue
				}
				if !a.isFalse() {
					// undecided, unless lo==pos syntactically
					if lo != pos {
						ok = false
						break
					}
				}
				if !c.Le(pos, lo).isTrue() {
					ok = false
					break
				}
				started = true
				st := c.Sub(lo, pos)
				if hi == end || c.Le(end, hi).isTrue() {
					out = append(out, c.SubSeq(p, st, l))
					if hi == end {
						done = true
						break
					}
				} else if c.Le(hi, end).isTrue() {
					out = append(out, c.SubSeq(p, st, c.Sub(hi, pos)))
					done = true
					break
				} else {
					ok = false
					break
				}
				pos = end
				continue
			}
			if hi == pos {
				done = true
				break
			}
			if hi == end || c.Le(end, hi).isTrue() {
				out = append(out, p)
				if hi == end {
					done = true
					break
				}
			} else if c.Le(hi, end).isTrue() {
				out = append(out, c.SubSeq(p, c.Int(0), c.Sub(hi, pos)))
				done = true
				break
			} else {
				ok = false
				break
			}
			pos = end
		}
		if ok && (done || hi == pos) && started {
			return c.Cat(s.sort, out...)
		}
	case "ite":
		return c.Ite(s.args[0], c.SubSeq(s.args[1], lo, hi), c.SubSeq(s.args[2], lo, hi))
	}
	return c.mk(&Term{op: "sub", sort: s.sort, args: []*Term{s, lo, hi}})
}

func (c *Ctx) Upd(s, i, v *Term) *Term {
	return c.Cat(s.sort, c.SubSeq(s, c.Int(0), i), c.Unit(v), c.SubSeq(s, c.AddK(i, 1), c.Len(s)))
}

// Syntactic simplification of a sequence equality; nil if none applies.
func (c *Ctx) seqEq(a, b *Term) *Term {
	d := c.Sub(c.Len(a), c.Len(b))
	if d.op == "int" && d.i.Sign() != 0 {
		return c.False()
	}
	pa, pb := c.pieces(a), c.pieces(b)
	var eqs []*Term
	ch := false
	strip := func() {
		for len(pa) > 0 && len(pb) > 0 {
			x, y := pa[0], pb[0]
			if x == y {
				pa, pb = pa[1:], pb[1:]
				ch = true
				continue
			}
			if x.op == "unit" && y.op == "unit" {
				eqs = append(eqs, c.Eq(x.args[0], y.args[0]))
				pa, pb = pa[1:], pb[1:]
				ch = true
				continue
			}
			if x.op == "unit" && y.op == "lit" || x.op == "lit" && y.op == "unit" {
				sw := x.op == "lit"
				if sw {
					pa, pb = pb, pa
					x, y = y, x
				}
				eqs = append(eqs, c.Eq(x.args[0], c.BVu(uint64(y.s[0]), 8)))
				pa = pa[1:]
				r := c.Lit(y.s[1:])
				pb = append(append([]*Term{}, c.pieces(r)...), pb[1:]...)
				if sw {
					pa, pb = pb, pa
				}
				ch = true
				continue
			}
			if x.op == "lit" && y.op == "lit" {
				n := 0
				for n < len(x.s) && n < len(y.s) && x.s[n] == y.s[n] {
					n++
				}
				if n < len(x.s) && n < len(y.s) {
					eqs = append(eqs, c.False())
					return
				}
				pa = append(append([]*Term{}, c.pieces(c.Lit(x.s[n:]))...), pa[1:]...)
				pb = append(append([]*Term{}, c.pieces(c.Lit(y.s[n:]))...), pb[1:]...)
				ch = true
				continue
			}
			if x.op == "sub" && y.op == "sub" && x.args[0] == y.args[0] && x.args[1] == y.args[1] {
				df := c.Sub(x.args[2], y.args[2])
				if c.Le(x.args[2], y.args[2]).isTrue() && df.op == "int" {
					pa = pa[1:]
					pb = append([]*Term{c.SubSeq(y.args[0], x.args[2], y.args[2])}, pb[1:]...)
					ch = true
					continue
				}
			}
			break
		}
		for len(pa) > 0 && len(pb) > 0 {
			x, y := pa[len(pa)-1], pb[len(pb)-1]
			if x == y {
				pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
				ch = true
				continue
			}
			if x.op == "unit" && y.op == "unit" {
				eqs = append(eqs, c.Eq(x.args[0], y.args[0]))
				pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
				ch = true
				continue
			}
			break
		}
	}
	strip()
	if ch {
		eqs = append(eqs, c.Eq(c.Cat(a.sort, pa...), c.Cat(a.sort, pb...)))
		return c.And(eqs...)
	}
	if a.op == "empty" {
		return c.Eq(c.Len(b), c.Int(0))
	}
	if b.op == "empty" {
		return c.Eq(c.Len(a), c.Int(0))
	}
	return nil
}
