package parser

import (
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"

	"vs"
)

// ---- the shape of an expression: its yield, which are its operands and
// operators from left to right, and whether it is grouped as it should be

const (
	operand = iota
	binaryOp
	unaryOp
	openParen
	closeParen
	openCall
	comma
	closeCall
	openTest
	closeTest
)

type item struct {
	kind int
	op   sql.Op
	id   types.Identifier
	e    sql.Expr
	s    sql.Stmt
	sop  sql.SubqueryOp
}

type shape struct {
	y     []item
	safe  bool // all there: no nil within
	wf    bool // no operator reaches into the left operand of a tighter one
	canon bool // grouped as it should be
	redge int  // how tight the loosest unary operator is that extends to the right end
	root  int  // how tight the operator at the root is, if it is a binary one
}

const tight = 100

// how tight the operators bind
func prec(op sql.Op) int {
	return vs.Ite(op == sql.OrOp, 1, vs.Ite(op == sql.AndOp, 2, vs.Ite(op == sql.NotOp, 3,
		vs.Ite(vs.Or(op == sql.EqualOp, op == sql.NotEqualOp), 4,
			vs.Ite(vs.Or(op == sql.LessThanOp, op == sql.LessEqualOp, op == sql.GreaterThanOp, op == sql.GreaterEqualOp), 5,
				vs.Ite(vs.Or(op == sql.BinaryAndOp, op == sql.BinaryOrOp, op == sql.LShiftOp, op == sql.RShiftOp), 6,
					vs.Ite(vs.Or(op == sql.AddOp, op == sql.SubtractOp), 7,
						vs.Ite(vs.Or(op == sql.MultiplyOp, op == sql.DivideOp, op == sql.ModuloOp), 8,
							vs.Ite(op == sql.NegateOp, 9, vs.Ite(op == sql.ConcatOp, 10, 11))))))))))
}

func isOp(op sql.Op) bool { return vs.And(op >= sql.AddOp, op <= sql.SubtractOp) }

// safeOf: nothing within is nil; an operand is never
func safeOf(e sql.Expr) bool {
	return vs.And(e != nil, vs.Or(!inner(e), vs.UF[bool]("expr.safe", e)))
}

func closedShape(e sql.Expr) shape {
	return shape{
		y:     vs.UF[[]item]("expr.yield", e),
		safe:  safeOf(e),
		wf:    vs.UF[bool]("expr.wf", e),
		canon: vs.UF[bool]("expr.canon", e),
		redge: vs.UF[int]("expr.redge", e),
		root:  vs.UF[int]("expr.root", e),
	}
}

// view: from the parts as they are now, as far as they were looked into
func view(e sql.Expr) shape {
	if b, ok := vs.Open[*sql.BinaryExpr](e); ok {
		return binaryShape(b)
	}
	if u, ok := vs.Open[*sql.UnaryExpr](e); ok {
		return unaryShape(u)
	}
	if s, ok := vs.Open[*sql.SExpr](e); ok {
		return callShape(s)
	}
	if q, ok := vs.Open[*sql.Subquery](e); ok {
		return testShape(q)
	}
	return closedShape(e)
}

func binaryShape(b *sql.BinaryExpr) shape {
	l, r, p := view(b.Left), view(b.Right), prec(b.Op)
	return shape{
		y:     vs.Cat(l.y, []item{{kind: binaryOp, op: b.Op}}, r.y),
		safe:  vs.And(b != nil, isOp(b.Op), l.safe, r.safe),
		wf:    vs.And(l.wf, r.wf, l.redge >= p),
		canon: vs.And(l.canon, r.canon, l.redge >= p, l.root >= p, r.root > p),
		redge: r.redge,
		root:  p,
	}
}

func unaryShape(u *sql.UnaryExpr) shape {
	e, p := view(u.Expr), prec(u.Op)
	paren := u.Op == sql.NoOp
	return shape{
		y: vs.Ite(paren, vs.Cat([]item{{kind: openParen}}, e.y, []item{{kind: closeParen}}),
			vs.Cat([]item{{kind: unaryOp, op: u.Op}}, e.y)),
		safe:  vs.And(u != nil, isOp(u.Op), e.safe),
		wf:    e.wf,
		canon: vs.And(e.canon, vs.Or(paren, e.root >= p)),
		redge: vs.Ite(paren, tight, vs.Ite(e.redge < p, e.redge, p)),
		root:  tight,
	}
}

// argsYield: that of the first n
//
//vs:rec
//vs:fuel 1
func argsYield(a []sql.Expr, n int) []item {
	if n <= 0 {
		return nil
	}
	return vs.Cat(argsYield(a, n-1), vs.UF[[]item]("expr.yield", a[n-1]), []item{{kind: comma}})
}

//vs:lemma
//vs:prop C35
func V_ArgsYield(a, b []sql.Expr, n int) {
	vs.Requires(vs.And(n >= 0, n <= len(a), n <= len(b)))
	vs.Requires(vs.Forall(func(i vs.Idx) bool {
		return vs.Imp(vs.And(i >= 0, int(i) < n), vs.Eq(vs.UF[[]item]("expr.yield", a[i]), vs.UF[[]item]("expr.yield", b[i])))
	}))
	vs.Decreases(n)
	vs.Proof(func() {
		if n > 0 {
			V_ArgsYield(a, b, n-1)
		}
	})
	vs.Ensures("the same yield", vs.Eq(argsYield(a, n), argsYield(b, n)))
}

func allSafe(a []sql.Expr) bool {
	return vs.Forall(func(i vs.Idx) bool {
		return vs.Imp(vs.And(i >= 0, int(i) < len(a)), safeOf(a[i]))
	})
}

func all(a []sql.Expr, what string) bool {
	return vs.Forall(func(i vs.Idx) bool { return vs.Imp(vs.And(i >= 0, int(i) < len(a)), vs.UF[bool](what, a[i])) })
}

func callShape(s *sql.SExpr) shape {
	safe := vs.And(s != nil, allSafe(s.Args))
	if vs.Known(len(s.Args) == 1) {
		safe = view(s.Args[0]).safe
	}
	return shape{
		y:     vs.Cat([]item{{kind: openCall, id: s.Name}}, argsYield(s.Args, len(s.Args)), []item{{kind: closeCall}}),
		safe:  safe,
		wf:    all(s.Args, "expr.wf"),
		canon: all(s.Args, "expr.canon"),
		redge: tight,
		root:  tight,
	}
}

func testShape(q *sql.Subquery) shape {
	e, no := view(q.Expr), q.Expr == nil
	return shape{
		y:     vs.Cat([]item{{kind: openTest, s: q.Stmt, sop: q.Op, op: q.ExprOp}}, vs.Ite(no, nil, e.y), []item{{kind: closeTest}}),
		safe:  vs.And(q != nil, vs.Or(no, e.safe)),
		wf:    vs.Or(no, e.wf),
		canon: vs.Or(no, e.canon),
		redge: tight,
		root:  tight,
	}
}

func sameShape(a, b shape) bool {
	return vs.And(vs.Eq(a.y, b.y), a.safe == b.safe, a.wf == b.wf, a.canon == b.canon, a.redge == b.redge, a.root == b.root)
}

//vs:unfold
func U_Binary(e sql.Expr, b *sql.BinaryExpr) {
	vs.Assume("the shape of an expression is made of those of its parts", vs.And(
		vs.Imp(closedShape(e).safe, b != nil), vs.Imp(b != nil, sameShape(closedShape(e), binaryShape(b)))))
}

//vs:unfold
func U_Unary(e sql.Expr, u *sql.UnaryExpr) {
	vs.Assume("the shape of an expression is made of those of its parts", vs.And(
		vs.Imp(closedShape(e).safe, u != nil), vs.Imp(u != nil, sameShape(closedShape(e), unaryShape(u)))))
}

//vs:unfold
func U_Call(e sql.Expr, s *sql.SExpr) {
	vs.Assume("the shape of an expression is made of those of its parts", vs.And(
		vs.Imp(closedShape(e).safe, s != nil), vs.Imp(s != nil, vs.And(vs.Eq(args(e), s.Args), sameShape(closedShape(e), callShape(s))))))
}

//vs:unfold
func U_Test(e sql.Expr, q *sql.Subquery) {
	vs.Assume("the shape of an expression is made of those of its parts", vs.And(
		vs.Imp(closedShape(e).safe, q != nil), vs.Imp(q != nil, sameShape(closedShape(e), testShape(q)))))
}

// the arguments written
func args(e sql.Expr) []sql.Expr { return vs.UF[[]sql.Expr]("expr.args", e) }

func inner(e sql.Expr) bool {
	return vs.Or(vs.Is[*sql.BinaryExpr](e), vs.Is[*sql.UnaryExpr](e), vs.Is[*sql.SExpr](e), vs.Is[*sql.Subquery](e))
}

//vs:contract parser.adjustPrecedence
//vs:prop C35 C33
//vs:noframe
func V_adjustPrecedence(x sql.Expr) sql.Expr {
	vs.Assume("an expression is a tree: no part of it is part of anything else", true)
	w := view(x)
	vs.Assume("other expressions are operands", vs.Imp(!inner(x), vs.And(w.wf, w.canon, w.redge == tight, w.root == tight)))
	vs.Requires(w.safe)
	written := args(x)
	vs.Loop(func(e *sql.SExpr, i vs.Idx) {
		vs.Inv(len(e.Args) == len(written))
		vs.Inv(vs.Forall(func(j vs.Idx) bool {
			return vs.Imp(vs.And(j >= 0, int(j) < len(written)), vs.Eq(vs.UF[[]item]("expr.yield", e.Args[j]), vs.UF[[]item]("expr.yield", written[j])))
		}))
		vs.Inv(allSafe(e.Args))
		vs.Inv(vs.Forall(func(j vs.Idx) bool {
			return vs.Imp(vs.And(j >= i, int(j) < len(written)), e.Args[j] == written[j])
		}))
		vs.Inv(vs.Forall(func(j vs.Idx) bool {
			return vs.Imp(vs.And(j >= 0, j < i, vs.UF[bool]("expr.wf", written[j])), vs.And(vs.UF[bool]("expr.canon", e.Args[j]), vs.UF[bool]("expr.wf", e.Args[j])))
		}))
	})
	r := adjustPrecedence(x)
	if s, ok := vs.Open[*sql.SExpr](x); ok {
		vs.Proof(func() { V_ArgsYield(s.Args, written, len(written)) })
	}
	v := view(r)
	vs.Ensures("the operands and operators are the same from left to right", vs.Eq(v.y, w.y))
	vs.Ensures("nothing is nil", vs.And(r != nil, v.safe))
	vs.Ensures("an operator groups before looser ones, and from the left", vs.Imp(w.wf, v.canon))
	vs.Ensures("the right end is no looser", v.redge >= w.redge)
	vs.Ensures("what is not a binary operator is as an operand", vs.Or(vs.Is[*sql.BinaryExpr](r), v.root == tight))
	vs.Ensures("well-formed", vs.Imp(w.wf, v.wf))
	return r
}
