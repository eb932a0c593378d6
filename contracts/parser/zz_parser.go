package parser

import (
	"io"

	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"

	"vs"
)

// ---- one statement after another

// atEnd: at the end of a statement
func (t toks) atEnd() bool { return vs.And(t.u == 0, t.k.K0 == token.EndOfStatement) }

// statement: how many ends of statements come before the next statement to be
// parsed; a rejected one is still to be skipped
func statement(p *Parser) int {
	t := now(p)
	return t.ends + vs.Ite(t.atEnd(), 1, 0) + vs.Ite(p.failed, 1, 0)
}

// fresh: the next token is the first of a statement, or none is left
func (t toks) fresh() bool {
	return vs.Or(t.cur() == token.EOF, vs.And(t.u == 0, vs.Or(t.n == 0, t.k.K0 == token.EndOfStatement)))
}

// first: the token put back is the first of a statement
func (t toks) first() bool {
	return vs.And(t.u == 1, vs.Or(t.n == 1, t.k.K1 == token.EndOfStatement))
}

// between: what holds before and after a statement is parsed
func between(p *Parser) bool {
	t := now(p)
	return vs.And(valid(p), p.unscanned <= 2,
		vs.Imp(!p.failed, t.fresh()),
		vs.Imp(p.failed, !t.atEnd()))
}

//vs:contract (*parser.Parser).Parse
//vs:prop C33 C34 C32
func V_Parse(p *Parser) (sql.Stmt, error) {
	vs.Requires(between(p))
	modifies(p)
	vs.Modifies(&p.failed)
	was, before, failed := now(p), statement(p), p.failed
	vs.Loop(func(p *Parser) {
		vs.Inv(valid(p))
		vs.Inv(p.unscanned <= 2)
		vs.Inv(!now(p).atEnd())
		vs.Inv(now(p).ends == was.ends)
		vs.Inv(p.failed)
	})
	r, err := p.Parse()
	at(p)
	is, after := now(p), statement(p)
	vs.Ensures("ready for the next statement", between(p))
	vs.Ensures("the token is what is delivered", atCur(p))
	vs.Ensures("a statement or an error", vs.Imp(err != nil, r == nil))
	vs.Ensures("or a statement of no tokens", vs.Imp(vs.And(err == nil, r == nil), is.k.K0 == token.EndOfStatement))
	vs.Ensures("an accepted statement is all there was before its end", vs.Imp(err == nil, vs.And(!p.failed, is.fresh(), is.ends == before)))
	vs.Ensures("a rejected statement is skipped next", vs.Imp(vs.And(err != nil, err != io.EOF, !vs.And(failed, p.failed)), after == before+1))
	vs.Ensures("no more than one statement is skipped", vs.Imp(err != nil, vs.Or(after == before, after == before+1)))
	vs.Ensures("only the end of the input is followed by nothing", vs.Imp(vs.And(err != nil, after == before), vs.Or(is.cur() == token.Error, vs.And(is.cur() == token.EOF, err == io.EOF))))
	return r, err
}

//vs:contract (*parser.Parser).ParseExpr
//vs:prop C33 C32
func V_ParseExpr(p *Parser) (sql.Expr, error) {
	vs.Requires(valid(p))
	vs.Requires(now(p).inside())
	modifies(p)
	was := now(p)
	r, err := p.ParseExpr()
	at(p)
	vs.Ensures("the ring holds the last tokens", valid(p))
	vs.Ensures("the token is what is delivered", atCur(p))
	vs.Ensures("nothing of the next statement is scanned", now(p).ends == was.ends)
	vs.Ensures("an expression or an error", vs.Iff(err != nil, r == nil))
	vs.Ensures("nothing within is nil", vs.Imp(err == nil, view(r).safe))
	return r, err
}

//vs:contract parser.NewParser
//vs:prop C32 C34
//vs:fuels ringOK=1
func V_NewParser(rr io.RuneReader, fn string) *Parser {
	vs.Requires(rr != nil)
	p := NewParser(rr, fn)
	vs.Ensures("at the first token", vs.And(*scanner.Count(&p.scanner) == 0, statement(p) == 0))
	vs.Ensures("ready for a statement", between(p))
	return p
}
