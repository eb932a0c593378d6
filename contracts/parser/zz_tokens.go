package parser

import (
	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"

	"vs"
)

// The ring holds the last three of the n tokens scanned; the last u of them are
// put back.
//
//vs:rec
//vs:fuel 0
func ringOK(lb [lookBackAmount]scanner.ScanCtx, cur, u uint, stream, n int, k scanner.Recent) bool {
	i := (cur + u) % 3
	t1, t2, t3 := scanner.Token(stream, n-1), scanner.Token(stream, n-2), scanner.Token(stream, n-3)
	return vs.And(
		errOK(t1), errOK(t2), errOK(t3),
		t1.Token == k.K0, t2.Token == k.K1, t3.Token == k.K2,
		vs.Imp(i == 0, vs.And(vs.Eq(lb[0], t1), vs.Eq(lb[2], t2), vs.Eq(lb[1], t3))),
		vs.Imp(i == 1, vs.And(vs.Eq(lb[1], t1), vs.Eq(lb[0], t2), vs.Eq(lb[2], t3))),
		vs.Imp(i == 2, vs.And(vs.Eq(lb[2], t1), vs.Eq(lb[1], t2), vs.Eq(lb[0], t3))))
}

func errOK(c scanner.ScanCtx) bool { return vs.Imp(c.Token == token.Error, c.Error != nil) }

type toks struct {
	stream int
	n      int            // tokens scanned
	k      scanner.Recent // their kinds
	ends   int            // ends of statements before the last of them
	u      uint           // tokens put back
}

func now(p *Parser) toks {
	s := &p.scanner
	return toks{scanner.Stream(s), *scanner.Count(s), *scanner.Kinds(s), *scanner.Ends(s), p.unscanned}
}

// the kind of the token at the position: the last one that is not put back
func (t toks) cur() rune {
	return vs.Ite(t.u == 0, t.k.K0, vs.Ite(t.u == 1, t.k.K1, vs.Ite(t.u == 2, t.k.K2, t.k.K3)))
}

// no end of statement is put back but as the last token, and there is nothing
// after the end of the input
func (t toks) window() bool {
	return vs.And(ended(t.k.K1, t.k.K0), ended(t.k.K2, t.k.K1), ended(t.k.K3, t.k.K2), vs.Imp(t.u >= 2, t.k.K1 != token.EndOfStatement), vs.Imp(t.u >= 3, t.k.K2 != token.EndOfStatement))
}

func same(a, b toks) bool {
	return vs.And(a.stream == b.stream, a.n == b.n, a.ends == b.ends, vs.Eq(a.k, b.k))
}

func ended(a, b rune) bool { return vs.Imp(a == token.EOF, b == token.EOF) }

// shifted: one more token scanned
func shifted(a, b toks) bool {
	return vs.And(a.stream == b.stream, b.n == a.n+1, b.k.K1 == a.k.K0, b.k.K2 == a.k.K1, b.k.K3 == a.k.K2, b.ends == a.ends+vs.Ite(a.k.K0 == token.EndOfStatement, 1, 0))
}

// the next token is not after the end of a statement
func (t toks) inside() bool { return vs.Imp(t.u == 0, t.k.K0 != token.EndOfStatement) }

func valid(p *Parser) bool {
	t := now(p)
	return vs.And(p.unscanned <= 3, p.current < 3, ringOK(p.lookBack, p.current, p.unscanned, t.stream, t.n, t.k), t.window(), scanner.Valid(&p.scanner))
}

func atCur(p *Parser) bool {
	c := p.lookBack[p.current]
	return vs.And(p.sctx == &p.lookBack[p.current], vs.Imp(p.unscanned <= 2, vs.And(c.Token == now(p).cur(), errOK(c))))
}

func modifies(p *Parser) {
	s := &p.scanner
	types.ModifiesNames()
	scanner.Modifies(s)
	vs.Modifies(&p.lookBack, &p.sctx, &p.current, &p.unscanned, scanner.Count(s), scanner.Ends(s), scanner.Kinds(s))
}

//vs:contract (*parser.Parser).scanRune
//vs:prop C32 C34
//vs:fuels ringOK=1
func V_scanRune(p *Parser) (rune, error) {
	vs.Requires(valid(p))
	was := now(p)
	modifies(p)
	r, err := p.scanRune()
	vs.Points(&p.sctx, &p.lookBack[p.current])
	is := now(p)
	vs.Ensures("the ring holds the last tokens", valid(p))
	vs.Ensures("one token further", is.u == vs.Ite(was.u > 0, was.u-1, 0))
	vs.Ensures("a token put back is scanned again", vs.Imp(was.u > 0, same(was, is)))
	vs.Ensures("then the next token of the input", vs.Imp(was.u == 0, shifted(was, is)))
	vs.Ensures("the token is what is delivered", atCur(p))
	vs.Ensures("and returned", vs.And(vs.Imp(err == nil, r == p.sctx.Token), vs.Imp(err != nil, p.sctx.Token == token.Error)))
	vs.Ensures("new tokens are not errors unless reported", vs.Imp(vs.And(err == nil, was.u == 0), r != token.Error))
	return r, err
}

//vs:contract (*parser.Parser).unscan
//vs:prop C32
//vs:fuels ringOK=1
func V_unscan(p *Parser) {
	vs.Points(&p.sctx, &p.lookBack[p.current])
	vs.Requires(valid(p))
	vs.Requires(p.unscanned <= 2)
	was := now(p)
	vs.Requires(vs.Imp(was.u >= 1, was.cur() != token.EndOfStatement))
	modifies(p)
	p.unscan()
	vs.Points(&p.sctx, &p.lookBack[p.current])
	is := now(p)
	vs.Ensures("the ring holds the last tokens", valid(p))
	vs.Ensures("one token back", is.u == was.u+1)
	vs.Ensures("nothing is scanned", same(was, is))
	vs.Ensures("the token is the one before", atCur(p))
}

func at(p *Parser) {
	vs.Points(&p.sctx, &p.lookBack[p.current])
}

// where: what holds before a token is expected
func where(p *Parser) toks {
	vs.Requires(valid(p))
	modifies(p)
	vs.MayPanic(true)
	return now(p)
}

// next: one token further, at a token which may not be the end of a statement
// if one is still put back
func next(p *Parser, was toks) {
	is := now(p)
	vs.Ensures("the ring holds the last tokens", valid(p))
	vs.Ensures("one token further", is.u == vs.Ite(was.u > 0, was.u-1, 0))
	vs.Ensures("a token put back is scanned again", vs.Imp(was.u > 0, same(was, is)))
	vs.Ensures("then the next token of the input", vs.Imp(was.u == 0, shifted(was, is)))
	vs.Ensures("the token is what is delivered", atCur(p))
}

//vs:contract (*parser.Parser).error
//vs:prop C33
//vs:errpanic
func V_error(p *Parser, msg string) {
	vs.Requires(p.sctx != nil)
	vs.MayPanic(true)
	p.error(msg)
	vs.Ensures("does not return", false)
}

//vs:contract (*parser.Parser).got
//vs:prop C33
func V_got(p *Parser) string {
	vs.Requires(p.sctx != nil)
	vs.Requires(errOK(*p.sctx))
	types.ModifiesNames()
	s := p.got()
	return s
}

//vs:contract (*parser.Parser).scan
//vs:prop C32 C33 C34
//vs:errpanic
func V_scan(p *Parser) rune {
	was := where(p)
	vs.OnPanic(func() { at(p); next(p, was) })
	r := p.scan()
	at(p)
	next(p, was)
	vs.Ensures("the kind of the token", r == p.sctx.Token)
	return r
}

//vs:contract (*parser.Parser).expectReserved
//vs:prop C32 C33 C34
//vs:errpanic
func V_expectReserved(p *Parser, ids []types.Identifier) types.Identifier {
	was := where(p)
	vs.OnPanic(func() { at(p); next(p, was) })
	r := p.expectReserved(ids...)
	at(p)
	next(p, was)
	vs.Ensures("a keyword", p.sctx.Token == token.Reserved)
	vs.Ensures("the one returned", p.sctx.Identifier == r)
	vs.Ensures("one of those", vs.Exists(func(i vs.Idx) bool { return vs.And(i >= 0, int(i) < len(ids), ids[i] == r) }))
	return r
}

// look: one token further, or nothing but a token scanned and put back
func look(p *Parser, was toks, got bool) {
	is := now(p)
	vs.Ensures("the ring holds the last tokens", valid(p))
	vs.Ensures("one token further", vs.Imp(got, is.u == vs.Ite(was.u > 0, was.u-1, 0)))
	vs.Ensures("or put back", vs.Imp(!got, is.u == vs.Ite(was.u > 0, was.u, 1)))
	vs.Ensures("a token put back is scanned again", vs.Imp(was.u > 0, same(was, is)))
	vs.Ensures("then the next token of the input", vs.Imp(was.u == 0, shifted(was, is)))
	vs.Ensures("the token is what is delivered", atCur(p))
}

//vs:contract (*parser.Parser).optionalReserved
//vs:prop C32 C33 C34
//vs:errpanic
func V_optionalReserved(p *Parser, ids []types.Identifier) bool {
	was := where(p)
	vs.OnPanic(func() { at(p); next(p, was) })
	r := p.optionalReserved(ids...)
	at(p)
	look(p, was, r)
	vs.Ensures("a keyword", vs.Imp(r, p.sctx.Token == token.Reserved))
	vs.Ensures("one of those", vs.Imp(r, vs.Exists(func(i vs.Idx) bool { return vs.And(i >= 0, int(i) < len(ids), ids[i] == p.sctx.Identifier) })))
	return r
}

//vs:contract (*parser.Parser).maybeToken
//vs:prop C32 C33 C34
//vs:errpanic
func V_maybeToken(p *Parser, mr rune) bool {
	was := where(p)
	vs.OnPanic(func() { at(p); next(p, was) })
	r := p.maybeToken(mr)
	at(p)
	look(p, was, r)
	vs.Ensures("the token", vs.Imp(r, p.sctx.Token == mr))
	return r
}

//vs:contract (*parser.Parser).maybeIdentifier
//vs:prop C32 C33 C34
//vs:errpanic
func V_maybeIdentifier(p *Parser, id types.Identifier) bool {
	was := where(p)
	vs.OnPanic(func() { at(p); next(p, was) })
	r := p.maybeIdentifier(id)
	at(p)
	look(p, was, r)
	vs.Ensures("the identifier", vs.Imp(r, p.sctx.Token == token.Identifier && p.sctx.Identifier == id))
	return r
}

//vs:contract (*parser.Parser).expectIdentifier
//vs:prop C32 C33 C34
//vs:errpanic
func V_expectIdentifier(p *Parser, msg string) types.Identifier {
	was := where(p)
	vs.OnPanic(func() { at(p); next(p, was) })
	r := p.expectIdentifier(msg)
	at(p)
	next(p, was)
	vs.Ensures("an identifier", p.sctx.Token == token.Identifier)
	vs.Ensures("that returned", p.sctx.Identifier == r)
	return r
}

//vs:contract (*parser.Parser).expectTokens
//vs:prop C32 C33 C34
//vs:errpanic
func V_expectTokens(p *Parser, tokens []rune) rune {
	vs.Requires(len(tokens) >= 1)
	was := where(p)
	vs.OnPanic(func() { at(p); next(p, was) })
	r := p.expectTokens(tokens...)
	at(p)
	next(p, was)
	vs.Ensures("the token", p.sctx.Token == r)
	vs.Ensures("one of those", vs.Exists(func(i vs.Idx) bool { return vs.And(i >= 0, int(i) < len(tokens), tokens[i] == r) }))
	return r
}

//vs:contract (*parser.Parser).expectInteger
//vs:prop C32 C33 C34
//vs:errpanic
func V_expectInteger(p *Parser, min, max int64) int64 {
	was := where(p)
	vs.OnPanic(func() { at(p); next(p, was) })
	r := p.expectInteger(min, max)
	at(p)
	next(p, was)
	vs.Ensures("an integer", p.sctx.Token == token.Integer)
	vs.Ensures("that returned", vs.And(p.sctx.Integer == r, min <= r, r <= max))
	return r
}

//vs:contract (*parser.Parser).expectEndOfStatement
//vs:prop C32 C33 C34
//vs:errpanic
func V_expectEndOfStatement(p *Parser) {
	was := where(p)
	vs.OnPanic(func() { at(p); next(p, was) })
	p.expectEndOfStatement()
	at(p)
	next(p, was)
	vs.Ensures("at the end", p.sctx.Token == token.EOF || p.sctx.Token == token.EndOfStatement)
}
