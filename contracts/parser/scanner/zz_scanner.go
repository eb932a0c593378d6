package scanner

import (
	"io"

	"vs"

	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
)

// ---- the tokens of the input: the k-th scanned, how many were scanned so
// far, and how many ends of statements there are before the last one

func Count(s *Scanner) *int { return vs.G[int](s, "count") }
func Ends(s *Scanner) *int  { return vs.G[int](s, "ends") }
func stream(s *Scanner) int { return *vs.G[int](s, "stream") }
func Stream(s *Scanner) int { return stream(s) }

func Token(stream, k int) ScanCtx { return vs.UF[ScanCtx]("token.value", stream, k) }

// Recent tells the kinds of the last tokens scanned, the last one first.
type Recent struct{ K0, K1, K2, K3 rune }

func Kinds(s *Scanner) *Recent { return vs.G[Recent](s, "kinds") }

// validAt: the rune put back is the last one read, and nothing is left after
// the end of the input was told (kind is that of the last token)
//
//vs:rec
//vs:fuel 0
func validAt(rr io.RuneReader, runes int, unread bool, read rune, err error, kind rune) bool {
	size := vs.UF[int]("input.size", rr)
	k := runes - 1
	return vs.And(rr != nil, runes >= 0,
		vs.Imp(unread, vs.And(k >= 0, read == runeAt(rr, k), read >= -3, read != -2, vs.Iff(read == token.EOF, k >= size), vs.Imp(read == token.Error, err != nil))),
		vs.Imp(kind == token.EOF, runes-vs.Ite(unread, 1, 0) >= size))
}

func Valid(s *Scanner) bool {
	return validAt(s.rr, *Runes(s.rr), s.unread, s.read, s.err, Kinds(s).K0)
}

// Modifies lists what scanning a token changes but for what numbers tokens.
func Modifies(s *Scanner) {
	vs.Modifies(&s.unread, &s.read, &s.err, &s.line, &s.column, &s.buffer, Runes(s.rr))
}

//vs:contract (*parser/scanner.Scanner).Scan
//vs:prop C31 C32 C33
//vs:fuels validAt=1
func V_Scan(s *Scanner, sctx *ScanCtx) {
	vs.Requires(Valid(s))
	vs.Requires(sctx != nil)
	types.ModifiesNames()
	Modifies(s)
	vs.Modifies(sctx)
	s.Scan(sctx)
	vs.Ensures("an error token has an error", vs.Imp(sctx.Token == token.Error, sctx.Error != nil))
	k := *Kinds(s)
	vs.Ensures("nothing follows the end of the input", vs.Imp(k.K0 == token.EOF, sctx.Token == token.EOF))
	n := *Count(s)
	vs.Assume("the tokens of the input have numbers", vs.Eq(*sctx, Token(stream(s), n)))
	*Ends(s) += vs.Ite(k.K0 == token.EndOfStatement, 1, 0)
	*Kinds(s) = Recent{sctx.Token, k.K0, k.K1, k.K2}
	*Count(s) += 1
	vs.Ensures("and again", Valid(s))
}

// What is read by others is not counted: the numbers of the runes start again
// where the scanner goes on.
//
//vs:contract (*parser/scanner.Scanner).RuneReader
//vs:prop C31 C32 C33
//vs:fuels validAt=1
func V_RuneReader(s *Scanner) (io.RuneReader, int) {
	vs.Requires(Valid(s))
	vs.Modifies(&s.line, &s.column, Runes(s.rr))
	rr, line := s.RuneReader()
	vs.Ensures("a reader", rr != nil)
	*Runes(s.rr) = vs.Any[int]()
	vs.Assume("the numbers go on with the rune put back", Valid(s))
	return rr, line
}

//vs:contract (*parser/scanner.Scanner).Init
//vs:prop C31 C32 C33
//vs:fuels validAt=1
func V_Init(s *Scanner, rr io.RuneReader, fn string) {
	vs.Requires(!s.initialized)
	vs.Requires(!s.unread)
	vs.Requires(rr != nil)
	vs.Modifies(&s.initialized, &s.rr, &s.filename, &s.line, &s.column)
	s.Init(rr, fn)
	vs.Assume("none was scanned", vs.And(*Count(s) == 0, *Ends(s) == 0, vs.Eq(*Kinds(s), Recent{})))
	vs.Assume("or read", *Runes(s.rr) == 0)
	vs.Assume("before the first there is none", vs.And(vs.Eq(Token(stream(s), -1), ScanCtx{}), vs.Eq(Token(stream(s), -2), ScanCtx{}), vs.Eq(Token(stream(s), -3), ScanCtx{})))
	vs.Ensures("ready for the first", Valid(s))
}
