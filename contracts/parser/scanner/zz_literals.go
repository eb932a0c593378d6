package scanner

import (
	"io"
	"strconv"
	"unicode"
	"unicode/utf8"

	"vs"

	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
)

// ---- the runes of the input: the k-th of them, the end of the input being
// one and an error of the reader too, and how many were read so far

func Runes(rr io.RuneReader) *int { return vs.G[int](rr, "runes") }

func runeAt(rr io.RuneReader, k int) rune { return vs.UF[rune]("input.rune", rr, k) }

//vs:iface io.RuneReader.ReadRune
func M_ReadRune(rr io.RuneReader) (rune, int, error) {
	p := Runes(rr)
	k := *p
	*p = k + 1
	r := runeAt(rr, k)
	vs.Assume("a rune, the end or an error", vs.And(r >= -3, r != -2))
	vs.Assume("the input is finite", vs.Iff(r == token.EOF, k >= vs.UF[int]("input.size", rr)))
	if r == token.EOF {
		return 0, 0, io.EOF
	}
	if r == token.Error {
		err := vs.UF[error]("input.err", rr, k)
		vs.Assume("an error", vs.And(err != nil, err != io.EOF))
		return 0, 0, err
	}
	return r, utf8.RuneLen(r), nil
}

// pos: how many runes were consumed
func pos(s *Scanner) int { return *Runes(s.rr) - vs.Ite(s.unread, 1, 0) }

// ready: the rune put back is the last one read
func ready(s *Scanner) bool {
	return vs.And(s.rr != nil, *Runes(s.rr) >= 0, vs.Imp(s.unread, last(s)))
}

// last: the rune read last is known
func last(s *Scanner) bool {
	k := *Runes(s.rr) - 1
	return vs.And(k >= 0, s.read == runeAt(s.rr, k), s.read >= -3, s.read != -2,
		vs.Iff(s.read == token.EOF, k >= vs.UF[int]("input.size", s.rr)),
		vs.Imp(s.read == token.Error, s.err != nil))
}

func reads(s *Scanner, sctx *ScanCtx) {
	vs.Requires(vs.And(ready(s), sctx != nil))
	vs.Modifies(&s.unread, &s.read, &s.err, &s.line, &s.column, &sctx.Error, Runes(s.rr))
}

//vs:contract (*parser/scanner.Scanner).readRune
//vs:prop C31 C33
func V_readRune(s *Scanner, sctx *ScanCtx) rune {
	reads(s, sctx)
	k, was := pos(s), sctx.Error
	r := s.readRune(sctx)
	vs.Ensures("ready", vs.And(ready(s), !s.unread, last(s)))
	vs.Ensures("the next rune", vs.And(r == runeAt(s.rr, k), s.read == r))
	vs.Ensures("consumed", vs.And(pos(s) == k+1))
	vs.Ensures("an error is told", vs.Imp(r == token.Error, sctx.Error != nil))
	vs.Ensures("nothing else is", vs.Imp(r != token.Error, vs.Eq(sctx.Error, was)))
	return r
}

//vs:contract (*parser/scanner.Scanner).unreadRune
//vs:prop C31 C33
func V_unreadRune(s *Scanner) {
	vs.Requires(vs.And(s.rr != nil, !s.unread, last(s)))
	vs.Modifies(&s.unread)
	k := pos(s)
	s.unreadRune()
	vs.Ensures("ready", ready(s))
	vs.Ensures("put back", vs.And(s.unread, pos(s) == k-1))
}

// ---- digits

func isHex(r rune) bool {
	return vs.Or(vs.And('0' <= r, r <= '9'), vs.And('a' <= r, r <= 'f'), vs.And('A' <= r, r <= 'F'))
}

func hex(r rune) uint {
	return uint(vs.Ite(r <= '9', r-'0', vs.Ite(r <= 'F', r-'A'+10, r-'a'+10)))
}

// hexValue of the n digits from k, after digits of the value u
//
//vs:rec
//vs:fuel 1
func hexValue(rr io.RuneReader, k, n int, u uint) uint {
	if n <= 0 {
		return u
	}
	return hexValue(rr, k+1, n-1, u*16+hex(runeAt(rr, k)))
}

//vs:rec
//vs:fuel 1
func allHex(rr io.RuneReader, k, n int) bool {
	if n <= 0 {
		return true
	}
	return vs.And(isHex(runeAt(rr, k)), allHex(rr, k+1, n-1))
}

//vs:contract (*parser/scanner.Scanner).scanHexDigit
//vs:prop C31 C33
func V_scanHexDigit(s *Scanner, sctx *ScanCtx) (uint, bool) {
	reads(s, sctx)
	k := pos(s)
	d, ok := s.scanHexDigit(sctx)
	r := runeAt(s.rr, k)
	vs.Ensures("ready", vs.And(ready(s), !s.unread))
	vs.Ensures("a digit", vs.Iff(ok, isHex(r)))
	vs.Ensures("its value", vs.Imp(ok, vs.And(d == hex(r), d < 16)))
	vs.Ensures("consumed", vs.And(pos(s) == k+1))
	vs.Ensures("or an error", vs.Imp(!ok, sctx.Error != nil))
	return d, ok
}

//vs:contract (*parser/scanner.Scanner).scanHex
//vs:prop C31 C33
func V_scanHex(s *Scanner, sctx *ScanCtx) rune {
	reads(s, sctx)
	k := pos(s)
	r := s.scanHex(sctx)
	r1, r2 := runeAt(s.rr, k), runeAt(s.rr, k+1)
	vs.Ensures("ready", vs.And(ready(s), !s.unread))
	vs.Ensures("two digits or an error", vs.Iff(r == token.Error, !vs.And(isHex(r1), isHex(r2))))
	vs.Ensures("their value", vs.Imp(r != token.Error, vs.And(r == rune(hex(r1)*16+hex(r2)), r >= 0, r < 256)))
	vs.Ensures("consumed", vs.Imp(r != token.Error, pos(s) == k+2))
	vs.Ensures("or an error", vs.Imp(r == token.Error, sctx.Error != nil))
	return r
}

//vs:contract (*parser/scanner.Scanner).scanUnicode
//vs:prop C31 C33
func V_scanUnicode(s *Scanner, sctx *ScanCtx, digits int) rune {
	reads(s, sctx)
	vs.Requires(!s.unread)
	vs.Requires(vs.And(0 <= digits, digits <= 8))
	k, n := pos(s), digits
	vs.Loop(func(s *Scanner, u uint) {
		d := pos(s) - k
		vs.Inv(vs.And(0 <= d, d <= n))
		vs.Inv(vs.And(ready(s), !s.unread))
		vs.Inv(hexValue(s.rr, k, n, 0) == hexValue(s.rr, k+d, n-d, u))
		vs.Inv(allHex(s.rr, k, n) == allHex(s.rr, k+d, n-d))
	})
	vs.Loop(func(s *Scanner, i vs.Idx) {
		vs.Inv(int(i) == n-(pos(s)-k))
	})
	vs.Loop(func(s *Scanner, i vs.Idx) {
		vs.Inv(int(i) == pos(s)-k)
	})
	r := s.scanUnicode(sctx, digits)
	vs.Ensures("ready", vs.And(ready(s), !s.unread))
	v := hexValue(s.rr, k, n, 0)
	vs.Ensures("the character with that code", vs.Imp(r != token.Error, vs.And(r >= 0, uint(r) == v)))
	vs.Ensures("or none has it", vs.Iff(r == token.Error, !vs.And(allHex(s.rr, k, n), isRune(v))))
	vs.Ensures("consumed", vs.Imp(r != token.Error, pos(s) == k+n))
	vs.Ensures("or an error", vs.Imp(r == token.Error, sctx.Error != nil))
	return r
}

func isRune(u uint) bool {
	return vs.And(u <= 0x10FFFF, !vs.And(0xD800 <= u, u <= 0xDFFF))
}

//vs:contract (*parser/scanner.Scanner).scanOctalDigit
//vs:prop C31 C33
func V_scanOctalDigit(s *Scanner, sctx *ScanCtx) (byte, bool) {
	reads(s, sctx)
	k := pos(s)
	d, ok := s.scanOctalDigit(sctx)
	r := runeAt(s.rr, k)
	vs.Ensures("ready", vs.And(ready(s), !s.unread))
	vs.Ensures("a digit", vs.Iff(ok, isOctal(r)))
	vs.Ensures("its value", vs.Imp(ok, vs.And(rune(d) == r-'0', d < 8)))
	vs.Ensures("consumed", pos(s) == k+1)
	vs.Ensures("or an error", vs.Imp(!ok, sctx.Error != nil))
	return d, ok
}

func isOctal(r rune) bool { return vs.And('0' <= r, r <= '7') }

//vs:contract (*parser/scanner.Scanner).scanOctal
//vs:prop C31 C33
func V_scanOctal(s *Scanner, sctx *ScanCtx, r rune) rune {
	reads(s, sctx)
	vs.Requires(isOctal(r))
	k := pos(s)
	c := s.scanOctal(sctx, r)
	r1, r2 := runeAt(s.rr, k), runeAt(s.rr, k+1)
	v := (r-'0')*64 + (r1-'0')*8 + (r2 - '0')
	vs.Ensures("ready", vs.And(ready(s), !s.unread))
	vs.Ensures("three digits or an error", vs.Iff(c == token.Error, !vs.And(isOctal(r1), isOctal(r2), v < 256)))
	vs.Ensures("their value", vs.Imp(c != token.Error, vs.And(c == v, c >= 0)))
	vs.Ensures("consumed", vs.Imp(c != token.Error, pos(s) == k+2))
	vs.Ensures("or an error", vs.Imp(c == token.Error, sctx.Error != nil))
	return c
}

// ---- numbers

// numText: the digits from k, with the point if there is none before
//
//vs:rec
//vs:fuel 1
func numText(rr io.RuneReader, k int, dbl bool) string {
	r := runeAt(rr, k)
	if vs.And(!dbl, r == '.') {
		return string(r) + numText(rr, k+1, true)
	}
	if unicode.IsDigit(r) {
		return string(r) + numText(rr, k+1, dbl)
	}
	return ""
}

//vs:rec
//vs:fuel 1
func numEnd(rr io.RuneReader, k int, dbl bool) int {
	r := runeAt(rr, k)
	if vs.And(!dbl, r == '.') {
		return numEnd(rr, k+1, true)
	}
	if unicode.IsDigit(r) {
		return numEnd(rr, k+1, dbl)
	}
	return k
}

//vs:rec
//vs:fuel 1
func numDbl(rr io.RuneReader, k int, dbl bool) bool {
	r := runeAt(rr, k)
	if vs.And(!dbl, r == '.') {
		return numDbl(rr, k+1, true)
	}
	if unicode.IsDigit(r) {
		return numDbl(rr, k+1, dbl)
	}
	return dbl
}

func writes(s *Scanner, sctx *ScanCtx) {
	vs.Modifies(&s.buffer)
}

// after: the position is k, or after the end of the input there
func after(s *Scanner, k int) bool {
	return pos(s) == k+vs.Ite(runeAt(s.rr, k) == token.EOF, 1, 0)
}

//vs:contract (*parser/scanner.Scanner).scanNumber
//vs:prop C31 C33
func V_scanNumber(s *Scanner, sctx *ScanCtx, r rune, sign int64) rune {
	reads(s, sctx)
	writes(s, sctx)
	vs.Modifies(&sctx.Integer, &sctx.Float)
	vs.Requires(!s.unread)
	vs.Requires(s.buffer.Len() == 0)
	vs.Requires(unicode.IsDigit(r))
	k, first := pos(s), r
	was := sctx.Error
	spelling := string(first) + numText(s.rr, k, false)
	if sign < 0 {
		spelling = "-" + spelling
	}
	end, dbl := numEnd(s.rr, k, false), numDbl(s.rr, k, false)
	vs.Loop(func(s *Scanner, r rune, dbl bool) {
		vs.Inv(vs.And(ready(s), !s.unread))
		vs.Inv(s.buffer.String()+string(r)+numText(s.rr, pos(s), dbl) == spelling)
		vs.Inv(numEnd(s.rr, pos(s), dbl) == numEnd(s.rr, k, false))
		vs.Inv(numDbl(s.rr, pos(s), dbl) == numDbl(s.rr, k, false))
		vs.Inv(vs.Eq(sctx.Error, was))
	})
	t := s.scanNumber(sctx, r, sign)
	i, ierr := strconv.ParseInt(spelling, 10, 64)
	f, ferr := strconv.ParseFloat(spelling, 64)
	bad := runeAt(s.rr, end) == token.Error
	vs.Ensures("ready", ready(s))
	vs.Ensures("consumed", vs.Imp(!bad, after(s, end)))
	vs.Ensures("an integer", vs.Iff(t == token.Integer, vs.And(!bad, !dbl, ierr == nil)))
	vs.Ensures("has the value written", vs.Imp(t == token.Integer, sctx.Integer == i))
	vs.Ensures("a number with a point", vs.Iff(t == token.Float, vs.And(!bad, dbl, ferr == nil)))
	vs.Ensures("has that value", vs.Imp(t == token.Float, vs.Eq(sctx.Float, f)))
	vs.Ensures("or an error", vs.Or(t == token.Integer, t == token.Float, vs.And(t == token.Error, sctx.Error != nil)))
	return t
}

// ---- parameters

//vs:rec
//vs:fuel 1
func digits(rr io.RuneReader, k int) string {
	r := runeAt(rr, k)
	if unicode.IsDigit(r) {
		return string(r) + digits(rr, k+1)
	}
	return ""
}

//vs:rec
//vs:fuel 1
func digitsEnd(rr io.RuneReader, k int) int {
	if unicode.IsDigit(runeAt(rr, k)) {
		return digitsEnd(rr, k+1)
	}
	return k
}

//vs:contract (*parser/scanner.Scanner).scanParameter
//vs:prop C31 C33
func V_scanParameter(s *Scanner, sctx *ScanCtx, r rune) rune {
	reads(s, sctx)
	writes(s, sctx)
	vs.Modifies(&sctx.Integer)
	vs.Requires(!s.unread)
	vs.Requires(s.buffer.Len() == 0)
	vs.Requires(unicode.IsDigit(r))
	k, first := pos(s), r
	was := sctx.Error
	spelling := string(first) + digits(s.rr, k)
	end := digitsEnd(s.rr, k)
	vs.Loop(func(s *Scanner, r rune) {
		vs.Inv(vs.And(ready(s), !s.unread))
		vs.Inv(s.buffer.String()+string(r)+digits(s.rr, pos(s)) == spelling)
		vs.Inv(digitsEnd(s.rr, pos(s)) == digitsEnd(s.rr, k))
		vs.Inv(vs.Eq(sctx.Error, was))
	})
	t := s.scanParameter(sctx, r)
	i, ierr := strconv.ParseInt(spelling, 10, 64)
	bad := runeAt(s.rr, end) == token.Error
	vs.Ensures("ready", ready(s))
	vs.Ensures("consumed", vs.Imp(!bad, after(s, end)))
	vs.Ensures("a parameter", vs.Iff(t == token.Parameter, vs.And(!bad, ierr == nil, i != 0)))
	vs.Ensures("has the number written", vs.Imp(t == token.Parameter, sctx.Integer == i))
	vs.Ensures("or an error", vs.Or(t == token.Parameter, vs.And(t == token.Error, sctx.Error != nil)))
	return t
}

// ---- identifiers

func isIdent(r rune) bool {
	return vs.Or(unicode.IsLetter(r), unicode.IsDigit(r), r == '_', r == '$')
}

//vs:rec
//vs:fuel 1
func identText(rr io.RuneReader, k int) string {
	r := runeAt(rr, k)
	if isIdent(r) {
		return string(r) + identText(rr, k+1)
	}
	return ""
}

//vs:rec
//vs:fuel 1
func identEnd(rr io.RuneReader, k int) int {
	if isIdent(runeAt(rr, k)) {
		return identEnd(rr, k+1)
	}
	return k
}

//vs:contract (*parser/scanner.Scanner).scanIdentifier
//vs:prop C31 C33
func V_scanIdentifier(s *Scanner, sctx *ScanCtx, r rune) rune {
	reads(s, sctx)
	writes(s, sctx)
	types.ModifiesNames()
	vs.Modifies(&sctx.Identifier)
	vs.Requires(s.buffer.Len() == 0)
	k, first := pos(s), r
	was := sctx.Error
	spelling := string(first) + identText(s.rr, k)
	end := identEnd(s.rr, k)
	vs.Loop(func(s *Scanner, r rune) {
		vs.Inv(ready(s))
		vs.Inv(s.buffer.String()+string(r)+identText(s.rr, pos(s)) == spelling)
		vs.Inv(identEnd(s.rr, pos(s)) == identEnd(s.rr, k))
		vs.Inv(vs.Eq(sctx.Error, was))
	})
	t := s.scanIdentifier(sctx, r)
	bad := runeAt(s.rr, end) == token.Error
	vs.Ensures("ready", ready(s))
	vs.Ensures("consumed", vs.Imp(!bad, after(s, end)))
	vs.Ensures("an identifier, a reserved word or an error", vs.Or(t == token.Identifier, t == token.Reserved, vs.And(bad, t == token.Error, sctx.Error != nil)))
	vs.Ensures("the name written", vs.Imp(!bad, types.IsNamed(sctx.Identifier, spelling, false)))
	return t
}

//vs:rec
//vs:fuel 1
func quotedName(rr io.RuneReader, k int, delim rune) string {
	r := runeAt(rr, k)
	if vs.Or(r < 0, r == delim) {
		return ""
	}
	return string(r) + quotedName(rr, k+1, delim)
}

//vs:rec
//vs:fuel 1
func quotedNameEnd(rr io.RuneReader, k int, delim rune) int {
	r := runeAt(rr, k)
	if vs.Or(r < 0, r == delim) {
		return k
	}
	return quotedNameEnd(rr, k+1, delim)
}

//vs:contract (*parser/scanner.Scanner).scanQuotedIdentifier
//vs:prop C31 C33
func V_scanQuotedIdentifier(s *Scanner, sctx *ScanCtx, delim rune) rune {
	reads(s, sctx)
	writes(s, sctx)
	types.ModifiesNames()
	vs.Modifies(&sctx.Identifier)
	vs.Requires(s.buffer.Len() == 0)
	vs.Requires(delim >= 0)
	k := pos(s)
	vs.Loop(func(s *Scanner) {
		vs.Inv(ready(s))
		vs.Inv(s.buffer.String()+quotedName(s.rr, pos(s), delim) == quotedName(s.rr, k, delim))
		vs.Inv(quotedNameEnd(s.rr, pos(s), delim) == quotedNameEnd(s.rr, k, delim))
	})
	t := s.scanQuotedIdentifier(sctx, delim)
	end := quotedNameEnd(s.rr, k, delim)
	ok := runeAt(s.rr, end) == delim
	vs.Ensures("ready", ready(s))
	vs.Ensures("an identifier", vs.Iff(t == token.Identifier, ok))
	vs.Ensures("consumed", vs.Imp(ok, pos(s) == end+1))
	vs.Ensures("or an error", vs.Imp(!ok, vs.And(t == token.Error, sctx.Error != nil)))
	vs.Ensures("the name in the buffer", vs.Imp(ok, types.IsNamed(sctx.Identifier, s.buffer.String(), true)))
	vs.Ensures("is that written", vs.Imp(ok, s.buffer.String() == quotedName(s.rr, k, delim)))
	return t
}

// ---- bytes

//vs:rec
//vs:fuel 1
func hexBytes(rr io.RuneReader, k int) string {
	r1, r2 := runeAt(rr, k), runeAt(rr, k+1)
	if vs.And(isHex(r1), isHex(r2)) {
		return string([]byte{byte(hex(r1)*16 + hex(r2))}) + hexBytes(rr, k+2)
	}
	return ""
}

//vs:rec
//vs:fuel 1
func hexBytesEnd(rr io.RuneReader, k int) int {
	if vs.And(isHex(runeAt(rr, k)), isHex(runeAt(rr, k+1))) {
		return hexBytesEnd(rr, k+2)
	}
	return k
}

//vs:contract (*parser/scanner.Scanner).scanHexBytes
//vs:prop C31 C33
func V_scanHexBytes(s *Scanner, sctx *ScanCtx) rune {
	reads(s, sctx)
	writes(s, sctx)
	vs.Modifies(&sctx.Bytes)
	vs.Requires(s.buffer.Len() == 0)
	k := pos(s)
	vs.Loop(func(s *Scanner) {
		vs.Inv(ready(s))
		vs.Inv(s.buffer.String()+hexBytes(s.rr, pos(s)) == hexBytes(s.rr, k))
		vs.Inv(hexBytesEnd(s.rr, pos(s)) == hexBytesEnd(s.rr, k))
	})
	t := s.scanHexBytes(sctx)
	end := hexBytesEnd(s.rr, k)
	ok := runeAt(s.rr, end) == '\''
	vs.Ensures("ready", ready(s))
	vs.Ensures("bytes", vs.Iff(t == token.Bytes, ok))
	vs.Ensures("consumed", vs.Imp(ok, pos(s) == end+1))
	vs.Ensures("or an error", vs.Imp(!ok, vs.And(t == token.Error, sctx.Error != nil)))
	vs.Ensures("those written", vs.Imp(ok, string(sctx.Bytes) == hexBytes(s.rr, k)))
	vs.Ensures("shared with nothing", vs.Imp(ok, vs.Fresh(sctx.Bytes)))
	return t
}

// ---- strings

// escape: the character the escape denotes that has k after its backslash, or
// -3 if there is none
//
//vs:rec
//vs:fuel 2
func escape(rr io.RuneReader, k int) rune {
	r, r1, r2 := runeAt(rr, k), runeAt(rr, k+1), runeAt(rr, k+2)
	v, w := hexValue(rr, k+1, 4, 0), hexValue(rr, k+1, 8, 0)
	o := (r-'0')*64 + (r1-'0')*8 + (r2 - '0')
	return vs.Ite(r < 0, token.Error,
		vs.Ite(r == 'a', 7,
			vs.Ite(r == 'b', 8,
				vs.Ite(r == 't', 9,
					vs.Ite(r == 'n', 10,
						vs.Ite(r == 'v', 11,
							vs.Ite(r == 'f', 12,
								vs.Ite(r == 'r', 13,
									vs.Ite(r == 'x', vs.Ite(vs.And(isHex(r1), isHex(r2)), rune(hex(r1)*16+hex(r2)), token.Error),
										vs.Ite(r == 'u', vs.Ite(vs.And(allHex(rr, k+1, 4), isRune(v)), rune(v), token.Error),
											vs.Ite(r == 'U', vs.Ite(vs.And(allHex(rr, k+1, 8), isRune(w)), rune(w), token.Error),
												vs.Ite(isOctal(r), vs.Ite(vs.And(isOctal(r1), isOctal(r2), o < 256), o, token.Error),
													r))))))))))))
}

// escapeLen: how many runes it has from k
//
//vs:rec
//vs:fuel 2
func escapeLen(rr io.RuneReader, k int) int {
	r := runeAt(rr, k)
	return vs.Ite(vs.Or(r == 'x', isOctal(r)), 3, vs.Ite(r == 'u', 5, vs.Ite(r == 'U', 9, 1)))
}

type part struct {
	more  bool // there is more of the literal
	bad   bool // it is malformed
	r     rune // a character of it
	space bool // white space comes next
	next  int  // where the rest is
}

// partAt tells what of a literal is at k
func partAt(rr io.RuneReader, k int, esc bool) part {
	r, r1, c := runeAt(rr, k), runeAt(rr, k+1), escape(rr, k+1)
	quote, back := r == '\'', vs.And(r == '\\', esc)
	return part{
		more:  vs.And(r >= 0, vs.Imp(quote, r1 == '\''), vs.Imp(back, c >= 0)),
		bad:   vs.Or(r < 0, vs.And(back, c < 0)),
		r:     vs.Ite(back, c, r),
		space: vs.And(quote, unicode.IsSpace(r1)),
		next:  k + vs.Ite(vs.And(quote, r1 == '\''), 2, vs.Ite(back, 1+escapeLen(rr, k+1), 1)),
	}
}

// partAfter tells what of a literal is at k, after a quote and white space that
// has a newline or has none
func partAfter(rr io.RuneReader, k int, nl bool) part {
	r := runeAt(rr, k)
	space, more := unicode.IsSpace(r), vs.And(r == '\'', nl)
	return part{
		more:  more,
		bad:   r == token.Error,
		space: space,
		next:  k + vs.Ite(vs.Or(space, more), 1, 0),
	}
}

func newline(rr io.RuneReader, k int) bool {
	return vs.Or(runeAt(rr, k) == '\n', runeAt(rr, k) == '\r')
}

// literal is what is left of one: its text, where it ends, and whether it is
// well formed.
type literal struct {
	text string
	end  int
	ok   bool
}

//vs:rec
//vs:fuel 1
func quoted(rr io.RuneReader, k int, esc bool) literal {
	p := partAt(rr, k, esc)
	if p.space {
		return quotedAfter(rr, p.next, esc, false)
	}
	if !p.more {
		return literal{"", p.next, !p.bad}
	}
	l := quoted(rr, p.next, esc)
	return literal{string(p.r) + l.text, l.end, l.ok}
}

// quotedAfter: the same after a quote and white space
//
//vs:rec
//vs:fuel 1
func quotedAfter(rr io.RuneReader, k int, esc, nl bool) literal {
	p := partAfter(rr, k, nl)
	if p.space {
		return quotedAfter(rr, p.next, esc, vs.Or(nl, newline(rr, k)))
	}
	if !p.more {
		return literal{"", p.next, !p.bad}
	}
	return quoted(rr, p.next, esc)
}

func quotedText(rr io.RuneReader, k int, esc bool) string { return quoted(rr, k, esc).text }
func quotedEnd(rr io.RuneReader, k int, esc bool) int     { return quoted(rr, k, esc).end }
func quotedOK(rr io.RuneReader, k int, esc bool) bool     { return quoted(rr, k, esc).ok }

//vs:contract (*parser/scanner.Scanner).scanQuotedConstant
//vs:prop C31 C33
//vs:fuels hexValue=0 allHex=0
func V_scanQuotedConstant(s *Scanner, sctx *ScanCtx, esc bool) rune {
	reads(s, sctx)
	writes(s, sctx)
	vs.Requires(!s.unread)
	vs.Requires(s.buffer.Len() == 0)
	k := pos(s)
	vs.Loop(func(s *Scanner, _ vs.Outermost) {
		vs.Inv(vs.And(ready(s), !s.unread))
		vs.Inv(s.buffer.String()+quotedText(s.rr, pos(s), esc) == quotedText(s.rr, k, esc))
		vs.Inv(quotedEnd(s.rr, pos(s), esc) == quotedEnd(s.rr, k, esc))
		vs.Inv(quotedOK(s.rr, pos(s), esc) == quotedOK(s.rr, k, esc))
	})
	vs.Loop(func(s *Scanner, r rune, nl bool) {
		vs.Inv(vs.And(ready(s), !s.unread, last(s), r == runeAt(s.rr, pos(s)-1), vs.Imp(r == token.Error, sctx.Error != nil)))
		vs.Inv(s.buffer.String()+quotedAfter(s.rr, pos(s)-1, esc, nl).text == quotedText(s.rr, k, esc))
		vs.Inv(quotedAfter(s.rr, pos(s)-1, esc, nl).end == quotedEnd(s.rr, k, esc))
		vs.Inv(quotedAfter(s.rr, pos(s)-1, esc, nl).ok == quotedOK(s.rr, k, esc))
	})
	t := s.scanQuotedConstant(sctx, esc)
	ok := quotedOK(s.rr, k, esc)
	vs.Ensures("ready", ready(s))
	vs.Ensures("a literal", vs.Iff(t == token.String, ok))
	vs.Ensures("consumed", vs.Imp(ok, pos(s) == quotedEnd(s.rr, k, esc)))
	vs.Ensures("or an error", vs.Imp(!ok, vs.And(t == token.Error, sctx.Error != nil)))
	vs.Ensures("what is written", vs.Imp(ok, s.buffer.String() == quotedText(s.rr, k, esc)))
	return t
}

//vs:contract (*parser/scanner.Scanner).scanString
//vs:prop C31 C33
//vs:fuels hexValue=0 allHex=0 escape=0 escapeLen=0 quoted=0 quotedAfter=0
func V_scanString(s *Scanner, sctx *ScanCtx, esc bool) rune {
	reads(s, sctx)
	writes(s, sctx)
	vs.Modifies(&sctx.String)
	vs.Requires(!s.unread)
	vs.Requires(s.buffer.Len() == 0)
	k := pos(s)
	t := s.scanString(sctx, esc)
	ok := quotedOK(s.rr, k, esc)
	vs.Ensures("ready", ready(s))
	vs.Ensures("a string", vs.Iff(t == token.String, ok))
	vs.Ensures("consumed", vs.Imp(ok, pos(s) == quotedEnd(s.rr, k, esc)))
	vs.Ensures("or an error", vs.Imp(!ok, vs.And(t == token.Error, sctx.Error != nil)))
	vs.Ensures("the one written", vs.Imp(ok, sctx.String == quotedText(s.rr, k, esc)))
	return t
}

//vs:contract (*parser/scanner.Scanner).scanBytes
//vs:prop C31 C33
//vs:fuels hexValue=0 allHex=0 escape=0 escapeLen=0 quoted=0 quotedAfter=0
func V_scanBytes(s *Scanner, sctx *ScanCtx, esc bool) rune {
	reads(s, sctx)
	writes(s, sctx)
	vs.Modifies(&sctx.Bytes)
	vs.Requires(!s.unread)
	vs.Requires(s.buffer.Len() == 0)
	k := pos(s)
	t := s.scanBytes(sctx, esc)
	ok := quotedOK(s.rr, k, esc)
	vs.Ensures("ready", ready(s))
	vs.Ensures("bytes", vs.Iff(t == token.Bytes, ok))
	vs.Ensures("consumed", vs.Imp(ok, pos(s) == quotedEnd(s.rr, k, esc)))
	vs.Ensures("or an error", vs.Imp(!ok, vs.And(t == token.Error, sctx.Error != nil)))
	vs.Ensures("those written", vs.Imp(ok, string(sctx.Bytes) == quotedText(s.rr, k, esc)))
	vs.Ensures("shared with nothing", vs.Imp(ok, vs.Fresh(sctx.Bytes)))
	return t
}

// ---- tokens

// blankEnd: where the next token is, after white space and comments from k on
//
//vs:rec
//vs:fuel 1
func blankEnd(rr io.RuneReader, k int) int {
	r, r1 := runeAt(rr, k), runeAt(rr, k+1)
	if unicode.IsSpace(r) {
		return blankEnd(rr, k+1)
	}
	if vs.And(r == '-', r1 == '-') {
		return lineEnd(rr, k+2)
	}
	if vs.And(r == '/', r1 == '*') {
		return commentEnd(rr, k+2, false)
	}
	return k
}

// lineEnd: the same, within a comment to the end of the line
//
//vs:rec
//vs:fuel 1
func lineEnd(rr io.RuneReader, k int) int {
	r := runeAt(rr, k)
	if r < 0 {
		return k
	}
	if r == '\n' {
		return blankEnd(rr, k+1)
	}
	return lineEnd(rr, k+1)
}

// commentEnd: the same, within another comment and after a star or not
//
//vs:rec
//vs:fuel 1
func commentEnd(rr io.RuneReader, k int, star bool) int {
	r := runeAt(rr, k)
	if r < 0 {
		return k
	}
	if vs.And(star, r == '/') {
		return blankEnd(rr, k+1)
	}
	return commentEnd(rr, k+1, r == '*')
}

//vs:contract (*parser/scanner.Scanner).scan
//vs:prop C31 C33
//vs:fuels hexValue=0 allHex=0 escape=0 escapeLen=0 quoted=0 quotedAfter=0 numText=0 numEnd=0 numDbl=0 digits=0 digitsEnd=0 identText=0 identEnd=0 quotedName=0 quotedNameEnd=0 hexBytes=0 hexBytesEnd=0
func V_scan(s *Scanner, sctx *ScanCtx) rune {
	reads(s, sctx)
	writes(s, sctx)
	types.ModifiesNames()
	vs.Modifies(&sctx.Identifier, &sctx.String, &sctx.Bytes, &sctx.Integer, &sctx.Float, &sctx.Line, &sctx.Column)
	vs.Requires(s.buffer.Len() == 0)
	from := pos(s)
	none := from >= vs.UF[int]("input.size", s.rr)
	vs.Loop(func(s *Scanner, r rune) {
		vs.Inv(vs.Imp(none, runeAt(s.rr, from) == token.EOF))
		vs.Inv(vs.And(ready(s), !s.unread, last(s), r == runeAt(s.rr, pos(s)-1), vs.Imp(r == token.Error, sctx.Error != nil)))
		vs.Inv(s.buffer.Len() == 0)
		vs.Inv(blankEnd(s.rr, pos(s)-1) == blankEnd(s.rr, from))
	})
	vs.Loop(func(s *Scanner) {
		vs.Inv(vs.Imp(none, vs.Or(pos(s) == from, runeAt(s.rr, from) == token.EOF)))
		vs.Inv(ready(s))
		vs.Inv(s.buffer.Len() == 0)
		vs.Inv(blankEnd(s.rr, pos(s)) == blankEnd(s.rr, from))
	})
	vs.Loop(func(s *Scanner) {
		vs.Inv(lineEnd(s.rr, pos(s)) == blankEnd(s.rr, from))
	})
	vs.Loop(func(s *Scanner, p rune) {
		vs.Inv(commentEnd(s.rr, pos(s), p == '*') == blankEnd(s.rr, from))
	})
	t := s.scan(sctx)
	k := blankEnd(s.rr, from)
	r, r1 := runeAt(s.rr, k), runeAt(s.rr, k+1)
	vs.Ensures("ready", ready(s))
	vs.Ensures("an error token has an error", vs.Imp(t == token.Error, sctx.Error != nil))
	vs.Ensures("the end", vs.Iff(t == token.EOF, r == token.EOF))
	vs.Ensures("is the last there is", vs.Imp(t == token.EOF, *Runes(s.rr) > vs.UF[int]("input.size", s.rr)))
	vs.Ensures("nothing follows the end", vs.Imp(none, t == token.EOF))
	vs.Ensures("an error of the reader", vs.Imp(r == token.Error, t == token.Error))
	vs.Ensures("the end of a statement", vs.Iff(t == token.EndOfStatement, r == ';'))
	vs.Ensures("is all there is of it", vs.Imp(t == token.EndOfStatement, pos(s) == k+1))

	escaped := vs.And(vs.Or(r == 'e', r == 'E'), r1 == '\'')
	at := k + vs.Ite(escaped, 2, 1)
	str := vs.Or(escaped, r == '\'')
	sok := vs.And(str, quotedOK(s.rr, at, escaped))
	vs.Ensures("a string", vs.Iff(t == token.String, sok))
	vs.Ensures("is the one written", vs.Imp(sok, sctx.String == quotedText(s.rr, at, escaped)))
	vs.Ensures("and is consumed", vs.Imp(sok, pos(s) == quotedEnd(s.rr, at, escaped)))
	vs.Ensures("a malformed string", vs.Imp(vs.And(str, !sok), t == token.Error))

	byt := vs.And(r == 'b', r1 == '\'')
	bok := vs.And(byt, quotedOK(s.rr, k+2, true))
	hexa := vs.And(vs.Or(r == 'x', r == 'X'), r1 == '\'')
	hend := hexBytesEnd(s.rr, k+2)
	hok := vs.And(hexa, runeAt(s.rr, hend) == '\'')
	vs.Ensures("bytes", vs.Iff(t == token.Bytes, vs.Or(bok, hok)))
	vs.Ensures("bytes written as characters", vs.Imp(bok, vs.And(string(sctx.Bytes) == quotedText(s.rr, k+2, true), pos(s) == quotedEnd(s.rr, k+2, true))))
	vs.Ensures("bytes written as digits", vs.Imp(hok, vs.And(string(sctx.Bytes) == hexBytes(s.rr, k+2), pos(s) == hend+1)))
	vs.Ensures("malformed bytes", vs.Imp(vs.Or(vs.And(byt, !bok), vs.And(hexa, !hok)), t == token.Error))
	vs.Ensures("shared with nothing", vs.Imp(t == token.Bytes, vs.Fresh(sctx.Bytes)))

	signed := vs.And(vs.Or(r == '+', r == '-'), unicode.IsDigit(r1))
	num := vs.Or(signed, unicode.IsDigit(r))
	first := k + vs.Ite(signed, 1, 0)
	spelling := vs.Ite(r == '-', "-", "") + string(runeAt(s.rr, first)) + numText(s.rr, first+1, false)
	end, dbl := numEnd(s.rr, first+1, false), numDbl(s.rr, first+1, false)
	i, ierr := strconv.ParseInt(spelling, 10, 64)
	f, ferr := strconv.ParseFloat(spelling, 64)
	read := vs.And(num, runeAt(s.rr, end) != token.Error)
	vs.Ensures("an integer", vs.Iff(t == token.Integer, vs.And(read, !dbl, ierr == nil)))
	vs.Ensures("has the value written", vs.Imp(t == token.Integer, sctx.Integer == i))
	vs.Ensures("a number with a point", vs.Iff(t == token.Float, vs.And(read, dbl, ferr == nil)))
	vs.Ensures("has that value", vs.Imp(t == token.Float, vs.Eq(sctx.Float, f)))
	vs.Ensures("a malformed number", vs.Imp(num, vs.Or(t == token.Integer, t == token.Float, t == token.Error)))
	vs.Ensures("a number is consumed", vs.Imp(vs.Or(t == token.Integer, t == token.Float), after(s, end)))

	par := vs.And(r == '$', unicode.IsDigit(r1))
	ptext, pend := string(r1)+digits(s.rr, k+2), digitsEnd(s.rr, k+2)
	pi, perr := strconv.ParseInt(ptext, 10, 64)
	vs.Ensures("a parameter", vs.Iff(t == token.Parameter, vs.And(par, runeAt(s.rr, pend) != token.Error, perr == nil, pi != 0)))
	vs.Ensures("has the number written", vs.Imp(t == token.Parameter, vs.And(sctx.Integer == pi, after(s, pend))))
	vs.Ensures("a malformed parameter", vs.Imp(r == '$', vs.Or(t == token.Parameter, t == token.Error)))
	return t
}

