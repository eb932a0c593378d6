package scanner

import (
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
)

// zzTok is what one token of an input is: its kind, its value, and where the
// next one starts. A token without a kind is an error.
type zzTok struct {
	kind rune
	s    string
	i    int64
	f    float64
	end  int
}

// zzIn is an input: after its runes comes the end or, first, an error.
type zzIn struct {
	runes []rune
	fail  int // where the reader fails, or -1
}

func (in zzIn) at(k int) rune {
	if k == in.fail {
		return token.Error
	}
	if k >= len(in.runes) {
		return token.EOF
	}
	return in.runes[k]
}

func (in zzIn) class(k int, f func(r rune) bool) bool {
	r := in.at(k)
	return r >= 0 && f(r)
}

func zzHex(r rune) bool {
	return strings.ContainsRune("0123456789abcdefABCDEF", r)
}

// zzSpelled is the token at k as the spelling says.
func (in zzIn) zzSpelled(k int) zzTok {
	for {
		if in.class(k, unicode.IsSpace) {
			k++
		} else if in.at(k) == '-' && in.at(k+1) == '-' {
			for in.at(k) >= 0 && in.at(k) != '\n' {
				k++
			}
		} else if in.at(k) == '/' && in.at(k+1) == '*' {
			k += 2
			for in.at(k) >= 0 && !(in.at(k) == '*' && in.at(k+1) == '/') {
				k++
			}
			if in.at(k) >= 0 {
				k += 2
			}
		} else {
			break
		}
	}
	r, r1 := in.at(k), in.at(k+1)
	if r == token.Error {
		return zzTok{}
	}
	if r == token.EOF {
		return zzTok{kind: token.EOF, end: k}
	}
	if r1 == token.Error && strings.ContainsRune("-/+", r) {
		// the error is met before the token is known or with the next token
		if r == '+' {
			return zzTok{kind: r, end: k + 1}
		}
		return zzTok{}
	}
	switch {
	case r == ';':
		return zzTok{kind: token.EndOfStatement, end: k + 1}
	case r == '\'':
		return in.zzQuoted(k+1, false, token.String)
	case (r == 'e' || r == 'E') && r1 == '\'':
		return in.zzQuoted(k+2, true, token.String)
	case r == 'b' && r1 == '\'':
		return in.zzQuoted(k+2, true, token.Bytes)
	case (r == 'x' || r == 'X') && r1 == '\'':
		b := ""
		for k += 2; in.at(k) != '\''; k += 2 {
			if !in.class(k, zzHex) || !in.class(k+1, zzHex) {
				return zzTok{}
			}
			n, _ := strconv.ParseUint(string(in.runes[k:k+2]), 16, 8)
			b += string([]byte{byte(n)})
		}
		return zzTok{kind: token.Bytes, s: b, end: k + 1}
	case unicode.IsLetter(r) || r == '_':
		e := k + 1
		for in.class(e, func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '$' }) {
			e++
		}
		if in.at(e) == token.Error {
			return zzTok{}
		}
		id := types.ID(string(in.runes[k:e]), false)
		if id.IsReserved() {
			return zzTok{kind: token.Reserved, s: id.String(), end: e}
		}
		return zzTok{kind: token.Identifier, s: id.String(), end: e}
	case r == '"' || r == '`' || r == '[':
		d := r
		if r == '[' {
			d = ']'
		}
		e := k + 1
		for in.at(e) >= 0 && in.at(e) != d {
			e++
		}
		if in.at(e) < 0 {
			return zzTok{}
		}
		return zzTok{kind: token.Identifier, s: types.ID(string(in.runes[k+1:e]), true).String(), end: e + 1}
	case unicode.IsDigit(r) || ((r == '+' || r == '-') && in.class(k+1, unicode.IsDigit)):
		e, dots := k+1, 0
		for in.class(e, unicode.IsDigit) || (in.at(e) == '.' && dots == 0) {
			if in.at(e) == '.' {
				dots++
			}
			e++
		}
		if in.at(e) == token.Error {
			return zzTok{}
		}
		s := string(in.runes[k:e])
		if dots > 0 {
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return zzTok{}
			}
			return zzTok{kind: token.Float, f: f, end: e}
		}
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return zzTok{}
		}
		return zzTok{kind: token.Integer, i: i, end: e}
	case r == '$':
		e := k + 1
		for in.class(e, unicode.IsDigit) {
			e++
		}
		i, err := strconv.ParseInt(string(in.runes[k+1:e]), 10, 64)
		if err != nil || i == 0 || in.at(e) == token.Error {
			return zzTok{}
		}
		return zzTok{kind: token.Parameter, i: i, end: e}
	case strings.ContainsRune("-+*/%=<>&|!", r):
		if r != '+' && r != '-' && in.class(k+1, func(r rune) bool { return strings.ContainsRune("*/%=<>&|!", r) }) {
			for t, s := range map[rune]string{token.BarBar: "||", token.LessLess: "<<", token.LessEqual: "<=", token.LessGreater: "<>", token.GreaterGreater: ">>", token.GreaterEqual: ">=", token.EqualEqual: "==", token.BangEqual: "!="} {
				if s == string([]rune{r, r1}) {
					return zzTok{kind: t, end: k + 2}
				}
			}
			return zzTok{}
		}
		return zzTok{kind: r, end: k + 1}
	case strings.ContainsRune(".,()@", r):
		return zzTok{kind: r, end: k + 1}
	}
	return zzTok{}
}

func (in zzIn) zzQuoted(k int, esc bool, kind rune) zzTok {
	var b strings.Builder
	simple := map[rune]rune{'a': 7, 'b': 8, 't': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13}
	for {
		r := in.at(k)
		if r < 0 {
			return zzTok{}
		}
		if r == '\'' {
			if in.at(k+1) == '\'' {
				b.WriteByte('\'')
				k += 2
				continue
			}
			e, nl := k+1, false
			for in.class(e, unicode.IsSpace) {
				nl = nl || in.at(e) == '\n' || in.at(e) == '\r'
				e++
			}
			if nl && in.at(e) == '\'' {
				k = e + 1
				continue
			}
			if in.at(e) == token.Error && e > k+1 {
				return zzTok{}
			}
			return zzTok{kind: kind, s: b.String(), end: e}
		}
		if r != '\\' || !esc {
			b.WriteRune(r)
			k++
			continue
		}
		r = in.at(k + 1)
		base, from, n := 0, k+2, 0
		switch {
		case r < 0:
			return zzTok{}
		case r == 'x':
			base, n = 16, 2
		case r == 'u':
			base, n = 16, 4
		case r == 'U':
			base, n = 16, 8
		case '0' <= r && r <= '7':
			base, from, n = 8, k+1, 3
		}
		if base == 0 {
			if c, ok := simple[r]; ok {
				r = c
			}
			b.WriteRune(r)
			k += 2
			continue
		}
		s := ""
		for i := 0; i < n; i++ {
			if in.at(from+i) < 0 {
				return zzTok{}
			}
			s += string(in.at(from + i))
		}
		u, err := strconv.ParseUint(s, base, 32)
		if err != nil || u > unicode.MaxRune || !utf8.ValidRune(rune(u)) || (base == 8 && u > 0377) {
			return zzTok{}
		}
		b.WriteRune(rune(u))
		k = from + n
	}
}

type zzReader struct {
	in zzIn
	k  int
}

var errZZ = errors.New("read error")

func (rr *zzReader) ReadRune() (rune, int, error) {
	r := rr.in.at(rr.k)
	rr.k++
	switch r {
	case token.EOF:
		return 0, 0, io.EOF
	case token.Error:
		return 0, 0, errZZ
	}
	return r, utf8.RuneLen(r), nil
}

func (e *zzEnv) zzPiece() string {
	pick := func(l ...string) string { return l[e.Intn(len(l))] }
	digits := func(set string, lo, hi int) string {
		s := ""
		for n := lo + e.Intn(hi-lo+1); n > 0; n-- {
			s += string(set[e.Intn(len(set))])
		}
		return s
	}
	body := func() string {
		s := ""
		for n := e.Intn(5); n > 0; n-- {
			switch e.Intn(9) {
			case 0, 1:
				s += pick("a", "\\\\", "''", "é", "\U0001F600", " ", "\n", "\x00", "b", "\t", "\u00a0", "\u0085", "\ufffd")
			case 2:
				s += "\\x" + digits("0123456789abcdefABCDEFgG", 1, 3)
			case 3:
				s += "\\u" + digits("0123456789abcdefABCDEFd8", 3, 5)
			case 4:
				s += "\\U" + pick("0000", "0001", "0010", "0011", "8000", "FFFF") + digits("0123456789abcdefABCDEF", 4, 4)
			case 5:
				s += "\\" + digits("01234567", 1, 4)
			case 6:
				s += "\\" + digits("12345678", 3, 3)
			case 7:
				s += "\\" + pick("a", "b", "t", "n", "v", "f", "r", "'", "\"", "q", "8", "9", "\\", "\n")
			default:
				s += pick("'\n'", "' \n '", "' '", "'\r'", "'\t\n\t'", "'\n\n'", "\\", "' \r")
			}
		}
		return s
	}
	switch e.Intn(14) {
	case 0, 1:
		return pick("e'", "E'", "b'", "B'", "'") + body() + pick("'", "'", "'", "")
	case 2:
		return pick("x'", "X'") + digits("0123456789abcdefABCDEF", 0, 6) + pick("", "", "", "g", " ") + pick("'", "'", "")
	case 3:
		return pick("", "-", "+", "--", "- ") + digits("0123456789", 1, 20)
	case 4:
		return pick("", "-", "+") + pick("9223372036854775807", "9223372036854775808", "9223372036854775809", "0", "00012", "10000000000000000000", "٣")
	case 5:
		return pick("", "-", "+") + digits("0123456789", 1, 5) + "." + digits("0123456789.", 0, 5)
	case 6:
		return "$" + digits("0123456789", 0, 4)
	case 7:
		return pick("e", "b", "x", "X", "_", "Select", "abc", "É", "a$1", "x1")
	case 8:
		q := pick("\"\"", "``", "[]")
		return q[:1] + pick("", "A b", "'", "é", "[", "x\ny") + q[1:]
	case 9:
		return pick("-", "+", "*", "/", "%", "=", "<", ">", "&", "|", "!") + pick("", "-", "+", "*", "/", "=", "<", ">", "&", "|", "!")
	case 10:
		return pick("-- c\n", "--\n", "/* x */", "/**/", "/***/", "/*/ */", "/* * / */", "--", "/*", "/* '")
	case 11:
		return pick(";", ",", "(", ")", ".", "@", "#", "?", "\\", "\x00", "~")
	default:
		return pick(" ", "\n", "\t", "\r\n", "\u00a0", "\u2003", "\v", "")
	}
}

// the tokens of an input are those its spelling says, one after the other up
// to the first that is malformed, and keep their values
func TestFalsify_C31(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for n := 100000 * e.iters; n > 0; n-- {
		src := ""
		for k := 1 + e.Intn(4); k > 0; k-- {
			src += e.zzPiece()
			if e.Intn(3) == 0 {
				src += " "
			}
		}
		in := zzIn{[]rune(src), -1}
		if e.Intn(3) == 0 {
			in.fail = e.Intn(len(in.runes) + 1)
		}
		e.n++
		var s Scanner
		s.Init(&zzReader{in: in}, "input")
		what := func() string {
			if in.fail >= 0 {
				return fmt.Sprintf("%q, the reader failing at character %d", src, in.fail)
			}
			return fmt.Sprintf("%q", src)
		}
		// where the next token may begin: after a malformed one, that is left open
		at := []int{0}
		var all []ScanCtx
		var kept []string
		for len(all) < 20 {
			var c ScanCtx
			if pan := e.try(func() { s.Scan(&c) }); pan != nil {
				e.found("scanning %s panics: %v", what(), pan)
			}
			if c.Token == token.Error && c.Error == nil {
				e.found("scanning %s: an error token without an error", what())
			}
			was := at
			at = nil
			seen := map[int]bool{}
			why := ""
			for _, k := range was {
				w := in.zzSpelled(k)
				if diff := zzDiff(c, w); diff != "" {
					why = fmt.Sprintf("%s at character %d", diff, k)
				} else if w.kind == 0 {
					for j := k; j <= len(in.runes)+1; j++ {
						if !seen[j] {
							seen[j], at = true, append(at, j)
						}
					}
				} else if !seen[w.end] {
					seen[w.end], at = true, append(at, w.end)
				}
			}
			if len(at) == 0 {
				e.found("scanning %s: token %d: %s", what(), len(all), why)
			}
			all, kept = append(all, c), append(kept, zzShown(c))
			if c.Token == token.EOF {
				break
			}
		}
		for i, c := range all {
			if got := zzShown(c); got != kept[i] {
				e.found("scanning %s: token %d was %s and is %s once all is scanned", what(), i, kept[i], got)
			}
		}
		if all[len(all)-1].Token == token.EOF {
			var c ScanCtx
			if s.Scan(&c); c.Token != token.EOF {
				e.found("scanning %s: token %d after the end", what(), c.Token)
			}
		}
	}
}

func zzShown(c ScanCtx) string {
	return fmt.Sprintf("%d %q %x %d %x", c.Token, c.String, c.Bytes, c.Integer, math.Float64bits(c.Float))
}

// zzDiff is how a token differs from what it should be.
func zzDiff(c ScanCtx, w zzTok) string {
	if w.kind == 0 && c.Token == token.Error {
		return ""
	}
	if w.kind == 0 || c.Token != w.kind {
		return fmt.Sprintf("kind %d (%v), want %s", c.Token, c.Error, zzKind(w.kind))
	}
	switch w.kind {
	case token.String:
		if c.String != w.s {
			return fmt.Sprintf("string %q, want %q", c.String, w.s)
		}
	case token.Bytes:
		if string(c.Bytes) != w.s {
			return fmt.Sprintf("bytes %q, want %q", c.Bytes, w.s)
		}
	case token.Integer, token.Parameter:
		if c.Integer != w.i {
			return fmt.Sprintf("integer %d, want %d", c.Integer, w.i)
		}
	case token.Float:
		if math.Float64bits(c.Float) != math.Float64bits(w.f) {
			return fmt.Sprintf("float %v, want %v", c.Float, w.f)
		}
	case token.Identifier, token.Reserved:
		if c.Identifier.String() != w.s {
			return fmt.Sprintf("identifier %q, want %q", c.Identifier, w.s)
		}
	}
	return ""
}

func zzKind(k rune) string {
	if k == 0 {
		return "an error"
	}
	return fmt.Sprint("token ", k)
}
