package parser

import (
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
)

var zzWords = strings.Fields("a b c t k x1 NULL TRUE FALSE NOT EXISTS ( ) , ; . = == != <> < <= > >= << >> & | || + - * / % @ " +
	"AND OR IN IS ANY SOME ALL DEFAULT 'str' 'c' '' \"\" '\u00e9' 0 1 23 -5 4.5 x'0aff' b'01' count ALTER TABLE BEGIN COMMIT COPY CREATE DATABASE INDEX " +
	"SCHEMA UNIQUE DELETE FROM DROP EXPLAIN VERBOSE INSERT INTO ROLLBACK SELECT SET SHOW START TRANSACTION UPDATE USE VALUES " +
	"TO AS JOIN INNER LEFT OUTER RIGHT FULL CROSS ON USING WHERE GROUP BY HAVING ORDER ASC DESC IF PRIMARY KEY CHECK FOREIGN " +
	"REFERENCES CONSTRAINT ADD COLUMN CASCADE RESTRICT NO ACTION int text char double precision bool WITH path columns config " +
	"constraints databases schemas tables btree stdin")

var zzStmts = []string{
	"ALTER TABLE t ADD FOREIGN KEY (a , b) REFERENCES k (a , b) ON DELETE CASCADE ON UPDATE SET NULL",
	"ALTER TABLE t DROP CONSTRAINT IF EXISTS c , ALTER COLUMN a DROP NOT NULL",
	"BEGIN", "COMMIT", "ROLLBACK", "START TRANSACTION",
	"CREATE DATABASE a WITH path = 'str' b 23",
	"CREATE UNIQUE INDEX IF NOT EXISTS a ON t USING btree (a ASC , b DESC)",
	"CREATE SCHEMA a . b", "CREATE SCHEMA b",
	"CREATE TABLE IF NOT EXISTS a . b . t (a int PRIMARY KEY , b text (23) NOT NULL DEFAULT 'str' , c double precision CHECK (c > 1))",
	"CREATE TABLE t (a int , b char , CONSTRAINT k UNIQUE (a , b DESC) , FOREIGN KEY (b) REFERENCES k , CHECK (a < b))",
	"DELETE FROM t WHERE a = 1 AND NOT b < 4.5",
	"DROP DATABASE IF EXISTS a", "DROP INDEX a ON t", "DROP SCHEMA a . b", "DROP TABLE IF EXISTS t , a . t",
	"EXPLAIN VERBOSE SELECT *",
	"INSERT INTO t (a , b) VALUES (1 , DEFAULT) , (NULL , 'str')",
	"SELECT * FROM t", "SELECT a , t . * , b + 1 AS c FROM t AS k , (SELECT a) AS x1 (c , b) WHERE a IN (SELECT 1) GROUP BY a HAVING b ORDER BY a DESC , b",
	"SELECT a FROM t @ k LEFT OUTER JOIN b USING (a , b) CROSS JOIN c", "SELECT count (*) FROM a INNER JOIN b ON a = b",
	"SELECT a < ANY (VALUES (1 , 2) , (3 , 4)) , EXISTS (SHOW a) , (SELECT 1) , a IS NOT NULL , - (a + b) * c || 'c'",
	"SET a TO 'str'", "SET DATABASE = 1", "SET SCHEMA TO x'0aff'", "SET a = (SELECT * FROM t)", "SET a = - b + c . d",
	"SHOW columns FROM a . t", "SHOW config", "SHOW constraints FROM t", "SHOW DATABASE", "SHOW databases", "SHOW schemas FROM a", "SHOW tables FROM a . b", "SHOW tables",
	"UPDATE t SET a = 1 , b = DEFAULT WHERE a != b",
	"USE a", "USE 'str'", "USE NULL", "SET a TO NULL", "VALUES (1 , 'str') , (a + 1 , NULL)",
	"COPY t (a , b) FROM stdin DELIMITER ','",
}

// a statement of the list, changed here and there
func (e *zzEnv) stmt() []string {
	w := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(zzStmts[e.Intn(len(zzStmts))]))
	if e.Intn(8) == 0 && len(w) > 0 {
		i := e.Intn(len(w)) // one kind of token for another
		for j := range w {
			if w[j][0] == '\'' && e.Intn(2) == 0 {
				i = j
			}
		}
		if w[i][0] == '\'' {
			w[i] = []string{"''", "'ab'", "'\u00e9'", "x''"}[e.Intn(4)]
		} else {
			w[i] = zzWords[e.Intn(len(zzWords))]
		}
	}
	for n := e.Intn(4); n > 0 && e.Intn(3) > 0; n-- {
		i := 0
		if len(w) > 0 {
			i = e.Intn(len(w))
		}
		switch x := zzWords[e.Intn(len(zzWords))]; e.Intn(5) {
		case 0:
			if len(w) > 0 {
				w[i] = x
			}
		case 1:
			w = append(w[:i:i], append([]string{x}, w[i:]...)...)
		case 2:
			if len(w) > 0 {
				w = append(w[:i:i], w[i+1:]...)
			}
		case 3:
			w = w[:i]
		case 4:
			o := strings.Fields(zzStmts[e.Intn(len(zzStmts))])
			w = append(w[:i:i], o[e.Intn(len(o)):]...)
		}
	}
	return w
}

func zzParser(s string) *Parser { return NewParser(strings.NewReader(s), "input") }

func zzShow(s sql.Stmt) string {
	if s == nil {
		return "nothing"
	}
	if d, ok := s.(*sql.CreateDatabase); ok {
		return fmt.Sprintf("%s %v", d.Database, d.Options)
	}
	return fmt.Sprintf("%T %s", s, s)
}

func zzToken(c scanner.ScanCtx) string {
	var v interface{}
	switch c.Token {
	case token.Error:
		v = c.Error
	case token.Identifier, token.Reserved:
		v = c.Identifier
	case token.String:
		v = c.String
	case token.Bytes:
		v = c.Bytes
	case token.Integer:
		v = c.Integer
	case token.Float:
		v = c.Float
	}
	if c.Token == token.EOF || c.Token == token.EndOfStatement {
		return fmt.Sprint(c.Token)
	}
	return fmt.Sprintf("%d %v at %s", c.Token, v, c.Position)
}

func TestFalsify_C32(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 3000*e.iters; i++ {
		text := strings.Join(e.stmt(), " ") + "; " + strings.Join(e.stmt(), " ")
		if e.Intn(3) == 0 {
			text += " 'open"
		}
		var want []scanner.ScanCtx
		var s scanner.Scanner
		s.Init(strings.NewReader(text), "input")
		for j := 0; j < 40; j++ {
			var c scanner.ScanCtx
			s.Scan(&c)
			want = append(want, c)
			if c.Token == token.EOF || c.Token == token.Error {
				break
			}
		}
		p := zzParser(text)
		pos, far := -1, -1
		for j := 0; j < 60; j++ {
			e.n++
			if pos >= 0 && far-pos < 3 && e.Intn(2) == 0 {
				p.unscan()
				pos--
				if pos < 0 || far-pos == 3 {
					continue // before what the ring holds
				}
			} else {
				if pos+1 >= len(want) {
					break
				}
				pos++
				r, err := p.scanRune()
				if pos > far && (err != nil) != (want[pos].Token == token.Error) || err == nil && r != want[pos].Token {
					e.found("%q: scanRune() = %d, %v; want token %d", text, r, err, want[pos].Token)
				}
				if pos > far {
					far = pos
				}
			}
			if got, want := zzToken(*p.sctx), zzToken(want[pos]); got != want {
				e.found("%q: token %d is %s after scanning up to %d; want %s", text, pos, got, far, want)
			}
		}
	}
	e.oneAtATime()
}

// all the answers until the end of the input
func (e *zzEnv) answers(text string, max int) (r []string) {
	p := zzParser(text)
	for {
		e.n++
		s, err := p.Parse()
		if err == io.EOF {
			return r
		}
		if err != nil {
			if s != nil {
				e.found("%q: a statement and an error: %s, %v", text, zzShow(s), err)
			}
			r = append(r, "error")
		} else {
			if s == nil && p.sctx.Token != token.EndOfStatement {
				e.found("%q: neither a statement nor an error", text)
			}
			r = append(r, zzShow(s))
		}
		if len(r) > max {
			e.found("%q: more than %d answers", text, max)
		}
	}
}

func TestFalsify_C33(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 60000*e.iters; i++ {
		text := strings.Join(e.stmt(), " ")
		for e.Intn(3) == 0 {
			text += ";" + strings.Join(e.stmt(), " ")
		}
		if e.Intn(20) == 0 {
			text = text[:e.Intn(len(text)+1)]
		}
		if pan := e.try(func() { e.answers(text, 1000) }); pan != nil {
			e.found("%q: panic: %v", text, pan)
		}
		if pan := e.try(func() {
			x, err := zzParser(text).ParseExpr()
			if (x == nil) == (err == nil) {
				e.found("%q: ParseExpr() = %v, %v", text, x, err)
			}
		}); pan != nil {
			e.found("%q: ParseExpr: panic: %v", text, pan)
		}
	}
}

func TestFalsify_C34(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 10000*e.iters; i++ {
		var text string
		var want []string
		for n := 1 + e.Intn(5); n > 0; n-- {
			var w []string
			for _, x := range e.stmt() {
				if !strings.EqualFold(x, "COPY") {
					w = append(w, x)
				}
			}
			if e.Intn(6) == 0 {
				w = append(w, []string{"?", "$x", "!"}[e.Intn(3)]) // malformed
				if e.Intn(2) == 0 {
					w = append(w, e.stmt()...)
				}
			}
			s := strings.Join(w, " ")
			if strings.Contains(strings.ToUpper(s), "COPY") {
				continue
			}
			if n > 1 || e.Intn(3) > 0 {
				s += " ;"
			}
			text += s
			want = append(want, e.answers(s, 100)...)
		}
		got := e.answers(text, 1000)
		if !reflect.DeepEqual(got, want) {
			e.found("%q: %q; each statement alone: %q", text, got, want)
		}
	}
	e.oneAtATime()
}

// oneAtATime: a statement has one answer, and the next one is parsed whatever
// the answer is.
func (e *zzEnv) oneAtATime() {
	rollback := e.answers("ROLLBACK;", 1)[0]
	for i := 0; i < 20000*e.iters; i++ {
		var w []string
		for _, x := range e.stmt() {
			if x != ";" && !strings.EqualFold(x, "COPY") {
				w = append(w, x)
			}
		}
		for n := e.Intn(8) - 5; n > 0; n-- {
			k := e.Intn(len(w) + 1)
			w = append(w[:k:k], append([]string{[]string{"?", "$x", "x'0", "$0"}[e.Intn(4)]}, w[k:]...)...)
		}
		text := strings.Join(w, " ")
		malformed := strings.ContainsAny(text, "?$") || strings.Contains(text, "x'0 ")
		if strings.Contains(text, "x'0") && strings.Count(text, "'")%2 == 1 {
			continue // the rest of the input might be a part of a string
		}
		got := e.answers(text+" ; ROLLBACK ;", 1000)
		if len(got) == 0 || got[len(got)-1] != rollback {
			e.found("%q: %q: the next statement is lost", text+" ; ROLLBACK ;", got)
		}
		got = got[:len(got)-1]
		if len(w) > 0 && len(got) == 0 || !malformed && len(got) > 1 {
			e.found("%q: %q: %d answers to one statement", text+" ; ROLLBACK ;", got, len(got))
		}
		for _, s := range got {
			if s != "error" && len(got) > 1 {
				e.found("%q: %q: a statement in the middle of another", text+" ; ROLLBACK ;", got)
			}
		}
	}
}

// ---- expressions

type zzTok struct {
	text string
	bin  sql.Op
	prec int
}

var zzBin = []zzTok{{"OR", sql.OrOp, 1}, {"AND", sql.AndOp, 2}, {"=", sql.EqualOp, 4}, {"!=", sql.NotEqualOp, 4}, {"<", sql.LessThanOp, 5},
	{"<=", sql.LessEqualOp, 5}, {">", sql.GreaterThanOp, 5}, {">=", sql.GreaterEqualOp, 5}, {"&", sql.BinaryAndOp, 6}, {"|", sql.BinaryOrOp, 6},
	{"<<", sql.LShiftOp, 6}, {">>", sql.RShiftOp, 6}, {"+", sql.AddOp, 7}, {"-", sql.SubtractOp, 7}, {"*", sql.MultiplyOp, 8},
	{"/", sql.DivideOp, 8}, {"%", sql.ModuloOp, 8}, {"||", sql.ConcatOp, 10}}

// exprText is an expression as it is written.
func (e *zzEnv) exprText(deep int) []string {
	var w []string
	for n := e.Intn(6); ; n-- {
		for e.Intn(4) == 0 {
			w = append(w, []string{"NOT", "-"}[e.Intn(2)])
		}
		switch {
		case deep > 0 && e.Intn(5) == 0:
			w = append(w, "(")
			w = append(w, e.exprText(deep-1)...)
			w = append(w, ")")
		case deep > 0 && e.Intn(8) == 0:
			w = append(w, "f", "(")
			w = append(w, e.exprText(deep-1)...)
			w = append(w, ",")
			w = append(w, e.exprText(deep-1)...)
			w = append(w, ")")
		default:
			w = append(w, string(rune('g'+e.Intn(10))))
		}
		if n <= 0 {
			return w
		}
		w = append(w, zzBin[e.Intn(len(zzBin))].text)
	}
}

// climb groups by precedence, from the left.
func climb(w []string, min int) (string, []string) {
	var l string
	switch {
	case w[0] == "NOT":
		l, w = climb(w[1:], 3)
		l = "[NOT " + l + "]"
	case w[0] == "-":
		l, w = climb(w[1:], 9)
		l = "[- " + l + "]"
	case w[0] == "(":
		l, w = climb(w[1:], 0)
		l, w = "("+l+")", w[1:]
	case len(w) > 1 && w[1] == "(":
		l = w[0] + "("
		for w = w[2:]; ; w = w[1:] {
			var a string
			a, w = climb(w, 0)
			l += a + ","
			if w[0] == ")" {
				break
			}
		}
		l, w = l+")", w[1:]
	default:
		l, w = w[0], w[1:]
	}
	for len(w) > 0 {
		var op *zzTok
		for i := range zzBin {
			if zzBin[i].text == w[0] {
				op = &zzBin[i]
			}
		}
		if op == nil || op.prec < min {
			break
		}
		var r string
		r, w = climb(w[1:], op.prec+1)
		l = "[" + l + " " + op.text + " " + r + "]"
	}
	return l, w
}

func zzTree(x sql.Expr) string {
	switch x := x.(type) {
	case *sql.UnaryExpr:
		switch x.Op {
		case sql.NoOp:
			return "(" + zzTree(x.Expr) + ")"
		case sql.NotOp:
			return "[NOT " + zzTree(x.Expr) + "]"
		case sql.NegateOp:
			return "[- " + zzTree(x.Expr) + "]"
		}
	case *sql.BinaryExpr:
		for _, b := range zzBin {
			if b.bin == x.Op {
				return "[" + zzTree(x.Left) + " " + b.text + " " + zzTree(x.Right) + "]"
			}
		}
	case *sql.SExpr:
		s := x.Name.String() + "("
		for _, a := range x.Args {
			s += zzTree(a) + ","
		}
		return s + ")"
	case *sql.Subquery:
		return "{" + zzTree(x.Expr) + "}"
	case sql.Ref:
		return x.String()
	}
	return fmt.Sprintf("?%T", x)
}

func TestFalsify_C35(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 20000*e.iters; i++ {
		w := e.exprText(2)
		// a - followed by something is not the sign of a number here
		text := strings.Join(w, " ")
		want, rest := climb(w, 0)
		if len(rest) > 0 {
			e.found("%q: not parsed by the falsifier", text)
		}
		if e.Intn(4) == 0 {
			text += " IN (SELECT 1)"
			x, err := zzParser(text).ParseExpr()
			if err != nil {
				e.found("%q: %v", text, err)
			}
			// the test is of the last operand only: what it groups is covered by the contract
			_ = x
			continue
		}
		x, err := zzParser(text).ParseExpr()
		e.n++
		if err != nil {
			e.found("%q: %v", text, err)
		}
		if got := zzTree(x); got != want {
			e.found("%q: grouped as %s; want %s", text, got, want)
		}
	}
	// the left operand of a test
	for i := 0; i < 3000*e.iters; i++ {
		e.n++
		w := e.exprText(1)
		want, _ := climb(w, 0)
		text := "(" + strings.Join(w, " ") + ") IN (SELECT 1)"
		x, err := zzParser(text).ParseExpr()
		if err != nil {
			e.found("%q: %v", text, err)
		}
		if got := zzTree(x); got != "{("+want+")}" {
			e.found("%q: grouped as %s; want {(%s)}", text, got, want)
		}
	}
}

// ---- definitions

func zzRepeat(ids []types.Identifier) bool {
	seen := map[types.Identifier]bool{}
	for _, id := range ids {
		if seen[id] {
			return true
		}
		seen[id] = true
	}
	return false
}

func zzKeyOK(k sql.IndexKey) bool { return len(k.Columns) == len(k.Reverse) && !zzRepeat(k.Columns) }

func zzTableOK(s *sql.CreateTable) string {
	if len(s.ColumnTypes) != len(s.Columns) || len(s.ColumnDefaults) != len(s.Columns) {
		return "not one type and one default for each column"
	}
	if zzRepeat(s.Columns) {
		return "a column twice"
	}
	prim := 0
	var keys []sql.Constraint
	for _, c := range s.Constraints {
		if c.Type == sql.PrimaryConstraint || c.Type == sql.UniqueConstraint {
			if c.Type == sql.PrimaryConstraint {
				prim++
			}
			if !zzKeyOK(c.Key) {
				return "a malformed key"
			}
			for _, k := range keys {
				if k.Name == c.Name {
					return "two keys of the same name"
				}
				if reflect.DeepEqual(k.Key.Columns, c.Key.Columns) && reflect.DeepEqual(k.Key.Reverse, c.Key.Reverse) {
					return "two keys alike"
				}
			}
			keys = append(keys, c)
		}
	}
	if prim > 1 {
		return "two primary keys"
	}
	return ""
}

func zzFrom(fi sql.FromItem) bool {
	switch fi := fi.(type) {
	case sql.FromJoin:
		return !zzRepeat(fi.Using) && zzFrom(fi.Left) && zzFrom(fi.Right)
	}
	return true
}

func (e *zzEnv) names(n int) string {
	var s []string
	for ; n >= 0; n-- {
		s = append(s, string(rune('a'+e.Intn(6))))
	}
	return strings.Join(s, ", ")
}

func (e *zzEnv) keyCols() string {
	s := strings.Split(e.names(e.Intn(3)), ", ")
	for i := range s {
		s[i] += []string{"", " ASC", " DESC"}[e.Intn(3)]
	}
	return "(" + strings.Join(s, ", ") + ")"
}

func (e *zzEnv) definition() string {
	switch e.Intn(6) {
	case 0:
		return "INSERT INTO t (" + e.names(e.Intn(4)) + ") VALUES (1)"
	case 1:
		return "COPY t (" + e.names(e.Intn(4)) + ") FROM STDIN DELIMITER ','\n"
	case 2:
		s := "SELECT * FROM t JOIN k USING (" + e.names(e.Intn(4)) + ")"
		if e.Intn(2) == 0 {
			s += " LEFT JOIN b USING (" + e.names(e.Intn(4)) + ")"
		}
		return s
	case 3:
		s := "VALUES "
		for n := e.Intn(4); n >= 0; n-- {
			s += "(" + strings.Repeat("1, ", e.Intn(2)) + "2)"
			if n > 0 {
				s += ", "
			}
		}
		return s
	case 4:
		return "CREATE INDEX k ON t " + e.keyCols()
	}
	s := "CREATE TABLE t ("
	for n := 1 + e.Intn(4); n >= 0; n-- {
		con := ""
		if e.Intn(3) == 0 {
			con = "CONSTRAINT " + string(rune('u'+e.Intn(3))) + " "
		}
		switch e.Intn(6) {
		case 0:
			s += con + "PRIMARY KEY " + e.keyCols()
		case 1, 2:
			s += con + "UNIQUE " + e.keyCols()
		default:
			s += e.names(0) + []string{" int", " text", " char(3)"}[e.Intn(3)]
			for e.Intn(3) == 0 {
				if e.Intn(3) == 0 {
					s += " CONSTRAINT " + string(rune('u'+e.Intn(3)))
				}
				s += []string{" PRIMARY KEY", " UNIQUE", " NOT NULL", " DEFAULT 1", " CHECK (a > 1)"}[e.Intn(5)]
			}
		}
		if n > 0 {
			s += ", "
		}
	}
	return s + ")"
}

func TestFalsify_C36(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 60000*e.iters; i++ {
		text := e.definition()
		s, err := zzParser(text).Parse()
		if err != nil {
			continue
		}
		e.n++
		bad := ""
		switch s := s.(type) {
		case *sql.CreateTable:
			bad = zzTableOK(s)
		case *sql.CreateIndex:
			if !zzKeyOK(s.Key) {
				bad = "a malformed key"
			}
		case *sql.InsertValues:
			if zzRepeat(s.Columns) {
				bad = "a column twice"
			}
		case *sql.Copy:
			if zzRepeat(s.Columns) {
				bad = "a column twice"
			}
		case *sql.Select:
			if !zzFrom(s.From) {
				bad = "a column twice"
			}
		case *sql.Values:
			for _, r := range s.Expressions {
				if len(r) != len(s.Expressions[0]) {
					bad = "rows of different widths"
				}
			}
		}
		if bad != "" {
			e.found("%q is accepted: %s", text, bad)
		}
	}
}
