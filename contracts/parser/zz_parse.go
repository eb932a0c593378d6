package parser

import (
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"

	"vs"
)

// ---- within a statement: tokens are scanned and put back, never past the end
// of the statement

// enter: what holds when part of a statement is parsed
func enter(p *Parser) toks {
	at(p)
	vs.Requires(valid(p))
	vs.Requires(atCur(p))
	vs.Requires(p.unscanned <= 2)
	vs.Requires(p.sctx.Token != token.EndOfStatement)
	return parsing(p)
}

func parsing(p *Parser) toks {
	modifies(p)
	vs.MayPanic(true)
	was := now(p)
	vs.OnPanic(func() { at(p); rejected(p, was) })
	inv := func(p *Parser) {
		vs.Inv(valid(p))
		vs.Inv(atCur(p))
		vs.Inv(p.unscanned <= 2)
		vs.Inv(p.sctx.Token != token.EndOfStatement)
		vs.Inv(now(p).ends == was.ends)
	}
	vs.Loop(inv)
	vs.Join(inv)
	return was
}

// leave: what holds when that part is accepted
func leave(p *Parser, was toks) {
	at(p)
	vs.Ensures("the ring holds the last tokens", valid(p))
	vs.Ensures("the token is what is delivered", atCur(p))
	vs.Ensures("no more than two tokens are put back", p.unscanned <= 2)
	vs.Ensures("the end of the statement is not passed", p.sctx.Token != token.EndOfStatement)
	vs.Ensures("nothing of the next statement is scanned", now(p).ends == was.ends)
}

// rejected: what holds when it is not
func rejected(p *Parser, was toks) {
	is := now(p)
	vs.Ensures("the ring holds the last tokens", valid(p))
	vs.Ensures("the token is what is delivered", atCur(p))
	vs.Ensures("no more than two tokens are put back", p.unscanned <= 2)
	vs.Ensures("nothing of the next statement is scanned", is.ends == was.ends)
	vs.Ensures("at the end of the statement, or before", vs.Imp(p.sctx.Token == token.EndOfStatement, is.u == 0))
}

//vs:iface parser/sql.Expr.String
func M_ExprString(e sql.Expr) string {
	vs.Requires(view(e).safe)
	return vs.UF[string]("expr.string", e)
}

//vs:contract (*parser.Parser).parseSchemaName
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseSchemaName(p *Parser) types.SchemaName {
	was := enter(p)
	r := p.parseSchemaName()
	leave(p, was)
	return r
}

//vs:contract (*parser.Parser).parseTableName
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseTableName(p *Parser) types.TableName {
	was := enter(p)
	r := p.parseTableName()
	leave(p, was)
	return r
}

//vs:contract (*parser.Parser).parseAlias
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseAlias(p *Parser, required bool) types.Identifier {
	was := enter(p)
	r := p.parseAlias(required)
	leave(p, was)
	return r
}

//vs:contract (*parser.Parser).parseTableAlias
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseTableAlias(p *Parser) sql.FromItem {
	was := enter(p)
	r := p.parseTableAlias()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseColumnAliases
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseColumnAliases(p *Parser) []types.Identifier {
	was := enter(p)
	r := p.parseColumnAliases()
	leave(p, was)
	return r
}

//vs:contract (*parser.Parser).parseCreateTable
//vs:prop C33 C34 C32 C36
//vs:fuels NoRepeat=1 ConstraintsOK=1
//vs:errpanic
func V_parseCreateTable(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseCreateTable()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	if s, ok := vs.Open[*sql.CreateTable](r); ok {
		vs.Ensures("a well-formed table", sql.TableOK(s))
	}
	return r
}

//vs:contract (*parser.Parser).parseKey
//vs:prop C33 C34 C32 C36
//vs:errpanic
func V_parseKey(p *Parser, unique bool) sql.IndexKey {
	was := enter(p)
	vs.Loop(func(key sql.IndexKey) {
		vs.Proof(func() { sql.V_NoRepeatMore(key.Columns) })
		vs.Inv(sql.NoRepeat(key.Columns))
		vs.Inv(len(key.Columns) == len(key.Reverse))
	})
	vs.Loop(func(key sql.IndexKey, nam types.Identifier, i vs.Idx) {
		vs.Inv(vs.Forall(func(j vs.Idx) bool { return vs.Imp(vs.And(0 <= j, j < i), key.Columns[j] != nam) }))
	})
	r := p.parseKey(unique)
	leave(p, was)
	vs.Proof(func() { sql.V_NoRepeatMore(r.Columns) })
	vs.Ensures("one direction for each column, no column twice", sql.KeyOK(r))
	vs.Ensures("unique or not", r.Unique == unique)
	return r
}

//vs:contract (*parser.Parser).parseRefAction
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseRefAction(p *Parser) sql.RefAction {
	was := enter(p)
	r := p.parseRefAction()
	leave(p, was)
	return r
}

//vs:contract (*parser.Parser).parseOnActions
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseOnActions(p *Parser, fk *sql.ForeignKey) *sql.ForeignKey {
	was := enter(p)
	vs.Requires(fk != nil)
	vs.Modifies(fk)
	r := p.parseOnActions(fk)
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	vs.Ensures("the one given", r == fk)
	return r
}

//vs:contract (*parser.Parser).parseForeignKey
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseForeignKey(p *Parser, cn types.Identifier) *sql.ForeignKey {
	was := enter(p)
	r := p.parseForeignKey(cn)
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseColumnType
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseColumnType(p *Parser) types.ColumnType {
	was := enter(p)
	r := p.parseColumnType()
	leave(p, was)
	return r
}

//vs:contract (*parser.Parser).parseAlterTable
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseAlterTable(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseAlterTable()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseCreateIndex
//vs:prop C33 C34 C32 C36
//vs:errpanic
func V_parseCreateIndex(p *Parser, unique bool) sql.Stmt {
	was := enter(p)
	r := p.parseCreateIndex(unique)
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	if s, ok := vs.Open[*sql.CreateIndex](r); ok {
		vs.Ensures("a well-formed key", vs.And(sql.KeyOK(s.Key), s.Key.Unique == unique))
	}
	return r
}

//vs:contract (*parser.Parser).parseDelete
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseDelete(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseDelete()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseDropTable
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseDropTable(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseDropTable()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseDropIndex
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseDropIndex(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseDropIndex()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).optionalSubquery
//vs:prop C33 C34 C32
//vs:errpanic
func V_optionalSubquery(p *Parser) (sql.Stmt, bool) {
	was := enter(p)
	r, ok := p.optionalSubquery()
	leave(p, was)
	vs.Ensures("a statement", vs.Imp(ok, r != nil))
	return r, ok
}

//vs:contract (*parser.Parser).optionalBinaryOp
//vs:prop C33 C34 C32
//vs:errpanic
func V_optionalBinaryOp(p *Parser) (sql.Op, bool, bool) {
	was := enter(p)
	op, ok, b := p.optionalBinaryOp()
	leave(p, was)
	vs.Ensures("an operator", isOp(op))
	return op, ok, b
}

//vs:contract (*parser.Parser).parseSubquery
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseSubquery(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseSubquery()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseInsert
//vs:prop C33 C34 C32 C36
//vs:errpanic
func V_parseInsert(p *Parser) sql.Stmt {
	was := enter(p)
	inv := func(s sql.InsertValues) {
		vs.Proof(func() { sql.V_NoRepeatMore(s.Columns) })
		vs.Inv(sql.NoRepeat(s.Columns))
	}
	vs.Loop(inv)
	vs.Join(inv)
	vs.Loop(func(s sql.InsertValues, nam types.Identifier, i vs.Idx) {
		vs.Inv(vs.Forall(func(j vs.Idx) bool { return vs.Imp(vs.And(0 <= j, j < i), s.Columns[j] != nam) }))
	})
	r := p.parseInsert()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	if s, ok := vs.Open[*sql.InsertValues](r); ok {
		vs.Proof(func() { sql.V_NoRepeatMore(s.Columns) })
		vs.Ensures("no column twice", sql.NoRepeat(s.Columns))
	}
	return r
}

//vs:contract (*parser.Parser).parseCopy
//vs:prop C33 C34 C32 C36
//vs:errpanic
func V_parseCopy(p *Parser) sql.Stmt {
	was := enter(p)
	inv := func(s sql.Copy) {
		vs.Proof(func() { sql.V_NoRepeatMore(s.Columns) })
		vs.Inv(sql.NoRepeat(s.Columns))
	}
	vs.Loop(inv)
	vs.Join(inv)
	vs.Loop(func(s sql.Copy, nam types.Identifier, i vs.Idx) {
		vs.Inv(vs.Forall(func(j vs.Idx) bool { return vs.Imp(vs.And(0 <= j, j < i), s.Columns[j] != nam) }))
	})
	r := p.parseCopy()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	if s, ok := vs.Open[*sql.Copy](r); ok {
		vs.Proof(func() { sql.V_NoRepeatMore(s.Columns) })
		vs.Ensures("no column twice", sql.NoRepeat(s.Columns))
	}
	return r
}

// rectangle: all rows have the same width
func rectangle(rows [][]sql.Expr) bool {
	return vs.Forall(func(i vs.Idx) bool {
		return vs.Imp(vs.And(0 <= i, int(i) < len(rows)), len(rows[i]) == len(rows[0]))
	})
}

//vs:contract (*parser.Parser).parseValues
//vs:prop C33 C34 C32 C36
//vs:errpanic
func V_parseValues(p *Parser) *sql.Values {
	was := enter(p)
	vs.Loop(func(s sql.Values) {
		vs.Inv(vs.Imp(s.Expressions != nil, len(s.Expressions) >= 1))
		vs.Inv(rectangle(s.Expressions))
	})
	r := p.parseValues()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	vs.Ensures("all rows of the same width", rectangle(r.Expressions))
	return r
}

//vs:contract (*parser.Parser).parseSelect
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseSelect(p *Parser) *sql.Select {
	was := enter(p)
	r := p.parseSelect()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseFromItem
//vs:prop C33 C34 C32 C36
//vs:errpanic
func V_parseFromItem(p *Parser) sql.FromItem {
	was := enter(p)
	inv := func(fj sql.FromJoin) {
		vs.Proof(func() { sql.V_NoRepeatMore(fj.Using) })
		vs.Inv(sql.NoRepeat(fj.Using))
	}
	vs.Loop(inv)
	vs.Join(inv)
	vs.Loop(func(fj sql.FromJoin, nam types.Identifier, i vs.Idx) {
		vs.Inv(vs.Forall(func(j vs.Idx) bool { return vs.Imp(vs.And(0 <= j, j < i), fj.Using[j] != nam) }))
	})
	r := p.parseFromItem()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	if fj, ok := vs.Open[sql.FromJoin](r); ok {
		vs.Proof(func() { sql.V_NoRepeatMore(fj.Using) })
		vs.Ensures("no column twice", sql.NoRepeat(fj.Using))
	}
	return r
}

//vs:contract (*parser.Parser).parseFromList
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseFromList(p *Parser) sql.FromItem {
	was := enter(p)
	vs.Loop(func(fi sql.FromItem) { vs.Inv(fi != nil) })
	r := p.parseFromList()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseFromStmt
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseFromStmt(p *Parser, s sql.Stmt) sql.FromItem {
	was := enter(p)
	vs.Requires(s != nil)
	r := p.parseFromStmt(s)
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseUpdate
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseUpdate(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseUpdate()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseSet
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseSet(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseSet()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseShowFromTable
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseShowFromTable(p *Parser) (types.TableName, sql.Expr) {
	was := enter(p)
	tn, e := p.parseShowFromTable()
	leave(p, was)
	vs.Ensures("an expression", e != nil)
	return tn, e
}

//vs:contract (*parser.Parser).parseShow
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseShow(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseShow()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseUse
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseUse(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseUse()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseOptions
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseOptions(p *Parser) map[types.Identifier]string {
	was := enter(p)
	r := p.parseOptions()
	leave(p, was)
	return r
}

//vs:contract (*parser.Parser).parseCreateDatabase
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseCreateDatabase(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseCreateDatabase()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseDropDatabase
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseDropDatabase(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseDropDatabase()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseCreateSchema
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseCreateSchema(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseCreateSchema()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseDropSchema
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseDropSchema(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseDropSchema()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

//vs:contract (*parser.Parser).parseExplain
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseExplain(p *Parser) sql.Stmt {
	was := enter(p)
	r := p.parseExplain()
	leave(p, was)
	vs.Ensures("not nil", r != nil)
	return r
}

// expression: what holds before an expression
func expression(p *Parser) toks {
	vs.Requires(valid(p))
	vs.Requires(now(p).inside())
	return parsing(p)
}

//vs:contract (*parser.Parser).parseSubExpr
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseSubExpr(p *Parser) sql.Expr {
	was := expression(p)
	vs.Loop(func(se *sql.SExpr) {
		vs.Inv(allSafe(se.Args))
	})
	r := p.parseSubExpr()
	leave(p, was)
	vs.Ensures("nothing is nil", view(r).safe)
	return r
}

//vs:contract (*parser.Parser).parseExpr
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseExpr(p *Parser) sql.Expr {
	was := expression(p)
	r := p.parseExpr()
	leave(p, was)
	vs.Ensures("nothing is nil", view(r).safe)
	return r
}

//vs:contract (*parser.Parser).parseCreateDetails
//vs:prop C33 C34 C32 C36
//vs:errpanic
func V_parseCreateDetails(p *Parser, s *sql.CreateTable) {
	was := enter(p)
	vs.Requires(s != nil)
	vs.Requires(sql.TableOK(s))
	vs.Modifies(s, s.Columns, s.ColumnTypes, s.ColumnDefaults, s.Constraints, s.ForeignKeys)
	vs.Loop(func(s *sql.CreateTable) {
		vs.Proof(func() { sql.V_ConstraintMore(s.Constraints) })
		vs.Inv(sql.TableOK(s))
	})
	p.parseCreateDetails(s)
	leave(p, was)
	vs.Proof(func() { sql.V_ConstraintMore(s.Constraints) })
	vs.Ensures("a well-formed table", sql.TableOK(s))
}

//vs:contract (*parser.Parser).addKeyConstraint
//vs:prop C33 C36
//vs:errpanic
//vs:fuels ConstraintsOK=1
func V_addKeyConstraint(p *Parser, s *sql.CreateTable, ct sql.ConstraintType, cn types.Identifier, nkey sql.IndexKey) {
	vs.Requires(vs.And(p.sctx != nil, s != nil))
	vs.Requires(vs.Or(ct == sql.PrimaryConstraint, ct == sql.UniqueConstraint))
	vs.Requires(sql.KeyOK(nkey))
	vs.Requires(sql.ConstraintsOK(s.Constraints))
	vs.Modifies(&s.Constraints)
	vs.MayPanic(true)
	vs.Loop(func(i vs.Idx) {
		vs.Inv(vs.Forall(func(j vs.Idx) bool {
			return vs.Imp(vs.And(0 <= j, j < i), vs.And(s.Constraints[j].Name != cn, vs.Or(s.Constraints[j].Type != sql.PrimaryConstraint, ct != sql.PrimaryConstraint)))
		}))
	})
	vs.Loop(func(i vs.Idx) {
		vs.Inv(vs.Forall(func(j vs.Idx) bool {
			return vs.Imp(vs.And(0 <= j, j < i), !sql.SameKey(nkey, s.Constraints[j].Key))
		}))
	})
	p.addKeyConstraint(s, ct, cn, nkey)
	vs.Ensures("at most one primary key and no two keys alike", sql.ConstraintsOK(s.Constraints))
}

//vs:contract (*parser.Parser).addColumnConstraint
//vs:prop C33 C36
//vs:errpanic
func V_addColumnConstraint(p *Parser, s *sql.CreateTable, ct sql.ConstraintType, cn types.Identifier, colNum int) {
	vs.Requires(vs.And(p.sctx != nil, s != nil))
	vs.Requires(vs.And(colNum >= 0, colNum < len(s.Columns)))
	vs.Requires(vs.And(ct != sql.PrimaryConstraint, ct != sql.UniqueConstraint))
	vs.Requires(sql.ConstraintsOK(s.Constraints))
	vs.Modifies(&s.Constraints)
	vs.MayPanic(true)
	p.addColumnConstraint(s, ct, cn, colNum)
	vs.Proof(func() { sql.V_ConstraintMore(s.Constraints) })
	vs.Ensures("at most one primary key and no two keys alike", sql.ConstraintsOK(s.Constraints))
}

//vs:contract (*parser.Parser).parseColumn
//vs:prop C33 C34 C32 C36
//vs:fuels NoRepeat=1
//vs:errpanic
func V_parseColumn(p *Parser, s *sql.CreateTable) {
	was := enter(p)
	vs.Requires(s != nil)
	vs.Requires(sql.TableOK(s))
	vs.Modifies(s, s.Columns, s.ColumnTypes, s.ColumnDefaults, s.Constraints, s.ForeignKeys)
	vs.Loop(func(s *sql.CreateTable, nam types.Identifier, i vs.Idx) {
		vs.Inv(vs.Forall(func(j vs.Idx) bool { return vs.Imp(vs.And(0 <= j, j < i), s.Columns[j] != nam) }))
	})
	vs.Loop(func(s *sql.CreateTable) {
		vs.Proof(func() { sql.V_ConstraintMore(s.Constraints) })
		vs.Inv(sql.ConstraintsOK(s.Constraints))
	})
	p.parseColumn(s)
	leave(p, was)
	vs.Ensures("a well-formed table", sql.TableOK(s))
}

//vs:contract (*parser.Parser).parseStmt
//vs:prop C33 C34 C32
//vs:errpanic
func V_parseStmt(p *Parser) sql.Stmt {
	at(p)
	vs.Requires(valid(p))
	vs.Requires(atCur(p))
	vs.Requires(p.unscanned == 1)
	vs.Requires(now(p).first())
	was := parsing(p)
	r := p.parseStmt()
	at(p)
	vs.Ensures("the ring holds the last tokens", valid(p))
	vs.Ensures("the token is what is delivered", atCur(p))
	vs.Ensures("no more than two tokens are put back", p.unscanned <= 2)
	is := now(p)
	vs.Ensures("nothing of the next statement is scanned", is.ends == was.ends)
	vs.Ensures("the end of the statement is not passed", is.inside())
	vs.Ensures("a statement, or an empty one", vs.Or(r != nil, vs.And(is.u == 1, is.k.K0 == token.EndOfStatement)))
	return r
}
