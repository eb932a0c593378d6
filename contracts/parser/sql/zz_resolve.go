package sql

import (
	"github.com/leftmike/maho/types"

	"vs"
)

// ---- statements resolve the names they are about (C29)

// What a resolver makes of a name, whatever it is.

func resTable(r Resolver, tn types.TableName) types.TableName {
	return types.TableName{
		Database: vs.UF[types.Identifier]("res.table.database", r, tn.Database, tn.Schema, tn.Table),
		Schema:   vs.UF[types.Identifier]("res.table.schema", r, tn.Database, tn.Schema, tn.Table),
		Table:    vs.UF[types.Identifier]("res.table.table", r, tn.Database, tn.Schema, tn.Table),
	}
}

func resSchema(r Resolver, sn types.SchemaName) types.SchemaName {
	return types.SchemaName{
		Database: vs.UF[types.Identifier]("res.schema.database", r, sn.Database, sn.Schema),
		Schema:   vs.UF[types.Identifier]("res.schema.schema", r, sn.Database, sn.Schema),
	}
}

//vs:iface parser/sql.Resolver.ResolveTable
func M_ResolveTable(r Resolver, tn types.TableName) types.TableName { return resTable(r, tn) }

//vs:iface parser/sql.Resolver.ResolveSchema
func M_ResolveSchema(r Resolver, sn types.SchemaName) types.SchemaName { return resSchema(r, sn) }

// By which resolver, and how often, the names of a statement were resolved.
func SResolver(stmt Stmt) *Resolver { return vs.G[Resolver](stmt, "resolver") }
func SResolved(stmt Stmt) *int      { return vs.G[int](stmt, "resolved") }

//vs:iface parser/sql.Stmt.Resolve
func M_Resolve(stmt Stmt, r Resolver) {
	*SResolver(stmt) = r
	*SResolved(stmt) += 1
}

//vs:contract (*parser/sql.CreateTable).Resolve
//vs:prop C29
func V_CreateTableResolve(stmt *CreateTable, r Resolver) {
	vs.Requires(r != nil)
	old := stmt.Table
	vs.Modifies(&stmt.Table)
	stmt.Resolve(r)
	vs.Ensures("its table is resolved", stmt.Table == resTable(r, old))
}

//vs:contract (*parser/sql.CreateIndex).Resolve
//vs:prop C29
func V_CreateIndexResolve(stmt *CreateIndex, r Resolver) {
	vs.Requires(r != nil)
	old := stmt.Table
	vs.Modifies(&stmt.Table)
	stmt.Resolve(r)
	vs.Ensures("its table is resolved", stmt.Table == resTable(r, old))
}

//vs:contract (*parser/sql.CreateSchema).Resolve
//vs:prop C29
func V_CreateSchemaResolve(stmt *CreateSchema, r Resolver) {
	vs.Requires(r != nil)
	old := stmt.Schema
	vs.Modifies(&stmt.Schema)
	stmt.Resolve(r)
	vs.Ensures("its schema is resolved", stmt.Schema == resSchema(r, old))
}

//vs:contract (*parser/sql.AlterTable).Resolve
//vs:prop C29
func V_AlterTableResolve(stmt *AlterTable, r Resolver) {
	vs.Requires(r != nil)
	old := stmt.Table
	vs.Modifies(&stmt.Table)
	stmt.Resolve(r)
	vs.Ensures("its table is resolved", stmt.Table == resTable(r, old))
}

//vs:contract (*parser/sql.DropIndex).Resolve
//vs:prop C29
func V_DropIndexResolve(stmt *DropIndex, r Resolver) {
	vs.Requires(r != nil)
	old := stmt.Table
	vs.Modifies(&stmt.Table)
	stmt.Resolve(r)
	vs.Ensures("its table is resolved", stmt.Table == resTable(r, old))
}

//vs:contract (*parser/sql.DropSchema).Resolve
//vs:prop C29
func V_DropSchemaResolve(stmt *DropSchema, r Resolver) {
	vs.Requires(r != nil)
	old := stmt.Schema
	vs.Modifies(&stmt.Schema)
	stmt.Resolve(r)
	vs.Ensures("its schema is resolved", stmt.Schema == resSchema(r, old))
}

//vs:contract (*parser/sql.Copy).Resolve
//vs:prop C29
func V_CopyResolve(stmt *Copy, r Resolver) {
	vs.Requires(r != nil)
	old := stmt.Table
	vs.Modifies(&stmt.Table)
	stmt.Resolve(r)
	vs.Ensures("its table is resolved", stmt.Table == resTable(r, old))
}

//vs:contract (*parser/sql.Delete).Resolve
//vs:prop C29
func V_DeleteResolve(stmt *Delete, r Resolver) {
	vs.Requires(r != nil)
	old := stmt.Table
	vs.Modifies(&stmt.Table)
	stmt.Resolve(r)
	vs.Ensures("its table is resolved", stmt.Table == resTable(r, old))
}

//vs:contract (*parser/sql.InsertValues).Resolve
//vs:prop C29
func V_InsertValuesResolve(stmt *InsertValues, r Resolver) {
	vs.Requires(r != nil)
	old := stmt.Table
	vs.Modifies(&stmt.Table)
	stmt.Resolve(r)
	vs.Ensures("its table is resolved", stmt.Table == resTable(r, old))
}

//vs:contract (*parser/sql.Update).Resolve
//vs:prop C29
func V_UpdateResolve(stmt *Update, r Resolver) {
	vs.Requires(r != nil)
	old := stmt.Table
	vs.Modifies(&stmt.Table)
	stmt.Resolve(r)
	vs.Ensures("its table is resolved", stmt.Table == resTable(r, old))
}

//vs:contract (*parser/sql.DropTable).Resolve
//vs:prop C29
func V_DropTableResolve(stmt *DropTable, r Resolver) {
	vs.Requires(r != nil)
	old, tbls := vs.Copy(stmt.Tables), stmt.Tables
	vs.Modifies(tbls)
	vs.Loop(func(i vs.Idx) {
		vs.Inv(vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, int(k) < len(old)), tbls[k] == vs.Ite(k < i, resTable(r, old[k]), old[k]))
		}))
	})
	stmt.Resolve(r)
	vs.Ensures("the same number of tables", len(stmt.Tables) == len(old))
	vs.Ensures("all of its tables are resolved", vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(old)), stmt.Tables[k] == resTable(r, old[k]))
	}))
}

//vs:contract (*parser/sql.Explain).Resolve
//vs:prop C29
func V_ExplainResolve(stmt *Explain, r Resolver) {
	vs.Requires(r != nil && stmt.Stmt != nil)
	s, n := stmt.Stmt, *SResolved(stmt.Stmt)
	vs.Modifies(SResolver(s), SResolved(s))
	stmt.Resolve(r)
	vs.Ensures("the statement explained is resolved", vs.And(stmt.Stmt == s, *SResolver(s) == r, *SResolved(s) == n+1))
}

//vs:contract (*parser/sql.Begin).Resolve
//vs:prop C29
func V_BeginResolve(stmt *Begin, r Resolver) {
	stmt.Resolve(r)
	vs.Ensures("nothing to resolve", true)
}

//vs:contract (*parser/sql.Commit).Resolve
//vs:prop C29
func V_CommitResolve(stmt *Commit, r Resolver) {
	stmt.Resolve(r)
	vs.Ensures("nothing to resolve", true)
}

//vs:contract (*parser/sql.Rollback).Resolve
//vs:prop C29
func V_RollbackResolve(stmt *Rollback, r Resolver) {
	stmt.Resolve(r)
	vs.Ensures("nothing to resolve", true)
}

//vs:contract (*parser/sql.Set).Resolve
//vs:prop C29
func V_SetResolve(stmt *Set, r Resolver) {
	stmt.Resolve(r)
	vs.Ensures("nothing to resolve", true)
}

//vs:contract (*parser/sql.Show).Resolve
//vs:prop C29
func V_ShowResolve(stmt *Show, r Resolver) {
	stmt.Resolve(r)
	vs.Ensures("nothing to resolve", true)
}

//vs:contract (*parser/sql.CreateDatabase).Resolve
//vs:prop C29
func V_CreateDatabaseResolve(stmt *CreateDatabase, r Resolver) {
	stmt.Resolve(r)
	vs.Ensures("nothing to resolve", true)
}

//vs:contract (*parser/sql.DropDatabase).Resolve
//vs:prop C29
func V_DropDatabaseResolve(stmt *DropDatabase, r Resolver) {
	stmt.Resolve(r)
	vs.Ensures("nothing to resolve", true)
}

//vs:contract (*parser/sql.Values).Resolve
//vs:prop C29
func V_ValuesResolve(stmt *Values, r Resolver) {
	stmt.Resolve(r)
	vs.Ensures("nothing to resolve", true)
}

//vs:contract (*parser/sql.Select).Resolve
//vs:prop C29
func V_SelectResolve(stmt *Select, r Resolver) {
	stmt.Resolve(r)
	vs.Ensures("nothing to resolve", true)
}
