package engine

import (
	"context"

	"github.com/leftmike/maho/storage"

	"vs"
)

// ---- transactions (C27)

const (
	finCommit = iota + 1
	finRollback
)

// How often a storage transaction was finished, how the last time and with
// what result, and how many transactions a store has begun.
func fins(tx storage.Transaction) *int     { return vs.G[int](tx, "fins") }
func finKind(tx storage.Transaction) *int  { return vs.G[int](tx, "fin.kind") }
func finRes(tx storage.Transaction) *error { return vs.G[error](tx, "fin.res") }
func begun(st storage.Store) *int          { return vs.G[int](st, "begun") }
func lastTx(st storage.Store) *storage.Transaction {
	return vs.G[storage.Transaction](st, "last")
}

//vs:iface storage.Store.Begin
func M_StoreBegin(st storage.Store) storage.Transaction {
	tx := vs.New[storage.Transaction]()
	*fins(tx) = 0
	*fault(tx) = false
	*storeOf(tx) = st
	vs.CopyInto(content(tx), content(st))
	vs.CopyInto(made(tx), made(st))
	*begun(st) += 1
	*lastTx(st) = tx
	return tx
}

//vs:iface storage.Transaction.Commit
func M_StoreCommit(tx storage.Transaction, ctx context.Context) error {
	*fins(tx) += 1
	*finKind(tx) = finCommit
	err := vs.Any[error]()
	*finRes(tx) = err
	if err != nil {
		*fault(tx) = true
	} else {
		vs.CopyInto(content(*storeOf(tx)), content(tx))
		vs.CopyInto(made(*storeOf(tx)), made(tx))
	}
	return err
}

//vs:iface storage.Transaction.Rollback
func M_StoreRollback(tx storage.Transaction) error {
	*fins(tx) += 1
	*finKind(tx) = finRollback
	*finRes(tx) = vs.Any[error]()
	return *finRes(tx)
}

// finishing: what finishing a transaction may change.
func finishing(tx storage.Transaction) {
	vs.Modifies(fins(tx), finKind(tx), finRes(tx), fault(tx))
}

//vs:contract (*engine.engine).Begin
//vs:prop C27
func V_Begin(eng *engine) Transaction {
	vs.Requires(eng.store != nil)
	st := eng.store
	n := *begun(st)
	vs.Modifies(begun(st), lastTx(st))
	r := eng.Begin()
	tx, ok := r.(*transaction)
	vs.Ensures("one storage transaction is begun", vs.And(ok, *begun(st) == n+1, tx.tx == *lastTx(st), tx.tx != nil, *fins(tx.tx) == 0))
	vs.Ensures("on what the store holds", vs.And(*storeOf(tx.tx) == st, vs.SameMap(content(tx.tx), content(st)), vs.SameMap(made(tx.tx), made(st))))
	vs.Same(storeOf(tx.tx), st)
	return r
}

//vs:contract (*engine.transaction).Commit
//vs:prop C27
func V_Commit(tx *transaction, ctx context.Context) error {
	st := tx.tx
	vs.Modifies(&tx.tx)
	n := 0
	if st != nil {
		n = *fins(st)
		finishing(st)
		vs.Modifies(content(*storeOf(st)), made(*storeOf(st)))
	}
	err := tx.Commit(ctx)
	vs.Ensures("it is finished afterwards", tx.tx == nil)
	if st != nil {
		vs.Ensures("the storage transaction is committed once, with its result", vs.And(*fins(st) == n+1, *finKind(st) == finCommit, err == *finRes(st)))
		vs.Ensures("the store holds what the transaction did", vs.Imp(err == nil, vs.And(vs.SameMap(content(*storeOf(st)), content(st)), vs.SameMap(made(*storeOf(st)), made(st)))))
	} else {
		vs.Ensures("a finished one cannot be committed", err != nil)
	}
	return err
}

//vs:contract (*engine.transaction).Rollback
//vs:prop C27
func V_Rollback(tx *transaction) error {
	st := tx.tx
	vs.Modifies(&tx.tx)
	n := 0
	if st != nil {
		n = *fins(st)
		finishing(st)
	}
	err := tx.Rollback()
	vs.Ensures("it is finished afterwards", tx.tx == nil)
	if st != nil {
		vs.Ensures("the storage transaction is rolled back once, with its result", vs.And(*fins(st) == n+1, *finKind(st) == finRollback, err == *finRes(st)))
	} else {
		vs.Ensures("a finished one cannot be rolled back", err != nil)
	}
	return err
}

//vs:theorem
//vs:prop C27
func V_FinishOnce(eng *engine, ctx context.Context) {
	vs.Requires(eng.store != nil)
	vs.Modifies(begun(eng.store), lastTx(eng.store))
	tx := eng.Begin().(*transaction)
	st := tx.tx
	vs.Modifies(&tx.tx)
	finishing(st)
	vs.Modifies(content(*storeOf(st)), made(*storeOf(st)))
	var err error
	commit := vs.Any[bool]()
	if commit {
		err = tx.Commit(ctx)
	} else {
		err = tx.Rollback()
	}
	vs.Ensures("the first call finishes the storage transaction", vs.And(*fins(st) == 1, *finKind(st) == vs.Ite(commit, finCommit, finRollback)))
	vs.Ensures("and passes its result on", err == *finRes(st))
	kind, res := *finKind(st), *finRes(st)
	vs.Loop(func() {
		vs.Inv(tx.tx == nil)
		vs.Inv(vs.And(*fins(st) == 1, *finKind(st) == kind, *finRes(st) == res))
	})
	for vs.Any[bool]() {
		if vs.Any[bool]() {
			err = tx.Commit(ctx)
		} else {
			err = tx.Rollback()
		}
		vs.Ensures("any later call is an error", err != nil)
	}
	vs.Ensures("and touches nothing", vs.And(*fins(st) == 1, *finKind(st) == kind, *finRes(st) == res))
}
