//go:build go1.21

package vsched

import "database/sql"

// Pt makes calling f a scheduling point (used for atomics and for calls whose
// effect is shared but that do not synchronise through this package).
func Pt[F any](label string, f F) F {
	if len(label) > 4 && label[:4] == "sql." {
		sqlPoint(label)
		if q, ok := any(f).(func(...interface{}) (*sql.Rows, error)); ok {
			return any(func(a ...interface{}) (*sql.Rows, error) { return opened(q(a...)) }).(F)
		}
		if q, ok := any(f).(func(string, ...interface{}) (*sql.Rows, error)); ok {
			return any(func(s string, a ...interface{}) (*sql.Rows, error) { return opened(q(s, a...)) }).(F)
		}
		return f
	}
	Point(label)
	return f
}

// The database model: a transaction holds the single writer from its begin to
// its end and any other writing call waits for it; a write becomes visible
// (commit, or a write outside a transaction) only when no other thread is in
// the middle of reading rows.  This is what the busy time-out of the real
// database amounts to when every thread keeps running.

func opened(r *sql.Rows, err error) (*sql.Rows, error) {
	if e, t := current(); e != nil && err == nil {
		if e.dbRows == nil {
			e.dbRows = map[*sql.Rows]*Thread{}
		}
		e.dbRows[r] = t
	}
	return r, err
}

func (e *Exec) othersRead(t *Thread) bool {
	for _, o := range e.dbRows {
		if o != t {
			return true
		}
	}
	return false
}

// RowsNext is rows.Next.
func RowsNext(r *sql.Rows) func() bool {
	return func() bool {
		if r.Next() {
			return true
		}
		closed(r)
		return false
	}
}

// RowsClose is rows.Close.
func RowsClose(r *sql.Rows) func() error {
	return func() error {
		closed(r)
		return r.Close()
	}
}

func closed(r *sql.Rows) {
	if e, _ := current(); e != nil {
		delete(e.dbRows, r)
	}
}

// TxEnd is tx.Commit or tx.Rollback.
func TxEnd(label string, f func() error) func() error {
	return func() error {
		e, t := current()
		if e == nil || t.exiting {
			return f()
		}
		if label == "sql.Commit" {
			e.yield(t, label, func() bool { return !e.othersRead(t) })
		} else {
			e.yield(t, label, alwaysEnabled)
		}
		if e.dbOwner == t {
			e.dbOwner = nil // nothing else runs before f
		}
		return f()
	}
}

//go:noinline
func sqlPoint(label string) {
	e, t := current()
	if e == nil || t.exiting {
		return
	}
	switch label {
	case "sql.Begin", "sql.BeginTx":
		e.yield(t, label, func() bool { return e.dbOwner == nil })
		e.dbOwner = t
	case "sql.Exec", "sql.ExecContext":
		e.yield(t, label, func() bool {
			return e.dbOwner == t || e.dbOwner == nil && !e.othersRead(t)
		})
	default:
		e.yield(t, label, alwaysEnabled)
	}
}
