package sql

import (
	"context"
	"errors"
	"time"
)

type NullBool struct {
	Bool  bool
	Valid bool
}

type NullInt32 struct {
	Int32 int32
	Valid bool
}

type NullFloat64 struct {
	Float64 float64
	Valid   bool
}

type NullTime struct {
	Time  time.Time
	Valid bool
}

type Scanner interface{ Scan(src any) error }

const (
	LevelDefault IsolationLevel = iota
	LevelReadUncommitted
	LevelReadCommitted
	LevelWriteCommitted
	LevelRepeatableRead
	LevelSnapshot
	LevelSerializable
	LevelLinearizable
)

// Stmt is a prepared statement: its text is looked at when it runs.
type Stmt struct {
	query  func(args []interface{}) (*Rows, error)
	exec   func(args []interface{}) (Result, error)
	closed bool
}

var errStmtClosed = errors.New("sql: statement is closed")

func (s *Stmt) Close() error { s.closed = true; return nil }
func (s *Stmt) Exec(args ...interface{}) (Result, error) {
	if s.closed {
		return nil, errStmtClosed
	}
	return s.exec(args)
}
func (s *Stmt) ExecContext(ctx context.Context, args ...interface{}) (Result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return s.Exec(args...)
}
func (s *Stmt) Query(args ...interface{}) (*Rows, error) {
	if s.closed {
		return nil, errStmtClosed
	}
	return s.query(args)
}
func (s *Stmt) QueryContext(ctx context.Context, args ...interface{}) (*Rows, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return s.Query(args...)
}
func (s *Stmt) QueryRow(args ...interface{}) *Row {
	r, err := s.Query(args...)
	return &Row{r, err}
}
func (s *Stmt) QueryRowContext(ctx context.Context, args ...interface{}) *Row {
	return s.QueryRow(args...)
}

func (d *DB) Prepare(q string) (*Stmt, error) {
	return &Stmt{
		query: func(a []interface{}) (*Rows, error) { return d.Query(q, a...) },
		exec:  func(a []interface{}) (Result, error) { return d.Exec(q, a...) },
	}, nil
}

func (d *DB) PrepareContext(ctx context.Context, q string) (*Stmt, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return d.Prepare(q)
}

func (t *Tx) Prepare(q string) (*Stmt, error) {
	if t.done {
		return nil, ErrTxDone
	}
	return &Stmt{
		query: func(a []interface{}) (*Rows, error) { return t.Query(q, a...) },
		exec:  func(a []interface{}) (Result, error) { return t.Exec(q, a...) },
	}, nil
}

func (t *Tx) PrepareContext(ctx context.Context, q string) (*Stmt, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return t.Prepare(q)
}
