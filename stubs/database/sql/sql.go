// Package sql is the model of database/sql over the executor's relational engine.
package sql

import (
	"context"
	"errors"
	"sync"
	"time"
)

var ErrNoRows = errors.New("sql: no rows in result set")
var ErrTxDone = errors.New("sql: transaction has already been committed or rolled back")
var ErrConnDone = errors.New("sql: connection is already closed")
var errClosed = errors.New("sql: database is closed")

func dbOpen(path string)
func dbExec(path, q string, args []interface{}) (int64, error)
func dbBind(path, q string, args []interface{}, obj interface{}) (int, error)
func dbRows(path, q string, args []interface{}) ([]string, [][]interface{}, error)
func dbSnapshot(path string) int
func dbRestore(path string, snap int)

type Result interface {
	LastInsertId() (int64, error)
	RowsAffected() (int64, error)
}

type result int64

func (r result) LastInsertId() (int64, error) { return 0, nil }
func (r result) RowsAffected() (int64, error) { return int64(r), nil }

type IsolationLevel int

type TxOptions struct {
	Isolation IsolationLevel
	ReadOnly  bool
}

type DB struct {
	mu     sync.Mutex
	path   string
	closed bool
	conn   chan bool
	max    int
}

func Open(driver, path string) (*DB, error) {
	dbOpen(path)
	return &DB{path: path}, nil
}

func (d *DB) SetMaxOpenConns(n int)              { d.max = n }
func (d *DB) SetMaxIdleConns(n int)              {}
func (d *DB) SetConnMaxLifetime(t time.Duration) {}
func (d *DB) SetConnMaxIdleTime(t time.Duration) {}
func (d *DB) Ping() error                        { return nil }
func (d *DB) PingContext(ctx context.Context) error {
	return nil
}
func (d *DB) Close() error {
	d.mu.Lock()
	d.closed = true
	d.mu.Unlock()
	return nil
}

func (d *DB) do(f func() error) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.closed {
		return errClosed
	}
	return f()
}

// Bind is used by the query stubs.
func (d *DB) Bind(q string, args []interface{}, obj interface{}) (n int, err error) {
	err = d.do(func() error { n, err = dbBind(d.path, q, args, obj); return err })
	return
}

func (d *DB) ExecN(q string, args []interface{}) (n int64, err error) {
	err = d.do(func() error { n, err = dbExec(d.path, q, args); return err })
	return
}

func (d *DB) Exec(q string, args ...interface{}) (Result, error) {
	n, err := d.ExecN(q, args)
	if err != nil {
		return nil, err
	}
	return result(n), nil
}

func (d *DB) ExecContext(ctx context.Context, q string, args ...interface{}) (Result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return d.Exec(q, args...)
}

type Rows struct {
	cols []string
	rows [][]interface{}
	i    int
}

func (d *DB) Query(q string, args ...interface{}) (*Rows, error) {
	r := &Rows{}
	err := d.do(func() error {
		c, rs, err := dbRows(d.path, q, args)
		r.cols, r.rows = c, rs
		return err
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

func (d *DB) QueryContext(ctx context.Context, q string, args ...interface{}) (*Rows, error) {
	return d.Query(q, args...)
}

type Row struct {
	r   *Rows
	err error
}

func (d *DB) QueryRow(q string, args ...interface{}) *Row {
	r, err := d.Query(q, args...)
	return &Row{r, err}
}

func (d *DB) QueryRowContext(ctx context.Context, q string, args ...interface{}) *Row {
	return d.QueryRow(q, args...)
}

func (r *Row) Err() error { return r.err }
func (r *Row) Scan(dest ...interface{}) error {
	if r.err != nil {
		return r.err
	}
	if !r.r.Next() {
		return ErrNoRows
	}
	return r.r.Scan(dest...)
}

func (r *Rows) Close() error               { return nil }
func (r *Rows) Err() error                 { return nil }
func (r *Rows) Columns() ([]string, error) { return r.cols, nil }
func (r *Rows) Next() bool {
	if r.i >= len(r.rows) {
		return false
	}
	r.i++
	return true
}

func (r *Rows) Scan(dest ...interface{}) error {
	row := r.rows[r.i-1]
	for i, d := range dest {
		v := row[i]
		switch t := d.(type) {
		case *string:
			s, ok := v.(string)
			if !ok {
				return errors.New("sql: Scan error: converting NULL to string is unsupported")
			}
			*t = s
		case *int64:
			n, ok := v.(int64)
			if !ok {
				return errors.New("sql: Scan error: converting NULL to int64 is unsupported")
			}
			*t = n
		case *int:
			n, ok := v.(int64)
			if !ok {
				return errors.New("sql: Scan error: converting NULL to int is unsupported")
			}
			*t = int(n)
		case *bool:
			n, _ := v.(int64)
			*t = n != 0
		case *time.Time:
			x, ok := v.(time.Time)
			if !ok {
				return errors.New("sql: Scan error: unsupported Scan into *time.Time")
			}
			*t = x
		case *NullString:
			s, ok := v.(string)
			t.String, t.Valid = s, ok
		case *NullInt64:
			n, ok := v.(int64)
			t.Int64, t.Valid = n, ok
		case *interface{}:
			*t = v
		default:
			return errors.New("sql: Scan error: unsupported destination")
		}
	}
	return nil
}

type NullString struct {
	String string
	Valid  bool
}

type NullInt64 struct {
	Int64 int64
	Valid bool
}

// Tx holds the only connection: statements on the DB itself block until it ends.
type Tx struct {
	d    *DB
	snap int
	done bool
}

func (d *DB) Begin() (*Tx, error) { return d.BeginTx(context.Background(), nil) }

func (d *DB) BeginTx(ctx context.Context, opts *TxOptions) (*Tx, error) {
	d.mu.Lock()
	if d.closed {
		d.mu.Unlock()
		return nil, errClosed
	}
	return &Tx{d: d, snap: dbSnapshot(d.path)}, nil
}

func (t *Tx) Commit() error {
	if t.done {
		return ErrTxDone
	}
	t.done = true
	t.d.mu.Unlock()
	return nil
}

func (t *Tx) Rollback() error {
	if t.done {
		return ErrTxDone
	}
	t.done = true
	dbRestore(t.d.path, t.snap)
	t.d.mu.Unlock()
	return nil
}

func (t *Tx) Bind(q string, args []interface{}, obj interface{}) (int, error) {
	if t.done {
		return 0, ErrTxDone
	}
	return dbBind(t.d.path, q, args, obj)
}

func (t *Tx) ExecN(q string, args []interface{}) (int64, error) {
	if t.done {
		return 0, ErrTxDone
	}
	return dbExec(t.d.path, q, args)
}

func (t *Tx) Exec(q string, args ...interface{}) (Result, error) {
	n, err := t.ExecN(q, args)
	if err != nil {
		return nil, err
	}
	return result(n), nil
}

func (t *Tx) ExecContext(ctx context.Context, q string, args ...interface{}) (Result, error) {
	return t.Exec(q, args...)
}

func (t *Tx) Query(q string, args ...interface{}) (*Rows, error) {
	if t.done {
		return nil, ErrTxDone
	}
	c, rs, err := dbRows(t.d.path, q, args)
	if err != nil {
		return nil, err
	}
	return &Rows{cols: c, rows: rs}, nil
}

func (t *Tx) QueryContext(ctx context.Context, q string, args ...interface{}) (*Rows, error) {
	return t.Query(q, args...)
}

func (t *Tx) QueryRow(q string, args ...interface{}) *Row {
	r, err := t.Query(q, args...)
	return &Row{r, err}
}

func (t *Tx) QueryRowContext(ctx context.Context, q string, args ...interface{}) *Row {
	return t.QueryRow(q, args...)
}
