package boil

import (
	"context"
	"database/sql"
	"io"
)

var DebugMode bool
var DebugWriter io.Writer

type Executor interface {
	Exec(query string, args ...interface{}) (sql.Result, error)
	Query(query string, args ...interface{}) (*sql.Rows, error)
	QueryRow(query string, args ...interface{}) *sql.Row
	Bind(q string, args []interface{}, obj interface{}) (int, error)
	ExecN(q string, args []interface{}) (int64, error)
}

type ContextExecutor interface {
	Executor
	ExecContext(context.Context, string, ...interface{}) (sql.Result, error)
	QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error)
	QueryRowContext(context.Context, string, ...interface{}) *sql.Row
}

type Columns struct {
	Kind int
	Cols []string
}

const (
	columnsNone = iota
	columnsInfer
	columnsWhitelist
	columnsGreylist
	columnsBlacklist
)

func None() Columns                       { return Columns{Kind: columnsNone} }
func Infer() Columns                      { return Columns{Kind: columnsInfer} }
func Whitelist(columns ...string) Columns { return Columns{columnsWhitelist, columns} }
func Blacklist(columns ...string) Columns { return Columns{columnsBlacklist, columns} }
func Greylist(columns ...string) Columns  { return Columns{columnsGreylist, columns} }

// Keep reports whether a column takes part.
func (c Columns) Keep(name string) bool {
	in := false
	for _, x := range c.Cols {
		if x == name {
			in = true
		}
	}
	switch c.Kind {
	case columnsNone:
		return false
	case columnsWhitelist:
		return in
	case columnsBlacklist:
		return !in
	}
	return true
}
