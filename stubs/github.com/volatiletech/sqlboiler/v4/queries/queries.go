package queries

import (
	"context"
	"database/sql"
	"errors"
	"strings"

	"github.com/volatiletech/sqlboiler/v4/boil"
)

type Query struct {
	sql  string
	args []interface{}
}

func Raw(query string, args ...interface{}) *Query { return &Query{query, args} }

func (q *Query) Exec(exec boil.Executor) (sql.Result, error) { return exec.Exec(q.sql, q.args...) }

func (q *Query) ExecContext(ctx context.Context, exec boil.ContextExecutor) (sql.Result, error) {
	return exec.ExecContext(ctx, q.sql, q.args...)
}

func (q *Query) Query(exec boil.Executor) (*sql.Rows, error) { return exec.Query(q.sql, q.args...) }

func (q *Query) QueryContext(ctx context.Context, exec boil.ContextExecutor) (*sql.Rows, error) {
	return exec.QueryContext(ctx, q.sql, q.args...)
}

func (q *Query) QueryRow(exec boil.Executor) *sql.Row { return exec.QueryRow(q.sql, q.args...) }

func (q *Query) QueryRowContext(ctx context.Context, exec boil.ContextExecutor) *sql.Row {
	return exec.QueryRowContext(ctx, q.sql, q.args...)
}

func (q *Query) Bind(ctx context.Context, exec boil.Executor, obj interface{}) error {
	_, err := exec.Bind(q.sql, q.args, obj)
	if err != nil && strings.Contains(err.Error(), "failed to bind pointers") {
		return errors.New("bind failed to execute query: " + err.Error())
	}
	return err
}
