package qm

import "fmt"

// Q collects the parts of a statement.
type Q struct {
	Where  []string
	Args   []interface{}
	Order  string
	Lim    int
	Off    int
	Cols   []string
	OrNext bool
}

type QueryMod interface {
	Apply(q *Q)
}

type QueryModFunc func(q *Q)

func (f QueryModFunc) Apply(q *Q) { f(q) }

func add(q *Q, op, clause string, args []interface{}) {
	if len(q.Where) > 0 {
		clause = op + " (" + clause + ")"
	} else {
		clause = "(" + clause + ")"
	}
	q.Where = append(q.Where, clause)
	q.Args = append(q.Args, args...)
}

func Where(clause string, args ...interface{}) QueryMod {
	return QueryModFunc(func(q *Q) { add(q, "and", clause, args) })
}
func And(clause string, args ...interface{}) QueryMod { return Where(clause, args...) }
func Or(clause string, args ...interface{}) QueryMod {
	return QueryModFunc(func(q *Q) { add(q, "or", clause, args) })
}
func WhereIn(clause string, args ...interface{}) QueryMod {
	in := ""
	for i := range args {
		if i > 0 {
			in += ","
		}
		in += "?"
	}
	c := clause
	if len(c) > 0 && c[len(c)-1] == '?' {
		c = c[:len(c)-1] + "(" + in + ")"
	}
	return Where(c, args...)
}
func OrderBy(clause string, args ...interface{}) QueryMod {
	return QueryModFunc(func(q *Q) { q.Order = clause })
}
func Limit(n int) QueryMod  { return QueryModFunc(func(q *Q) { q.Lim = n }) }
func Offset(n int) QueryMod { return QueryModFunc(func(q *Q) { q.Off = n }) }
func Select(cols ...string) QueryMod {
	return QueryModFunc(func(q *Q) { q.Cols = append(q.Cols, cols...) })
}

// Tail renders everything after the table name.
func (q *Q) Tail() string {
	s := ""
	for i, w := range q.Where {
		if i == 0 {
			s += " where "
		} else {
			s += " "
		}
		s += w
	}
	if q.Order != "" {
		s += " order by " + q.Order
	}
	if q.Lim > 0 {
		s += fmt.Sprintf(" limit %d", q.Lim)
	}
	if q.Off > 0 {
		s += fmt.Sprintf(" offset %d", q.Off)
	}
	return s
}
