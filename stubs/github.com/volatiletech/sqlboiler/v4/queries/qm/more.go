package qm

// group puts several conditions into one pair of brackets.
func group(mods []QueryMod) (string, []interface{}) {
	var g Q
	for _, m := range mods {
		m.Apply(&g)
	}
	s := ""
	for i, w := range g.Where {
		if i > 0 {
			s += " "
		}
		s += w
	}
	return s, g.Args
}

// Expr is a group of conditions.
func Expr(mods ...QueryMod) QueryMod {
	return QueryModFunc(func(q *Q) {
		if c, args := group(mods); c != "" {
			add(q, "and", c, args)
		}
	})
}

// Or2 joins its condition with or.
func Or2(m QueryMod) QueryMod {
	return QueryModFunc(func(q *Q) {
		if c, args := group([]QueryMod{m}); c != "" {
			add(q, "or", c, args)
		}
	})
}

func WhereNotIn(clause string, args ...interface{}) QueryMod { return WhereIn(clause, args...) }
func AndIn(clause string, args ...interface{}) QueryMod      { return WhereIn(clause, args...) }
func AndNotIn(clause string, args ...interface{}) QueryMod   { return WhereIn(clause, args...) }
func OrIn(clause string, args ...interface{}) QueryMod       { return Or2(WhereIn(clause, args...)) }
func OrNotIn(clause string, args ...interface{}) QueryMod    { return Or2(WhereIn(clause, args...)) }
func Rels(r ...string) string {
	s := ""
	for i, x := range r {
		if i > 0 {
			s += "."
		}
		s += x
	}
	return s
}
