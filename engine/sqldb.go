package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// DB is the model of the SQLite index: one table "headers" with PRIMARY KEY (name, linkname).
type DB struct {
	rows  []*dbRow
	nextR int64
	ver   int
	fail  func() bool
}

type dbRow struct {
	id   int64
	vals []dbVal
}

type dbVal struct {
	k byte // n null, i int, s text, b bool term, t time, f float
	v Value
}

var hdrCols = []string{"record", "lastknownrecord", "block", "lastknownblock", "deleted", "typeflag", "name", "linkname", "size", "mode", "uid", "gid", "uname", "gname", "modtime", "accesstime", "changetime", "devmajor", "devminor", "paxrecords", "format"}
var hdrColIdx = func() map[string]int {
	m := map[string]int{}
	for i, c := range hdrCols {
		m[c] = i
	}
	return m
}()

const (
	colName = 6
	colLink = 7
)

func (db *DB) snapshot() []*dbRow {
	var out []*dbRow
	for _, r := range db.rows {
		out = append(out, &dbRow{r.id, append([]dbVal(nil), r.vals...)})
	}
	return out
}

// ---- lexer / parser ----

type sqlTok struct {
	k byte // i ident, q quoted ident, s string, n number, p param, o operator, e end
	s string
}

func sqlLex(q string) ([]sqlTok, error) {
	var out []sqlTok
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '-' && i+1 < len(q) && q[i+1] == '-':
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			var sb strings.Builder
			for j < len(q) {
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						sb.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				sb.WriteByte(q[j])
				j++
			}
			if j >= len(q) {
				return nil, fmt.Errorf("unterminated quote")
			}
			k := byte('s')
			if c != '\'' {
				k = 'q'
			}
			out = append(out, sqlTok{k, sb.String()})
			i = j + 1
		case c == '?' || c == '$' || c == ':' || c == '@':
			j := i + 1
			for j < len(q) && (q[j] >= '0' && q[j] <= '9') {
				j++
			}
			out = append(out, sqlTok{'p', q[i+1 : j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && (q[j] >= '0' && q[j] <= '9' || q[j] == '.') {
				j++
			}
			out = append(out, sqlTok{'n', q[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9') {
				j++
			}
			out = append(out, sqlTok{'i', q[i:j]})
			i = j
		default:
			for _, op := range []string{"||", "<=", ">=", "<>", "!=", "=="} {
				if strings.HasPrefix(q[i:], op) {
					out = append(out, sqlTok{'o', op})
					i += 2
					goto next
				}
			}
			out = append(out, sqlTok{'o', string(c)})
			i++
		}
	next:
	}
	return append(out, sqlTok{'e', ""}), nil
}

type sqlExpr struct {
	op   string // col, lit, param, fn, binary ops, not, neg, in, like, isnull, star, case
	s    string
	n    int
	val  dbVal
	args []*sqlExpr
	q    string   // qualifier of a column
	sub  *sqlStmt // subquery of "sub", "exists" and "insub"
	dist bool     // count(distinct x)
}

type sqlStmt struct {
	kind    string
	cols    []sqlCol
	where   *sqlExpr
	order   []sqlOrder
	limit   *sqlExpr
	offset  *sqlExpr
	sets    []sqlSet
	insCols []string
	vals    [][]*sqlExpr
	confl   string // "", ignore, replace, update
	confSet []sqlSet
	tab     string // the name the table goes by
	from    bool
	dist    bool
}

type sqlCol struct {
	e     *sqlExpr
	alias string
}

type sqlOrder struct {
	e    *sqlExpr
	desc bool
}

type sqlSet struct {
	col string
	e   *sqlExpr
}

type sqlParser struct {
	t  []sqlTok
	i  int
	np int
}

type sqlErr string

func (p *sqlParser) fail(s string) { panic(sqlErr(s)) }
func (p *sqlParser) peek() sqlTok  { return p.t[p.i] }
func (p *sqlParser) kw(s string) bool {
	if t := p.peek(); t.k == 'i' && strings.EqualFold(t.s, s) {
		p.i++
		return true
	}
	return false
}
func (p *sqlParser) isKw(s string) bool {
	t := p.peek()
	return t.k == 'i' && strings.EqualFold(t.s, s)
}
func (p *sqlParser) op(s string) bool {
	if t := p.peek(); t.k == 'o' && t.s == s {
		p.i++
		return true
	}
	return false
}
func (p *sqlParser) need(s string) {
	if !p.op(s) && !p.kw(s) {
		p.fail("near \"" + p.peek().s + "\": syntax error (want " + s + ")")
	}
}
func (p *sqlParser) ident() string {
	t := p.peek()
	if t.k == 'i' || t.k == 'q' {
		p.i++
		return t.s
	}
	p.fail("near \"" + t.s + "\": syntax error")
	return ""
}

func (p *sqlParser) table() string {
	n := p.ident()
	if p.op(".") {
		n = p.ident()
	}
	if !strings.EqualFold(n, "headers") {
		p.fail("no such table: " + n)
	}
	n = strings.ToLower(n)
	if p.kw("as") {
		n = strings.ToLower(p.ident())
	} else if t := p.peek(); t.k == 'q' || t.k == 'i' && !sqlAfterTable[strings.ToLower(t.s)] {
		n = strings.ToLower(p.ident())
	}
	return n
}

var sqlAfterTable = map[string]bool{"where": true, "order": true, "limit": true, "set": true, "values": true, "group": true, "on": true, "union": true, "join": true, "left": true, "inner": true, "cross": true, "natural": true, "indexed": true, "not": true, "default": true, "select": true, "having": true, "returning": true, "offset": true, "except": true, "intersect": true}

// sel parses what follows the word select.
func (p *sqlParser) sel(s *sqlStmt) {
	s.kind = "select"
	if !p.kw("all") && p.kw("distinct") {
		s.dist = true
	}
	for {
		if p.op("*") {
			s.cols = append(s.cols, sqlCol{e: &sqlExpr{op: "star"}})
		} else if t := p.peek(); (t.k == 'i' || t.k == 'q') && p.t[p.i+1].k == 'o' && p.t[p.i+1].s == "." && p.t[p.i+2].k == 'o' && p.t[p.i+2].s == "*" {
			p.i += 3
			s.cols = append(s.cols, sqlCol{e: &sqlExpr{op: "star"}})
		} else {
			st := p.i
			e := p.expr()
			c := sqlCol{e: e}
			if p.kw("as") {
				c.alias = p.ident()
			} else if t := p.peek(); t.k == 'q' || t.k == 'i' && !strings.EqualFold(t.s, "from") && !sqlAfterTable[strings.ToLower(t.s)] {
				c.alias = p.ident()
			} else if e.op == "col" {
				c.alias = e.s
			} else {
				for k := st; k < p.i; k++ {
					c.alias += p.t[k].s
				}
			}
			s.cols = append(s.cols, c)
		}
		if !p.op(",") {
			break
		}
	}
	if p.kw("from") {
		s.tab = p.table()
		s.from = true
	}
	p.tail(s)
}

func (p *sqlParser) subquery() *sqlStmt {
	p.need("select")
	s := &sqlStmt{}
	p.sel(s)
	p.need(")")
	return s
}

func (p *sqlParser) stmt() *sqlStmt {
	s := &sqlStmt{}
	switch {
	case p.kw("select"):
		p.sel(s)
	case p.kw("update"):
		s.kind = "update"
		if p.kw("or") {
			s.confl = strings.ToLower(p.ident())
		}
		s.tab = p.table()
		p.need("set")
		s.sets = p.setList()
		p.tail(s)
	case p.kw("delete"):
		s.kind = "delete"
		p.need("from")
		s.tab = p.table()
		p.tail(s)
	case p.kw("replace"):
		s.confl = "replace"
		p.insert(s)
	case p.kw("insert"):
		if p.kw("or") {
			s.confl = strings.ToLower(p.ident())
		}
		p.insert(s)
	case p.isKw("begin"), p.isKw("commit"), p.isKw("rollback"), p.isKw("pragma"), p.isKw("create"), p.isKw("vacuum"):
		s.kind = "nop"
		return s
	default:
		p.fail("near \"" + p.peek().s + "\": syntax error")
	}
	p.op(";")
	if p.peek().k != 'e' {
		p.fail("near \"" + p.peek().s + "\": syntax error")
	}
	return s
}

func (p *sqlParser) setList() []sqlSet {
	var out []sqlSet
	for {
		c := p.ident()
		p.need("=")
		out = append(out, sqlSet{c, p.expr()})
		if !p.op(",") {
			return out
		}
	}
}

func (p *sqlParser) insert(s *sqlStmt) {
	s.kind = "insert"
	p.need("into")
	s.tab = p.table()
	if p.op("(") {
		for {
			s.insCols = append(s.insCols, p.ident())
			if !p.op(",") {
				break
			}
		}
		p.need(")")
	} else {
		s.insCols = hdrCols
	}
	p.need("values")
	for {
		p.need("(")
		var v []*sqlExpr
		for {
			v = append(v, p.expr())
			if !p.op(",") {
				break
			}
		}
		p.need(")")
		s.vals = append(s.vals, v)
		if !p.op(",") {
			break
		}
	}
	if p.kw("on") {
		p.need("conflict")
		if p.op("(") {
			for {
				p.ident()
				if !p.op(",") {
					break
				}
			}
			p.need(")")
		}
		p.need("do")
		if p.kw("nothing") {
			s.confl = "ignore"
		} else {
			p.need("update")
			p.need("set")
			s.confl = "update"
			s.confSet = p.setList()
		}
	}
}

func (p *sqlParser) tail(s *sqlStmt) {
	if p.kw("where") {
		s.where = p.expr()
	}
	if p.kw("order") {
		p.need("by")
		for {
			e := p.expr()
			if p.kw("collate") {
				if c := p.ident(); !strings.EqualFold(c, "binary") {
					e = &sqlExpr{op: "fn", s: "lower", args: []*sqlExpr{e}}
				}
			}
			d := false
			if p.kw("desc") {
				d = true
			} else {
				p.kw("asc")
			}
			if p.kw("nulls") {
				p.ident()
			}
			if e.op == "lit" && e.val.k == 'i' {
				n := int64(e.val.v.N)
				if n < 1 {
					p.fail("ORDER BY term out of range")
				}
				if int(n) <= len(s.cols) && s.cols[n-1].e.op != "star" {
					e = s.cols[n-1].e
				} else if len(s.cols) > 0 && s.cols[0].e.op == "star" && int(n) <= len(hdrCols) {
					e = &sqlExpr{op: "col", s: hdrCols[n-1]}
				} else {
					p.fail("ORDER BY term out of range")
				}
			}
			s.order = append(s.order, sqlOrder{e, d})
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("limit") {
		s.limit = p.expr()
		if p.kw("offset") {
			s.offset = p.expr()
		} else if p.op(",") {
			s.offset, s.limit = s.limit, p.expr()
		}
	}
}

func bin(op string, a, b *sqlExpr) *sqlExpr { return &sqlExpr{op: op, args: []*sqlExpr{a, b}} }

func (p *sqlParser) expr() *sqlExpr {
	a := p.and()
	for p.kw("or") {
		a = bin("or", a, p.and())
	}
	return a
}

func (p *sqlParser) and() *sqlExpr {
	a := p.not()
	for p.kw("and") {
		a = bin("and", a, p.not())
	}
	return a
}

func (p *sqlParser) not() *sqlExpr {
	if p.kw("not") {
		return &sqlExpr{op: "not", args: []*sqlExpr{p.not()}}
	}
	return p.cmp()
}

func (p *sqlParser) cmp() *sqlExpr {
	a := p.rel()
	for {
		switch {
		case p.op("="), p.op("=="):
			a = bin("=", a, p.rel())
		case p.op("!="), p.op("<>"):
			a = bin("!=", a, p.rel())
		case p.kw("is"):
			n := p.kw("not")
			if p.kw("null") {
				a = &sqlExpr{op: "isnull", args: []*sqlExpr{a}}
			} else {
				a = bin("=", a, p.rel())
			}
			if n {
				a = &sqlExpr{op: "not", args: []*sqlExpr{a}}
			}
		case p.isKw("not") || p.isKw("in") || p.isKw("like") || p.isKw("glob") || p.isKw("between"):
			n := p.kw("not")
			switch {
			case p.kw("in"):
				p.need("(")
				e := &sqlExpr{op: "in", args: []*sqlExpr{a}}
				if p.isKw("select") {
					e.op, e.sub = "insub", p.subquery()
					a = e
					break
				}
				for !p.op(")") {
					e.args = append(e.args, p.expr())
					p.op(",")
				}
				a = e
			case p.kw("like"):
				a = &sqlExpr{op: "like", args: []*sqlExpr{a, p.rel()}}
				if p.kw("escape") {
					a.args = append(a.args, p.rel())
				}
			case p.kw("glob"):
				a = &sqlExpr{op: "glob", args: []*sqlExpr{a, p.rel()}}
			case p.kw("between"):
				lo := p.rel()
				p.need("and")
				hi := p.rel()
				a = bin("and", bin(">=", a, lo), bin("<=", a, hi))
			default:
				p.fail("syntax error near not")
			}
			if n {
				a = &sqlExpr{op: "not", args: []*sqlExpr{a}}
			}
		default:
			return a
		}
	}
}

func (p *sqlParser) rel() *sqlExpr {
	a := p.sum()
	for {
		switch {
		case p.op("<"):
			a = bin("<", a, p.sum())
		case p.op("<="):
			a = bin("<=", a, p.sum())
		case p.op(">"):
			a = bin(">", a, p.sum())
		case p.op(">="):
			a = bin(">=", a, p.sum())
		default:
			return a
		}
	}
}

func (p *sqlParser) sum() *sqlExpr {
	a := p.prod()
	for {
		switch {
		case p.op("+"):
			a = bin("+", a, p.prod())
		case p.op("-"):
			a = bin("-", a, p.prod())
		default:
			return a
		}
	}
}

func (p *sqlParser) prod() *sqlExpr {
	a := p.cat()
	for {
		switch {
		case p.op("*"):
			a = bin("*", a, p.cat())
		case p.op("/"):
			a = bin("/", a, p.cat())
		case p.op("%"):
			a = bin("%", a, p.cat())
		default:
			return a
		}
	}
}

func (p *sqlParser) cat() *sqlExpr {
	a := p.prim()
	for p.op("||") {
		a = bin("||", a, p.prim())
	}
	return a
}

func (p *sqlParser) prim() *sqlExpr {
	t := p.peek()
	switch t.k {
	case 'n':
		p.i++
		n, _ := strconv.ParseInt(t.s, 10, 64)
		return &sqlExpr{op: "lit", val: dbVal{'i', vInt(n)}}
	case 's':
		p.i++
		return &sqlExpr{op: "lit", val: dbVal{'s', vStr(t.s)}}
	case 'p':
		p.i++
		n := p.np
		if t.s != "" {
			k, _ := strconv.Atoi(t.s)
			n = k - 1
		}
		if n+1 > p.np {
			p.np = n + 1
		}
		return &sqlExpr{op: "param", n: n}
	case 'o':
		if p.op("(") {
			if p.isKw("select") {
				return &sqlExpr{op: "sub", sub: p.subquery()}
			}
			e := p.expr()
			p.need(")")
			return e
		}
		if p.op("-") {
			return &sqlExpr{op: "neg", args: []*sqlExpr{p.prim()}}
		}
		if p.op("+") {
			return p.prim()
		}
	case 'i', 'q':
		p.i++
		if t.k == 'i' {
			switch strings.ToLower(t.s) {
			case "null":
				return &sqlExpr{op: "lit", val: dbVal{k: 'n'}}
			case "true":
				return &sqlExpr{op: "lit", val: dbVal{'i', vInt(1)}}
			case "false":
				return &sqlExpr{op: "lit", val: dbVal{'i', vInt(0)}}
			case "case":
				e := &sqlExpr{op: "case"}
				var of *sqlExpr
				if !p.isKw("when") {
					of = p.expr()
				}
				for p.kw("when") {
					c := p.expr()
					if of != nil {
						c = bin("=", of, c)
					}
					p.need("then")
					e.args = append(e.args, c, p.expr())
				}
				if p.kw("else") {
					e.args = append(e.args, p.expr())
				}
				p.need("end")
				return e
			case "exists":
				p.need("(")
				return &sqlExpr{op: "exists", sub: p.subquery()}
			case "cast":
				p.need("(")
				e := p.expr()
				p.need("as")
				p.ident()
				p.need(")")
				return e
			}
			if p.op("(") {
				e := &sqlExpr{op: "fn", s: strings.ToLower(t.s)}
				if p.op("*") {
					e.args = append(e.args, &sqlExpr{op: "star"})
					p.need(")")
					return e
				}
				e.dist = p.kw("distinct")
				for !p.op(")") {
					e.args = append(e.args, p.expr())
					if !p.op(",") {
						p.need(")")
						break
					}
				}
				return e
			}
		}
		name, q := t.s, ""
		for p.op(".") {
			q, name = strings.ToLower(name), p.ident()
		}
		e := &sqlExpr{op: "col", s: strings.ToLower(name), q: q}
		if t.k == 'q' && q == "" {
			e.n = 1
			e.val = dbVal{'s', vStr(t.s)}
		}
		return e
	}
	p.fail("near \"" + t.s + "\": syntax error")
	return nil
}

func sqlParse(q string) (s *sqlStmt, np int, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(sqlErr); ok {
				err = fmt.Errorf("SQL logic error: %s (1)", string(e))
				return
			}
			panic(r)
		}
	}()
	t, err := sqlLex(q)
	if err != nil {
		return nil, 0, err
	}
	p := &sqlParser{t: t}
	s = p.stmt()
	return s, p.np, nil
}

// ---- evaluation ----

type sqlEnv struct {
	fr    *Frame
	p     *Path
	row   *dbRow
	args  []dbVal
	alias map[string]*sqlExpr
	depth int
	excl  []dbVal // "excluded" row for upserts
	agg   map[*sqlExpr]dbVal
	tab   string
	outer *sqlEnv // the query this one is nested in
	db    *DB
}

func (e *sqlEnv) intTerm(v dbVal) *Term {
	p := e.p
	switch v.k {
	case 'i':
		return p.term(v.v, 64)
	case 'b':
		return p.tc.Ite(p.boolTerm(v.v), p.tc.Const(1, 64), p.tc.Const(0, 64))
	case 's':
		s := e.fr.str(v.v, "sql number")
		n, _ := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
		return p.tc.Const(uint64(n), 64)
	}
	panic(p.unsupported("sql: integer value expected"))
}

func (e *sqlEnv) truth(v dbVal) *Term {
	p := e.p
	switch v.k {
	case 'n':
		return p.tc.fls
	case 'b':
		return p.boolTerm(v.v)
	}
	return p.tc.Not(p.tc.Eq(e.intTerm(v), p.tc.Const(0, 64)))
}

func (e *sqlEnv) b(t *Term) dbVal { return dbVal{'b', vTerm(t)} }

func (e *sqlEnv) str(v dbVal) Value {
	switch v.k {
	case 's':
		return v.v
	case 'i', 'b':
		return e.p.fmtInt(vTerm(e.intTerm(v)), true, 10)
	}
	panic(e.p.unsupported("sql: text value expected"))
}

func (e *sqlEnv) isNum(v dbVal) bool { return v.k == 'i' || v.k == 'b' }

func (e *sqlEnv) cmp(op string, a, b dbVal) dbVal {
	p := e.p
	tc := p.tc
	if a.k == 'n' || b.k == 'n' {
		return dbVal{k: 'n'}
	}
	if a.k == 't' || b.k == 't' {
		if a.k != b.k {
			panic(p.unsupported("sql: comparing time with other type"))
		}
		x, y := a.v.P.(*StructV), b.v.P.(*StructV)
		eq := tc.BAnd(tc.Eq(p.term(x.F[1], 64), p.term(y.F[1], 64)), tc.Eq(p.term(x.F[0], 64), p.term(y.F[0], 64)))
		lt := tc.BOr(tc.Slt(p.term(x.F[1], 64), p.term(y.F[1], 64)), tc.BAnd(tc.Eq(p.term(x.F[1], 64), p.term(y.F[1], 64)), tc.Slt(p.term(x.F[0], 64), p.term(y.F[0], 64))))
		return e.rel(op, eq, lt)
	}
	if e.isNum(a) && e.isNum(b) {
		x, y := e.intTerm(a), e.intTerm(b)
		return e.rel(op, tc.Eq(x, y), tc.Slt(x, y))
	}
	if a.k == 's' && b.k == 's' {
		if op == "=" {
			return e.b(p.strEq(a.v, b.v))
		}
		if op == "!=" {
			return e.b(tc.Not(p.strEq(a.v, b.v)))
		}
		return e.rel(op, p.strEq(a.v, b.v), p.strLess(a.v, b.v))
	}
	// integer column vs text: numbers sort before text (no affinity conversion modelled unless numeric text)
	if e.isNum(a) && b.k == 's' {
		if s, ok := concStr(b.v); ok {
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				x := e.intTerm(a)
				y := tc.Const(uint64(n), 64)
				return e.rel(op, tc.Eq(x, y), tc.Slt(x, y))
			}
		}
		return e.rel(op, tc.fls, tc.tru)
	}
	return e.rel(op, tc.fls, tc.fls)
}

func (e *sqlEnv) rel(op string, eq, lt *Term) dbVal {
	tc := e.p.tc
	switch op {
	case "=":
		return e.b(eq)
	case "!=":
		return e.b(tc.Not(eq))
	case "<":
		return e.b(lt)
	case "<=":
		return e.b(tc.BOr(lt, eq))
	case ">":
		return e.b(tc.Not(tc.BOr(lt, eq)))
	case ">=":
		return e.b(tc.Not(lt))
	}
	panic("rel")
}

// runes splits a possibly symbolic string into characters.
func (e *sqlEnv) runes(v Value) []*SymStr {
	s := toSym(v)
	var out []*SymStr
	for i := 0; i < len(s.b); {
		n := 1
		if s.t[i] != nil {
			if !e.p.branch(e.p.tc.Ult(s.t[i], e.p.tc.Const(0x80, 8))) {
				_, n = e.fr.decodeRune(v, i)
			}
		} else if s.b[i] >= 0xc0 {
			_, n = e.fr.decodeRune(v, i)
		}
		out = append(out, &SymStr{s.b[i : i+n], s.t[i : i+n]})
		i += n
	}
	return out
}

func (e *sqlEnv) runeEq(a, b *SymStr, fold bool) *Term {
	p := e.p
	if len(a.b) != len(b.b) {
		return p.tc.fls
	}
	if len(a.b) > 1 || !fold {
		return p.strEq(Value{P: a}, Value{P: b})
	}
	lower := func(s *SymStr) *Term {
		if s.t[0] == nil {
			c := s.b[0]
			if c >= 'A' && c <= 'Z' {
				c += 32
			}
			return p.tc.Const(uint64(c), 8)
		}
		t := s.t[0]
		up := p.tc.BAnd(p.tc.Ule(p.tc.Const('A', 8), t), p.tc.Ule(t, p.tc.Const('Z', 8)))
		return p.tc.Ite(up, p.tc.Add(t, p.tc.Const(32, 8)), t)
	}
	return p.tc.Eq(lower(a), lower(b))
}

// like computes the LIKE predicate as a term (ASCII case-insensitive).
func (e *sqlEnv) like(s, pat Value, esc string) *Term {
	p := e.p
	tc := p.tc
	S, P := e.runes(s), e.runes(pat)
	memo := map[[2]int]*Term{}
	is := func(c *SymStr, ch byte) *Term {
		if len(c.b) != 1 {
			return tc.fls
		}
		return tc.Eq(p.symCell(c, 0), tc.Const(uint64(ch), 8))
	}
	var m func(i, j int) *Term
	m = func(i, j int) *Term {
		if i == len(P) {
			return tc.Bool(j == len(S))
		}
		k := [2]int{i, j}
		if t, ok := memo[k]; ok {
			return t
		}
		lit := func(pi int, adv int) *Term {
			if j >= len(S) || pi >= len(P) {
				return tc.fls
			}
			return tc.BAnd(e.runeEq(P[pi], S[j], true), m(i+adv, j+1))
		}
		var r *Term
		isPct, isUnd := is(P[i], '%'), is(P[i], '_')
		other := lit(i, 1)
		if isUnd != tc.fls {
			u := tc.fls
			if j < len(S) {
				u = m(i+1, j+1)
			}
			other = tc.Ite(isUnd, u, other)
		}
		if isPct != tc.fls {
			pc := m(i+1, j)
			if j < len(S) {
				pc = tc.BOr(pc, m(i, j+1))
			}
			r = tc.Ite(isPct, pc, other)
		} else {
			r = other
		}
		if esc != "" {
			ie := is(P[i], esc[0])
			if ie != tc.fls {
				r = tc.Ite(ie, lit(i+1, 2), r)
			}
		}
		memo[k] = r
		return r
	}
	return m(0, 0)
}

// glob computes the GLOB predicate for a pattern without character classes.
func (e *sqlEnv) glob(s Value, pat string) *Term {
	p := e.p
	tc := p.tc
	if strings.ContainsAny(pat, "[]") {
		panic(p.unsupported("sql: glob with a character class"))
	}
	S, P := e.runes(s), e.runes(vStr(pat))
	memo := map[[2]int]*Term{}
	var m func(i, j int) *Term
	m = func(i, j int) *Term {
		if i == len(P) {
			return tc.Bool(j == len(S))
		}
		k := [2]int{i, j}
		if t, ok := memo[k]; ok {
			return t
		}
		r := tc.fls
		switch string(P[i].b) {
		case "*":
			r = m(i+1, j)
			if j < len(S) {
				r = tc.BOr(r, m(i, j+1))
			}
		case "?":
			if j < len(S) {
				r = m(i+1, j+1)
			}
		default:
			if j < len(S) {
				r = tc.BAnd(e.runeEq(P[i], S[j], false), m(i+1, j+1))
			}
		}
		memo[k] = r
		return r
	}
	return m(0, 0)
}

func (e *sqlEnv) replace(s, from, to Value) Value {
	if strLen(from) == 0 {
		return s
	}
	p := e.p
	x, f := toSym(s), toSym(from)
	out := vStr("")
	st := 0
	for i := 0; i+len(f.b) <= len(x.b); {
		if p.matchAt(x, f, i) {
			out = catStr(catStr(out, subStr(s, st, i)), to)
			i += len(f.b)
			st = i
			continue
		}
		i++
	}
	return catStr(out, subStr(s, st, len(x.b)))
}

func (e *sqlEnv) eval(x *sqlExpr) dbVal {
	p := e.p
	tc := p.tc
	switch x.op {
	case "lit":
		return x.val
	case "param":
		if x.n >= len(e.args) {
			panic(sqlErr("missing argument with index " + fmt.Sprint(x.n+1)))
		}
		return e.args[x.n]
	case "col":
		if x.q == "excluded" && e.excl != nil {
			if i, ok := hdrColIdx[x.s]; ok {
				return e.excl[i]
			}
		}
		if x.q != "" && x.q != e.tab {
			if e.outer == nil {
				panic(sqlErr("no such column: " + x.q + "." + x.s))
			}
			return e.outer.eval(x)
		}
		if i, ok := hdrColIdx[x.s]; ok && e.row != nil {
			return e.row.vals[i]
		}
		if x.s == "rowid" && e.row != nil {
			return dbVal{'i', vInt(e.row.id)}
		}
		if a, ok := e.alias[x.s]; ok && e.depth < 8 {
			e.depth++
			v := e.eval(a)
			e.depth--
			return v
		}
		if e.outer != nil {
			return e.outer.eval(x)
		}
		if x.n == 1 {
			return x.val // double-quoted string fallback
		}
		panic(sqlErr("no such column: " + x.s))
	case "and":
		a := e.eval(x.args[0])
		if a.k != 'n' && e.truth(a) == tc.fls {
			return e.b(tc.fls)
		}
		b := e.eval(x.args[1])
		if a.k == 'n' || b.k == 'n' {
			return e.b(tc.fls)
		}
		return e.b(tc.BAnd(e.truth(a), e.truth(b)))
	case "or":
		a := e.eval(x.args[0])
		if a.k != 'n' && e.truth(a) == tc.tru {
			return e.b(tc.tru)
		}
		return e.b(tc.BOr(e.truth(a), e.truth(e.eval(x.args[1]))))
	case "not":
		a := e.eval(x.args[0])
		if a.k == 'n' {
			return a
		}
		return e.b(tc.Not(e.truth(a)))
	case "=", "!=", "<", "<=", ">", ">=":
		return e.cmp(x.op, e.eval(x.args[0]), e.eval(x.args[1]))
	case "isnull":
		return e.b(tc.Bool(e.eval(x.args[0]).k == 'n'))
	case "in":
		a := e.eval(x.args[0])
		r := tc.fls
		for _, y := range x.args[1:] {
			r = tc.BOr(r, e.truth(e.cmp("=", a, e.eval(y))))
		}
		return e.b(r)
	case "sub", "exists", "insub":
		cols, rows := e.fr.sqlSelectIn(e.db, x.sub, e.args, e)
		switch x.op {
		case "exists":
			return e.b(tc.Bool(len(rows) > 0))
		case "sub":
			if len(cols) != 1 {
				panic(sqlErr("sub-select returns " + fmt.Sprint(len(cols)) + " columns - expected 1"))
			}
			if len(rows) == 0 {
				return dbVal{k: 'n'}
			}
			return rows[0][0]
		}
		a := e.eval(x.args[0])
		if a.k == 'n' && len(rows) > 0 {
			return a
		}
		r := tc.fls
		for _, y := range rows {
			if y[0].k == 'n' {
				continue
			}
			r = tc.BOr(r, e.truth(e.cmp("=", a, y[0])))
		}
		return e.b(r)
	case "glob":
		a, b := e.eval(x.args[0]), e.eval(x.args[1])
		if a.k == 'n' || b.k == 'n' {
			return dbVal{k: 'n'}
		}
		pat, ok := concStr(e.str(b))
		if !ok {
			panic(p.unsupported("sql: glob with a symbolic pattern"))
		}
		return e.b(e.glob(e.str(a), pat))
	case "like":
		a, b := e.eval(x.args[0]), e.eval(x.args[1])
		if a.k == 'n' || b.k == 'n' {
			return dbVal{k: 'n'}
		}
		esc := ""
		if len(x.args) > 2 {
			esc = e.fr.str(e.str(e.eval(x.args[2])), "escape")
		}
		return e.b(e.like(e.str(a), e.str(b), esc))
	case "+", "-", "*", "/", "%":
		a, b := e.eval(x.args[0]), e.eval(x.args[1])
		if a.k == 'n' || b.k == 'n' {
			return dbVal{k: 'n'}
		}
		s, t := e.intTerm(a), e.intTerm(b)
		var r *Term
		switch x.op {
		case "+":
			r = tc.Add(s, t)
		case "-":
			r = tc.Sub(s, t)
		case "*":
			r = tc.Mul(s, t)
		case "/", "%":
			if p.branch(tc.Eq(t, tc.Const(0, 64))) {
				return dbVal{k: 'n'}
			}
			if x.op == "/" {
				r = tc.Sdiv(s, t)
			} else {
				r = tc.Srem(s, t)
			}
		}
		return dbVal{'i', vTerm(r)}
	case "neg":
		return dbVal{'i', vTerm(tc.Neg(e.intTerm(e.eval(x.args[0]))))}
	case "||":
		a, b := e.eval(x.args[0]), e.eval(x.args[1])
		if a.k == 'n' || b.k == 'n' {
			return dbVal{k: 'n'}
		}
		return dbVal{'s', catStr(e.str(a), e.str(b))}
	case "case":
		i := 0
		for ; i+1 < len(x.args); i += 2 {
			if p.branch(e.truth(e.eval(x.args[i]))) {
				return e.eval(x.args[i+1])
			}
		}
		if i < len(x.args) {
			return e.eval(x.args[i])
		}
		return dbVal{k: 'n'}
	case "fn":
		if v, ok := e.agg[x]; ok {
			return v
		}
		return e.fn(x)
	}
	panic(p.unsupported("sql expr " + x.op))
}

func (e *sqlEnv) fn(x *sqlExpr) dbVal {
	p := e.p
	tc := p.tc
	var a []dbVal
	for _, y := range x.args {
		v := e.eval(y)
		a = append(a, v)
		if v.k == 'n' && x.s != "coalesce" && x.s != "ifnull" && x.s != "iif" && x.s != "nullif" && x.s != "typeof" {
			return dbVal{k: 'n'}
		}
	}
	switch x.s {
	case "length":
		return dbVal{'i', vInt(int64(len(e.runes(e.str(a[0])))))}
	case "replace":
		return dbVal{'s', e.replace(e.str(a[0]), e.str(a[1]), e.str(a[2]))}
	case "lower", "upper":
		s := toSym(e.str(a[0]))
		out := &SymStr{b: append([]byte(nil), s.b...), t: append([]*Term(nil), s.t...)}
		lo, hi, d := byte('A'), byte('Z'), byte(32)
		if x.s == "upper" {
			lo, hi, d = 'a', 'z', 224
		}
		for i := range out.b {
			if t := out.t[i]; t != nil {
				c := tc.BAnd(tc.Ule(tc.Const(uint64(lo), 8), t), tc.Ule(t, tc.Const(uint64(hi), 8)))
				out.t[i] = tc.Ite(c, tc.Add(t, tc.Const(uint64(d), 8)), t)
			} else if out.b[i] >= lo && out.b[i] <= hi {
				out.b[i] += d
			}
		}
		return dbVal{'s', symToStr(out)}
	case "substr", "substring":
		rs := e.runes(e.str(a[0]))
		st := int(int64(p.concretize(e.intTerm(a[1]))))
		n := len(rs)
		if len(a) > 2 {
			n = int(int64(p.concretize(e.intTerm(a[2]))))
		}
		if st > 0 {
			st--
		} else if st < 0 {
			st += len(rs)
			if st < 0 {
				n += st
				st = 0
			}
		} else if len(a) > 2 {
			n--
		}
		if n < 0 {
			if len(a) > 2 {
				panic(p.unsupported("substr with negative length"))
			}
			n = 0
		}
		out := vStr("")
		for i := st; i < len(rs) && i < st+n; i++ {
			out = catStr(out, symToStr(rs[i]))
		}
		return dbVal{'s', out}
	case "instr":
		i := p.findStr(toSym(e.str(a[0])), toSym(e.str(a[1])))
		if i < 0 {
			return dbVal{'i', vInt(0)}
		}
		return dbVal{'i', vInt(int64(len(e.runes(subStr(e.str(a[0]), 0, i)))) + 1)}
	case "coalesce", "ifnull":
		for _, v := range a {
			if v.k != 'n' {
				return v
			}
		}
		return dbVal{k: 'n'}
	case "iif", "if":
		if p.branch(e.truth(a[0])) {
			return a[1]
		}
		if len(a) > 2 {
			return a[2]
		}
		return dbVal{k: 'n'}
	case "nullif":
		if p.branch(e.truth(e.cmp("=", a[0], a[1]))) {
			return dbVal{k: 'n'}
		}
		return a[0]
	case "abs":
		t := e.intTerm(a[0])
		return dbVal{'i', vTerm(tc.Ite(tc.Slt(t, tc.Const(0, 64)), tc.Neg(t), t))}
	case "rtrim", "ltrim", "trim":
		s := e.str(a[0])
		set := vStr(" ")
		if len(a) > 1 {
			set = e.str(a[1])
		}
		in := func(i int) bool {
			x := toSym(s)
			y := toSym(set)
			r := tc.fls
			for k := range y.b {
				r = tc.BOr(r, tc.Eq(p.symCell(x, i), p.symCell(y, k)))
			}
			return p.branch(r)
		}
		if x.s != "ltrim" {
			for strLen(s) > 0 && in(strLen(s)-1) {
				s = subStr(s, 0, strLen(s)-1)
			}
		}
		if x.s != "rtrim" {
			for strLen(s) > 0 && in(0) {
				s = subStr(s, 1, strLen(s))
			}
		}
		return dbVal{'s', s}
	case "min", "max":
		if len(a) >= 2 {
			r := a[0]
			for _, v := range a[1:] {
				lt := e.truth(e.cmp("<", v, r))
				if (x.s == "min") == p.branch(lt) {
					r = v
				}
			}
			return r
		}
	}
	panic(p.unsupported("sql function " + x.s))
}

func findAggs(x *sqlExpr, out *[]*sqlExpr) {
	if x == nil {
		return
	}
	if x.op == "fn" {
		switch x.s {
		case "count", "sum", "total":
			*out = append(*out, x)
			return
		case "min", "max":
			if len(x.args) == 1 {
				*out = append(*out, x)
				return
			}
		}
	}
	for _, a := range x.args {
		findAggs(a, out)
	}
}

// query runs a select and returns column names and rows.
// namesEqual reports whether a condition fixes the name column.
func namesEqual(x *sqlExpr) bool {
	if x == nil {
		return false
	}
	switch x.op {
	case "and":
		return namesEqual(x.args[0]) || namesEqual(x.args[1])
	case "=", "==":
		for i := 0; i < 2; i++ {
			a, b := x.args[i], x.args[1-i]
			if a.op == "col" && a.s == "name" && (b.op == "param" || b.op == "lit") {
				return true
			}
		}
	}
	return false
}

func (fr *Frame) sqlSelect(db *DB, s *sqlStmt, args []dbVal) ([]string, [][]dbVal) {
	return fr.sqlSelectIn(db, s, args, nil)
}

func (fr *Frame) sqlSelectIn(db *DB, s *sqlStmt, args []dbVal, outer *sqlEnv) ([]string, [][]dbVal) {
	p := fr.p
	env := &sqlEnv{fr: fr, p: p, args: args, alias: map[string]*sqlExpr{}, tab: s.tab, outer: outer, db: db}
	var cols []string
	for _, c := range s.cols {
		if c.e.op == "star" {
			cols = append(cols, hdrCols...)
			continue
		}
		cols = append(cols, c.alias)
		if c.alias != "" {
			if _, isCol := hdrColIdx[strings.ToLower(c.alias)]; !isCol {
				env.alias[strings.ToLower(c.alias)] = c.e
			}
		}
	}
	var sel []*dbRow
	if !s.from {
		if s.where != nil && !p.branch(env.truth(env.eval(s.where))) {
			return cols, nil
		}
		var row []dbVal
		for _, c := range s.cols {
			if c.e.op == "star" {
				panic(sqlErr("no tables specified"))
			}
			row = append(row, env.eval(c.e))
		}
		return cols, [][]dbVal{row}
	}
	for _, r := range db.rows {
		env.row = r
		if s.where != nil && !p.branch(env.truth(env.eval(s.where))) {
			continue
		}
		sel = append(sel, r)
	}
	if len(sel) > 1 && len(s.order) == 0 && namesEqual(s.where) {
		// sqlite looks these up in the index of the primary key (name, linkname)
		for i := 1; i < len(sel); i++ {
			for j := i; j > 0 && p.branch(env.truth(env.cmp("<", sel[j].vals[colLink], sel[j-1].vals[colLink]))); j-- {
				sel[j], sel[j-1] = sel[j-1], sel[j]
			}
		}
	}
	project := func(r *dbRow) []dbVal {
		env.row = r
		var out []dbVal
		for _, c := range s.cols {
			if c.e.op == "star" {
				out = append(out, r.vals...)
				continue
			}
			out = append(out, env.eval(c.e))
		}
		return out
	}
	var aggs []*sqlExpr
	for _, c := range s.cols {
		findAggs(c.e, &aggs)
	}
	if len(aggs) > 0 {
		env.agg = map[*sqlExpr]dbVal{}
		nullRow := &dbRow{vals: make([]dbVal, len(hdrCols))}
		for i := range nullRow.vals {
			nullRow.vals[i] = dbVal{k: 'n'}
		}
		bare := nullRow
		if len(sel) > 0 {
			bare = sel[0]
		}
		for _, a := range aggs {
			switch a.s {
			case "count":
				n := len(sel)
				if len(a.args) > 0 && a.args[0].op != "star" {
					var seen []dbVal
					n = 0
				next:
					for _, r := range sel {
						env.row = r
						v := env.eval(a.args[0])
						if v.k == 'n' {
							continue
						}
						if a.dist {
							for _, w := range seen {
								if p.branch(env.truth(env.cmp("=", v, w))) {
									continue next
								}
							}
							seen = append(seen, v)
						}
						n++
					}
				}
				env.agg[a] = dbVal{'i', vInt(int64(n))}
			case "sum", "total":
				t := p.tc.Const(0, 64)
				for _, r := range sel {
					env.row = r
					t = p.tc.Add(t, env.intTerm(env.eval(a.args[0])))
				}
				env.agg[a] = dbVal{'i', vTerm(t)}
				if len(sel) == 0 && a.s == "sum" {
					env.agg[a] = dbVal{k: 'n'}
				}
			default:
				best := dbVal{k: 'n'}
				for _, r := range sel {
					env.row = r
					v := env.eval(a.args[0])
					if v.k == 'n' {
						continue
					}
					better := best.k == 'n'
					if !better {
						if a.s == "min" {
							better = p.branch(env.truth(env.cmp("<", v, best)))
						} else {
							better = p.branch(env.truth(env.cmp(">", v, best)))
						}
					}
					if better {
						best = v
						bare = r
					}
				}
				env.agg[a] = best
			}
		}
		return cols, [][]dbVal{project(bare)}
	}
	// order by
	if len(s.order) > 0 {
		type keyed struct {
			r *dbRow
			k []dbVal
		}
		var ks []keyed
		for _, r := range sel {
			env.row = r
			k := keyed{r: r}
			for _, o := range s.order {
				k.k = append(k.k, env.eval(o.e))
			}
			ks = append(ks, k)
		}
		less := func(a, b keyed) bool {
			for i, o := range s.order {
				x, y := a.k[i], b.k[i]
				if o.desc {
					x, y = y, x
				}
				if p.branch(env.truth(env.cmp("<", x, y))) {
					return true
				}
				if i+1 < len(s.order) && !p.branch(env.truth(env.cmp("=", x, y))) {
					return false
				}
			}
			return false
		}
		for i := 1; i < len(ks); i++ {
			for j := i; j > 0 && less(ks[j], ks[j-1]); j-- {
				ks[j], ks[j-1] = ks[j-1], ks[j]
			}
		}
		for i := range ks {
			sel[i] = ks[i].r
		}
	}
	if s.dist {
		// sqlite keeps the first row of each kind
		var keep []*dbRow
		var seen [][]dbVal
	rows:
		for _, r := range sel {
			v := project(r)
			for _, w := range seen {
				same := p.tc.tru
				for i := range v {
					if v[i].k == 'n' || w[i].k == 'n' {
						same = p.tc.BAnd(same, p.tc.Bool(v[i].k == w[i].k))
						continue
					}
					same = p.tc.BAnd(same, env.truth(env.cmp("=", v[i], w[i])))
				}
				if p.branch(same) {
					continue rows
				}
			}
			seen = append(seen, v)
			keep = append(keep, r)
		}
		sel = keep
	}
	if s.offset != nil {
		n := int(int64(p.concretize(env.intTerm(env.eval(s.offset)))))
		if n > len(sel) {
			n = len(sel)
		}
		sel = sel[n:]
	}
	if s.limit != nil {
		env.row = nil
		n := int(int64(p.concretize(env.intTerm(env.eval(s.limit)))))
		if n >= 0 && n < len(sel) {
			sel = sel[:n]
		}
	}
	var out [][]dbVal
	for _, r := range sel {
		out = append(out, project(r))
	}
	return cols, out
}

const uniqueMsg = "constraint failed: UNIQUE constraint failed: headers.name, headers.linkname (1555)"

// conflict finds another row with the same primary key.
func (fr *Frame) conflict(db *DB, vals []dbVal, self *dbRow) *dbRow {
	p := fr.p
	for _, r := range db.rows {
		if r == self {
			continue
		}
		if p.branch(p.tc.BAnd(p.strEq(r.vals[colName].v, vals[colName].v), p.strEq(r.vals[colLink].v, vals[colLink].v))) {
			return r
		}
	}
	return nil
}

func (db *DB) drop(r *dbRow) {
	for i, x := range db.rows {
		if x == r {
			db.rows = append(db.rows[:i:i], db.rows[i+1:]...)
			return
		}
	}
}

// sqlExec runs a modifying statement.
func (fr *Frame) sqlExec(db *DB, s *sqlStmt, args []dbVal) (n int64, err string) {
	p := fr.p
	env := &sqlEnv{fr: fr, p: p, args: args, tab: s.tab, db: db}
	snap := db.snapshot()
	norm := func(v dbVal) dbVal {
		if v.k == 'b' {
			return dbVal{'i', vTerm(env.intTerm(v))}
		}
		return v
	}
	switch s.kind {
	case "nop":
		return 0, ""
	case "update":
		var sel []*dbRow
		for _, r := range db.rows {
			env.row = r
			if s.where == nil || p.branch(env.truth(env.eval(s.where))) {
				sel = append(sel, r)
			}
		}
		for _, r := range sel {
			env.row = r
			nv := append([]dbVal(nil), r.vals...)
			keyed := false
			for _, st := range s.sets {
				i, ok := hdrColIdx[strings.ToLower(st.col)]
				if !ok {
					return 0, "SQL logic error: no such column: " + st.col + " (1)"
				}
				if i == colName || i == colLink {
					keyed = true
				}
				nv[i] = norm(env.eval(st.e))
				if nv[i].k == 'n' {
					db.rows = snap
					return 0, "constraint failed: NOT NULL constraint failed: headers." + st.col + " (1299)"
				}
			}
			if keyed {
				if c := fr.conflict(db, nv, r); c != nil {
					switch s.confl {
					case "replace":
						db.drop(c)
					case "ignore":
						continue
					default:
						db.rows = snap
						return 0, uniqueMsg
					}
				}
			}
			r.vals = nv
			n++
		}
	case "delete":
		var keep []*dbRow
		for _, r := range db.rows {
			env.row = r
			if s.where == nil || p.branch(env.truth(env.eval(s.where))) {
				n++
				continue
			}
			keep = append(keep, r)
		}
		db.rows = keep
	case "insert":
		for _, v := range s.vals {
			env.row = nil
			nv := make([]dbVal, len(hdrCols))
			for i := range nv {
				nv[i] = dbVal{k: 'n'}
			}
			for i, c := range s.insCols {
				k, ok := hdrColIdx[strings.ToLower(c)]
				if !ok {
					return 0, "SQL logic error: table headers has no column named " + c + " (1)"
				}
				nv[k] = norm(env.eval(v[i]))
			}
			for i := range nv {
				if nv[i].k == 'n' {
					db.rows = snap
					return 0, "constraint failed: NOT NULL constraint failed: headers." + hdrCols[i] + " (1299)"
				}
			}
			if c := fr.conflict(db, nv, nil); c != nil {
				switch s.confl {
				case "ignore":
					continue
				case "replace":
					db.drop(c)
				case "update":
					env.row, env.excl = c, nv
					up := append([]dbVal(nil), c.vals...)
					for _, st := range s.confSet {
						i, ok := hdrColIdx[strings.ToLower(st.col)]
						if !ok {
							return 0, "SQL logic error: no such column: " + st.col + " (1)"
						}
						up[i] = norm(env.eval(st.e))
					}
					env.row, env.excl = nil, nil
					if fr.conflict(db, up, c) != nil {
						db.rows = snap
						return 0, uniqueMsg
					}
					c.vals = up
					n++
					continue
				default:
					db.rows = snap
					return 0, "constraint failed: UNIQUE constraint failed: headers.name, headers.linkname (1555)"
				}
			}
			db.nextR++
			db.rows = append(db.rows, &dbRow{id: db.nextR, vals: nv})
			n++
		}
	default:
		panic(p.unsupported("sql exec of " + s.kind))
	}
	db.ver++
	return n, ""
}

// ---- bridge ----

const sqlPkg = "database/sql"

func (p *Path) dbFor(path string) *DB {
	n, _ := p.vfs.lookup(path)
	key := path
	_ = n
	d := p.dbs[key]
	if n == nil {
		d = nil
	}
	if d == nil {
		d = &DB{}
		p.dbs[key] = d
		if n == nil {
			if pd, b, e := p.vfs.parent(path); e == 0 {
				nd := &vnode{data: &rope{}, mode: 0644, name: b}
				pd.kids[b] = nd
			}
		}
	}
	return d
}

func (fr *Frame) toDB(v Value) dbVal {
	if v.P == nil {
		return dbVal{k: 'n'}
	}
	ifc, ok := v.P.(*Iface)
	if !ok {
		panic(fr.p.unsupported("sql argument"))
	}
	switch ifc.t.kind {
	case kString:
		return dbVal{'s', ifc.v}
	case kInt:
		if t, ok := ifc.v.P.(*Term); ok {
			if t.w < 64 {
				if ifc.t.signed {
					t = fr.p.tc.Sext(t, 64)
				} else {
					t = fr.p.tc.Zext(t, 64)
				}
			}
			return dbVal{'i', vTerm(t)}
		}
		n := ifc.v.N
		if ifc.t.signed {
			n = uint64(sext(n, ifc.t.bits))
		}
		return dbVal{'i', Value{N: n}}
	case kBool:
		return dbVal{'b', ifc.v}
	case kStruct:
		if ifc.t.name == "time.Time" {
			return dbVal{'t', ifc.v}
		}
	}
	panic(fr.p.unsupported("sql argument of type " + ifc.t.name))
}

func (fr *Frame) dbErr(msg string) Value { return fr.errV(msg) }

// readableZone reports whether the driver can read back a time: it is stored as String() prints it, which
// can't be parsed for all zones.
func (fr *Frame) readableZone(v Value) bool {
	loc := v.P.(*StructV).F[2]
	if loc.P == nil {
		return true
	}
	l := structOf(loc)
	zs, ok := l.F[1].P.(*SliceV)
	if !ok || zs.ln == 0 {
		return true
	}
	z := zs.arr.(*StructV).F[zs.off].P.(*StructV)
	name, off := fr.str(z.F[0], "zone"), int(int64(z.F[1].N))
	s := time.Unix(1e9, 1).In(time.FixedZone(name, off)).String()
	_, err := time.Parse("2006-01-02 15:04:05.999999999 -0700 MST", s)
	return err == nil
}

// setField stores a database value into a Go field.
func (fr *Frame) setField(dst *Value, t types.Type, v dbVal, col string, idx int) string {
	k, w, _ := kindOf(t)
	if v.k == 'n' {
		return fmt.Sprintf("sql: Scan error on column index %d, name %q: converting NULL to %s is unsupported", idx, col, t.String())
	}
	env := &sqlEnv{fr: fr, p: fr.p}
	switch k {
	case kInt:
		if v.k == 's' || v.k == 't' {
			return fmt.Sprintf("sql: Scan error on column index %d, name %q: converting driver.Value type string to a %s: invalid syntax", idx, col, t.String())
		}
		x := env.intTerm(v)
		if w < 64 {
			x = fr.p.tc.Extract(x, w)
		}
		*dst = vTerm(x)
		return ""
	case kString:
		if v.k == 't' {
			return "unsupported time to string"
		}
		*dst = env.str(v)
		return ""
	case kBool:
		*dst = vTerm(env.truth(v))
		return ""
	case kStruct:
		if t.String() == "time.Time" {
			if v.k != 't' {
				return fmt.Sprintf("sql: Scan error on column index %d, name %q: unsupported Scan, storing driver.Value type into type *time.Time", idx, col)
			}
			if !fr.readableZone(v.v) {
				return fmt.Sprintf("sql: Scan error on column index %d, name %q: unsupported Scan, storing driver.Value type string into type *time.Time", idx, col)
			}
			fr.p.eng.aggOf(t).storeInto(dst, v.v)
			return ""
		}
	}
	panic(fr.p.unsupported("sql scan into " + t.String()))
}

func boilField(u *types.Struct, col string) int {
	for i := 0; i < u.NumFields(); i++ {
		tag := reflect.StructTag(u.Tag(i)).Get("boil")
		if tag == "-" {
			continue
		}
		if tag != "" {
			if tag == col {
				return i
			}
			continue
		}
		if strings.EqualFold(u.Field(i).Name(), strings.ReplaceAll(col, "_", "")) {
			return i
		}
	}
	return -1
}

// bindStruct fills a struct from one row.
func (fr *Frame) bindStruct(st *StructV, t types.Type, cols []string, row []dbVal) string {
	u := t.Underlying().(*types.Struct)
	for i, c := range cols {
		f := boilField(u, c)
		if f < 0 {
			continue
		}
		if e := fr.setField(&st.F[f], u.Field(f).Type(), row[i], c, i); e != "" {
			return "failed to bind pointers to obj: " + e
		}
	}
	return ""
}

func init() {
	// database/sql stub natives
	reg(sqlPkg+".dbOpen", func(fr *Frame, a []Value) Value {
		fr.p.dbFor(fr.str(a[0], "db path"))
		return Value{}
	})
	prep := func(fr *Frame, a []Value) (db *DB, s *sqlStmt, args []dbVal, err string) {
		db = fr.p.dbFor(fr.str(a[0], "db path"))
		q := fr.str(a[1], "sql text")
		for _, v := range fr.p.elems(a[2]) {
			args = append(args, fr.toDB(v))
		}
		st, np, e := sqlParse(q)
		if e != nil {
			return nil, nil, nil, e.Error()
		}
		if np > len(args) {
			return nil, nil, nil, fmt.Sprintf("missing argument with index %d", len(args)+1)
		}
		return db, st, args, ""
	}
	guard := func(f func() Value, onErr func(string) Value) (r Value) {
		defer func() {
			if x := recover(); x != nil {
				if e, ok := x.(sqlErr); ok {
					r = onErr("SQL logic error: " + string(e) + " (1)")
					return
				}
				panic(x)
			}
		}()
		return f()
	}
	// func dbExec(path, q string, args []interface{}) (int64, error)
	reg(sqlPkg+".dbExec", func(fr *Frame, a []Value) Value {
		fail := func(m string) Value { return vTuple(vInt(0), fr.dbErr(m)) }
		return guard(func() Value {
			db, s, args, e := prep(fr, a)
			if e != "" {
				return fail(e)
			}
			n, e := fr.sqlExec(db, s, args)
			if e != "" {
				return fail(e)
			}
			return vTuple(vInt(n), Value{})
		}, fail)
	})
	// func dbBind(path, q string, args []interface{}, obj interface{}) (int, error): number of rows
	reg(sqlPkg+".dbBind", func(fr *Frame, a []Value) Value {
		fail := func(m string) Value { return vTuple(vInt(0), fr.dbErr(m)) }
		return guard(func() Value {
			p := fr.p
			db, s, args, e := prep(fr, a)
			if e != "" {
				return fail(e)
			}
			cols, rows := fr.sqlSelect(db, s, args)
			obj := a[3].P.(*Iface)
			pt := obj.t.T.Underlying().(*types.Pointer).Elem()
			switch u := pt.Underlying().(type) {
			case *types.Struct:
				if len(rows) == 0 {
					return vTuple(vInt(0), fr.globalVal(sqlPkg, "ErrNoRows"))
				}
				if e := fr.bindStruct(structOf(obj.v), pt, cols, rows[0]); e != "" {
					return fail(e)
				}
			case *types.Slice:
				var out []Value
				et := u.Elem()
				isP := false
				st := et
				if q, ok := et.Underlying().(*types.Pointer); ok {
					isP = true
					st = q.Elem()
				}
				for _, r := range rows {
					z := zeroValue(st)
					if e := fr.bindStruct(z.P.(*StructV), st, cols, r); e != "" {
						return fail(e)
					}
					if isP {
						out = append(out, newBox(z))
					} else {
						out = append(out, z)
					}
				}
				if len(out) > 0 {
					d := deref(obj.v)
					var have []Value
					if d.P != nil {
						have = append(have, p.elems(*d)...)
					}
					*d = mkSlice(append(have, out...))
				}
			default:
				panic(p.unsupported("bind into " + pt.String()))
			}
			return vTuple(vInt(int64(len(rows))), Value{})
		}, fail)
	})
	// func dbRows(path, q string, args []interface{}) (cols []string, rows [][]interface{}, err error)
	reg(sqlPkg+".dbRows", func(fr *Frame, a []Value) Value {
		fail := func(m string) Value { return vTuple(Value{}, Value{}, fr.dbErr(m)) }
		return guard(func() Value {
			db, s, args, e := prep(fr, a)
			if e != "" {
				return fail(e)
			}
			cols, rows := fr.sqlSelect(db, s, args)
			eng := fr.p.eng
			var cs, rs []Value
			for _, c := range cols {
				cs = append(cs, vStr(c))
			}
			env := &sqlEnv{fr: fr, p: fr.p}
			for _, r := range rows {
				var vs []Value
				for _, v := range r {
					switch v.k {
					case 'n':
						vs = append(vs, Value{})
					case 's':
						vs = append(vs, eng.ifaceOf(types.Typ[types.String], v.v))
					case 't':
						vs = append(vs, eng.ifaceOf(eng.namedType("time", "Time"), v.v))
					default:
						vs = append(vs, eng.ifaceOf(types.Typ[types.Int64], vTerm(env.intTerm(v))))
					}
				}
				rs = append(rs, mkSlice(vs))
			}
			return vTuple(mkSlice(cs), mkSlice(rs), Value{})
		}, fail)
	})
	reg(sqlPkg+".dbSnapshot", func(fr *Frame, a []Value) Value {
		db := fr.p.dbFor(fr.str(a[0], ""))
		snaps, _ := fr.p.exts["dbsnaps"].([][]*dbRow)
		snaps = append(snaps, db.snapshot())
		fr.p.exts["dbsnaps"] = snaps
		return vInt(int64(len(snaps) - 1))
	})
	reg(sqlPkg+".dbRestore", func(fr *Frame, a []Value) Value {
		db := fr.p.dbFor(fr.str(a[0], ""))
		snaps, _ := fr.p.exts["dbsnaps"].([][]*dbRow)
		db.rows = snaps[fr.p.conc1(a[1])]
		return Value{}
	})
}
