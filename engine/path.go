package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Decision is one recorded resolution of a symbolic branch event.
type Decision struct {
	dir    bool
	forced bool
	val    uint64
}

// abort kinds raised as Go panics inside a path.
type pathAbort struct {
	kind string // "budget", "unsupported", "infeasible", "killed", "done", "time", "unknown"
	msg  string
}

type Candidate struct {
	label  string
	kind   string // "assert", "panic", "deadlock", "budget", "race"
	msg    string
	inputs []InputVal
	findID string
	trace  []string
	conc   bool
}

type InputVal struct {
	Label string `json:"l"`
	Val   int64  `json:"v"`
}

type inputVar struct {
	label string
	t     *Term
	conc  int64
	isC   bool
}

type lockKey struct {
	c any
	i uint64
}

// Path is one symbolic execution path.
type Path struct {
	forkCond string
	eng      *Engine
	w        *Worker
	tc       *TermCtx
	sol      *Solver
	job      *Job
	dec      []Decision
	pos      int
	mod      Model
	ev       *Evaluator
	know     map[*Term]bool
	bnd      map[*Term][2]int64
	dom      map[*Term]*[4]uint64
	link     map[*Term]bool
	pend     []*Term // constraints not yet sent to the solver

	steps  int64
	budget int64

	globals map[*Glob]*StructV
	memo    map[any]any // snapshot clone memo

	gors    []*Gor
	cur     *Gor
	nextGor int
	conc    bool // concurrent exploration mode
	turns   int
	preempt int // remaining preemptions
	race    *raceState
	schedN  int

	locks      map[lockKey]*mutexState
	wgs        map[lockKey]*wgState
	misc       map[lockKey]any
	inputs     []inputVar
	obs        []string
	reach      map[string]bool
	cands      []Candidate
	asserts    int64
	proved     int64
	concN      int64 // assertions that were concretely true
	vfs        *VFS
	dbs        map[string]*DB
	clock      int64
	timers     []*timerV
	fired      int
	nvar       int
	mapSeq     int
	tainted    []*Term
	stop       string
	depth      int
	exts       map[string]any
	trace      []string
	settled    bool
	deadl      bool
	goexit     []string
	unkn       int
	finding    map[string]bool
	curFinding string
	everConc   bool
	hangIsBug  bool
	obsV       []obsItem
	frozen     bool
	softBudget int64
}

func (p *Path) unsupported(msg string) pathAbort {
	return pathAbort{"unsupported", msg}
}

func (p *Path) flush() {
	for _, t := range p.pend {
		p.sol.Assert(t)
	}
	p.pend = p.pend[:0]
}

// learn records cond as true on this path (all conjuncts).
func (p *Path) learn(cond *Term) {
	p.pend = append(p.pend, cond)
	p.note(cond)
}

func (p *Path) note(cond *Term) {
	if cond.op == opBAnd {
		for _, a := range cond.args {
			p.note(a)
		}
		return
	}
	p.know[cond] = true
	p.know[p.tc.Not(cond)] = false
	if cond.op == opBNot && cond.args[0].op == opBOr {
		for _, a := range cond.args[0].args {
			p.note(p.tc.Not(a))
		}
	}
	if cond.sv != nil && cond.sv.w > 0 && cond.sv.w <= 8 {
		v := cond.sv
		d := p.domain(v)
		e := Evaluator{m: Model{}, memo: map[*Term]uint64{}}
		for x := uint64(0); x <= wmask(v.w); x++ {
			if d[x>>6]>>(x&63)&1 == 0 {
				continue
			}
			e.m[v.name] = x
			clear(e.memo)
			if e.Eval(cond) == 0 {
				d[x>>6] &^= 1 << (x & 63)
			}
		}
	} else if cond.mv {
		p.linkVars(cond)
	}
	// interval refinement against constants
	switch cond.op {
	case opSle, opUle:
		a, b := cond.args[0], cond.args[1]
		if b.op == opConst && a.op != opConst {
			p.refine(a, minI64, int64(b.k))
		} else if a.op == opConst {
			p.refine(b, int64(a.k), maxI64)
		}
	case opEq:
		a, b := cond.args[0], cond.args[1]
		if b.op == opConst && a.w > 0 {
			p.refine(a, int64(b.k), int64(b.k))
		}
	}
}

const minI64 = -1 << 63
const maxI64 = 1<<63 - 1

func (p *Path) refine(t *Term, lo, hi int64) {
	if t.w != 64 {
		if lo < 0 {
			lo = 0
		}
	}
	b, ok := p.bnd[t]
	if !ok {
		b = [2]int64{t.lo, t.hi}
	}
	if lo > b[0] {
		b[0] = lo
	}
	if hi < b[1] {
		b[1] = hi
	}
	p.bnd[t] = b
}

func (p *Path) linkVars(t *Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == opVar {
			p.link[t] = true
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.lin {
			walk(m.t)
		}
	}
	walk(t)
}

func (p *Path) domain(v *Term) *[4]uint64 {
	d := p.dom[v]
	if d == nil {
		d = &[4]uint64{}
		for x := uint64(0); x <= wmask(v.w); x++ {
			d[x>>6] |= 1 << (x & 63)
		}
		p.dom[v] = d
	}
	return d
}

// rng bounds a 64-bit term by what is known on this path.
func (p *Path) rng(t *Term, depth int) (int64, int64) {
	lo, hi := t.lo, t.hi
	if b, ok := p.bnd[t]; ok {
		lo, hi = max(lo, b[0]), min(hi, b[1])
	}
	if depth <= 0 || lo == hi {
		return lo, hi
	}
	switch t.op {
	case opZext:
		if t.w == 64 {
			l, h := p.rng(t.args[0], depth-1)
			lo, hi = max(lo, l), min(hi, h)
		}
	case opAshr, opLshr, opUdiv:
		if a, d, ok := divOf(t); ok {
			l, h := p.rng(a, depth-1)
			if d > 0 && l >= 0 {
				lo, hi = max(lo, l/d), min(hi, h/d)
			}
		}
	case opLin:
		if t.w == 64 {
			if l, h, ok := linRange(int64(t.k), t.lin, func(x *Term) (int64, int64) { return p.rng(x, depth-1) }); ok {
				lo, hi = max(lo, l), min(hi, h)
			}
		}
	}
	return lo, hi
}

// quick tries to decide cond without the solver. 1 true, 0 false, -1 undecided;
// when undecided and cond depends on one unlinked byte variable, free is true and
// wt/wf are witnesses for each side.
func (p *Path) quick(cond *Term) (res int, free bool, wt, wf uint64) {
	if cond == p.tc.tru {
		return 1, false, 0, 0
	}
	if cond == p.tc.fls {
		return 0, false, 0, 0
	}
	if v, ok := p.know[cond]; ok {
		if v {
			return 1, false, 0, 0
		}
		return 0, false, 0, 0
	}
	switch cond.op {
	case opBAnd:
		all := true
		for _, a := range cond.args {
			if v, ok := p.know[a]; ok {
				if !v {
					return 0, false, 0, 0
				}
			} else {
				all = false
			}
		}
		if all {
			return 1, false, 0, 0
		}
	case opBOr:
		all := true
		for _, a := range cond.args {
			if v, ok := p.know[a]; ok {
				if v {
					return 1, false, 0, 0
				}
			} else {
				all = false
			}
		}
		if all {
			return 0, false, 0, 0
		}
	case opSle, opUle:
		a, b := cond.args[0], cond.args[1]
		if cond.op == opUle && a.w == 64 {
			if al, _ := p.rng(a, 2); al < 0 {
				break
			}
			if bl, _ := p.rng(b, 2); bl < 0 {
				break
			}
		}
		if b.op == opConst {
			lo, hi := p.rng(a, 4)
			if hi <= int64(b.k) {
				return 1, false, 0, 0
			}
			if lo > int64(b.k) {
				return 0, false, 0, 0
			}
		} else if a.op == opConst {
			lo, hi := p.rng(b, 4)
			if lo >= int64(a.k) {
				return 1, false, 0, 0
			}
			if hi < int64(a.k) {
				return 0, false, 0, 0
			}
		}
	case opEq:
		a, b := cond.args[0], cond.args[1]
		if b.op == opConst && a.w > 0 {
			lo, hi := p.rng(a, 4)
			if int64(b.k) < lo || int64(b.k) > hi {
				return 0, false, 0, 0
			}
			if lo == hi {
				return 1, false, 0, 0
			}
		}
	}
	if v := cond.sv; v != nil && v.w > 0 && v.w <= 8 {
		d := p.domain(v)
		e := Evaluator{m: Model{}, memo: map[*Term]uint64{}}
		seenT, seenF := false, false
		for x := uint64(0); x <= wmask(v.w); x++ {
			if d[x>>6]>>(x&63)&1 == 0 {
				continue
			}
			e.m[v.name] = x
			clear(e.memo)
			if e.Eval(cond) != 0 {
				if !seenT {
					wt = x
				}
				seenT = true
			} else {
				if !seenF {
					wf = x
				}
				seenF = true
			}
			if seenT && seenF {
				break
			}
		}
		if !seenF {
			return 1, false, 0, 0
		}
		if !seenT {
			return 0, false, 0, 0
		}
		if !p.link[v] {
			return -1, true, wt, wf
		}
	}
	return -1, false, 0, 0
}

func (p *Path) setModel(m Model) {
	p.mod = m
	p.ev = NewEval(m)
}

// check asks the solver for pc && cond.
func (p *Path) check(cond *Term) (Result, Model) {
	if time.Now().After(p.w.run.deadline) {
		panic(pathAbort{"time", ""})
	}
	p.flush()
	return p.sol.Check(cond)
}

// branch decides cond on this path, forking the other side when it is feasible.
func (p *Path) branch(cond *Term) bool {
	if cond == p.tc.tru {
		return true
	}
	if cond == p.tc.fls {
		return false
	}
	if v, ok := p.know[cond]; ok {
		return v
	}
	if p.pos < len(p.dec) {
		d := p.dec[p.pos]
		p.pos++
		c := cond
		if !d.dir {
			c = p.tc.Not(cond)
		}
		if d.forced {
			p.note(c)
		} else {
			p.learn(c)
		}
		return d.dir
	}
	res, free, wt, wf := p.quick(cond)
	if res >= 0 {
		return p.decide(cond, res == 1, true)
	}
	val := p.ev.Eval(cond) != 0
	other := cond
	if val {
		other = p.tc.Not(cond)
	}
	var om Model
	if free {
		om = make(Model, len(p.mod)+1)
		for k, v := range p.mod {
			om[k] = v
		}
		if val {
			om[cond.sv.name] = wf
		} else {
			om[cond.sv.name] = wt
		}
		p.w.stats.domFree++
	} else {
		r, m := p.check(other)
		switch r {
		case Unsat:
			if forkProf {
				p.forcedLog(cond)
			}
			return p.decide(cond, val, true)
		case Unknown:
			p.unkn++
			p.w.run.addUnknown()
			return p.decide(cond, val, false)
		}
		om = m
	}
	if forkProf {
		p.forkCond = cond.String()
	}
	p.forkTo(Decision{dir: !val}, om)
	return p.decide(cond, val, false)
}

func (p *Path) decide(cond *Term, dir, forced bool) bool {
	p.dec = append(p.dec, Decision{dir: dir, forced: forced})
	p.pos = len(p.dec)
	c := cond
	if !dir {
		c = p.tc.Not(cond)
	}
	if forced {
		p.note(c)
	} else {
		p.learn(c)
	}
	return dir
}

func (p *Path) forcedLog(cond *Term) {
	k := ""
	if p.cur != nil && p.cur.fr != nil {
		k = p.cur.fr.where()
	}
	c := cond.String()
	if len(c) > 400 {
		c = c[:400]
	}
	if len(k) > 80 {
		k = k[:80]
	}
	r := p.w.run
	r.mu.Lock()
	if r.forks == nil {
		r.forks = map[string]int{}
	}
	r.forks["FORCED "+c+" @ "+k]++
	r.mu.Unlock()
}

func (p *Path) forkTo(d Decision, m Model) {
	pre := make([]Decision, len(p.dec)+1)
	copy(pre, p.dec)
	pre[len(p.dec)] = d
	if forkProf {
		k := ""
		if p.cur != nil && p.cur.fr != nil {
			k = p.cur.fr.where()
		}
		if len(p.forkCond) > 300 {
			p.forkCond = p.forkCond[:300]
		}
		k = p.forkCond + "  @ " + k
		p.w.run.mu.Lock()
		if p.w.run.forks == nil {
			p.w.run.forks = map[string]int{}
		}
		p.w.run.forks[k]++
		p.w.run.mu.Unlock()
	}
	p.w.run.push(&Job{dec: pre, mod: m, depth: p.job.depth + 1})
}

// concretize picks concrete values for t, forking over all feasible ones.
func (p *Path) concretize(t *Term) uint64 {
	if t.op == opConst {
		return t.k
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(p.unsupported("concretize: too many values"))
		}
		if b, ok := p.bnd[t]; ok && b[0] == b[1] {
			return uint64(b[0]) & wmask(t.w)
		}
		if p.pos < len(p.dec) {
			d := p.dec[p.pos]
			p.pos++
			eq := p.tc.Eq(t, p.tc.Const(d.val, t.w))
			if d.dir {
				p.learnOr(eq, d.forced)
				p.refine(t, int64(d.val), int64(d.val))
				return d.val
			}
			p.learnOr(p.tc.Not(eq), d.forced)
			continue
		}
		v := p.ev.Eval(t)
		eq := p.tc.Eq(t, p.tc.Const(v, t.w))
		r, _, _, _ := p.quick(eq)
		forced := r == 1
		if !forced {
			res, m := p.check(p.tc.Not(eq))
			switch res {
			case Unsat:
				forced = true
			case Sat:
				if forkProf {
					p.forkCond = "conc " + t.String()
				}
				p.forkTo(Decision{dir: false, val: v}, m)
			case Unknown:
				p.unkn++
				p.w.run.addUnknown()
			}
		}
		p.dec = append(p.dec, Decision{dir: true, val: v, forced: forced})
		p.pos = len(p.dec)
		p.learnOr(eq, forced)
		p.refine(t, int64(v), int64(v))
		return v
	}
}

func (p *Path) learnOr(t *Term, forced bool) {
	if t == p.tc.tru {
		return
	}
	if forced {
		p.note(t)
	} else {
		p.learn(t)
	}
}

// must reports whether the path condition entails cond (no forking).
func (p *Path) must(cond *Term) bool {
	if cond == p.tc.tru {
		return true
	}
	if cond == p.tc.fls {
		return false
	}
	// decisions are logged so that replays need no query
	if p.pos < len(p.dec) {
		d := p.dec[p.pos]
		p.pos++
		return d.dir
	}
	ok := false
	res, _, _, _ := p.quick(cond)
	switch {
	case res == 1:
		ok = true
	case res == 0:
	default:
		if p.ev.Eval(cond) != 0 {
			r, _ := p.check(p.tc.Not(cond))
			ok = r == Unsat
		}
	}
	p.dec = append(p.dec, Decision{dir: ok, forced: true})
	p.pos = len(p.dec)
	return ok
}

// assume restricts the path to cond, ending it when infeasible.
func (p *Path) assume(cond *Term) {
	if cond == p.tc.tru {
		return
	}
	if cond == p.tc.fls {
		panic(pathAbort{"infeasible", ""})
	}
	if p.pos < len(p.dec) {
		d := p.dec[p.pos]
		p.pos++
		p.learnOr(cond, d.forced)
		if !d.dir {
			panic(pathAbort{"infeasible", ""})
		}
		return
	}
	res, free, wt, _ := p.quick(cond)
	if res == 0 {
		panic(pathAbort{"infeasible", ""})
	}
	forced := res == 1
	if !forced && p.ev.Eval(cond) == 0 {
		if free {
			m := make(Model, len(p.mod)+1)
			for k, v := range p.mod {
				m[k] = v
			}
			m[cond.sv.name] = wt
			p.setModel(m)
		} else {
			r, m := p.check(cond)
			if r != Sat {
				if r == Unknown {
					p.unkn++
					p.w.run.addUnknown()
				}
				panic(pathAbort{"infeasible", ""})
			}
			p.setModel(m)
		}
	}
	p.dec = append(p.dec, Decision{dir: true, forced: forced})
	p.pos = len(p.dec)
	p.learnOr(cond, forced)
}

// assert checks cond for every value on this path.
func (p *Path) assert(cond *Term, label, msg, findID string) {
	p.asserts++
	if cond == p.tc.tru {
		p.concN++
		return
	}
	neg := p.tc.Not(cond)
	if p.pos < len(p.dec) {
		d := p.dec[p.pos]
		p.pos++
		if d.dir {
			p.learnOr(cond, d.forced)
			return
		}
		panic(pathAbort{"infeasible", "assertion always false"})
	}
	var m Model
	sat := false
	res, free, _, wf := p.quick(cond)
	switch {
	case res == 1:
	case res == 0:
		sat = true
		m = p.mod
	case p.ev.Eval(cond) == 0:
		sat = true
		m = p.mod
	case free:
		sat = true
		m = make(Model, len(p.mod)+1)
		for k, v := range p.mod {
			m[k] = v
		}
		m[cond.sv.name] = wf
	default:
		r, mm := p.check(neg)
		if r == Sat {
			sat, m = true, mm
		} else if r == Unknown {
			p.unkn++
			p.w.run.addUnknown()
		}
	}
	if !sat {
		p.proved++
		p.dec = append(p.dec, Decision{dir: true, forced: true})
		p.pos = len(p.dec)
		p.note(cond)
		return
	}
	p.addCand(Candidate{label: label, kind: "assert", msg: msg, findID: findID}, m)
	// continue with the condition if possible
	if res == 0 {
		p.dec = append(p.dec, Decision{dir: false})
		p.pos = len(p.dec)
		panic(pathAbort{"infeasible", "assertion always false"})
	}
	if p.ev.Eval(cond) == 0 {
		r, m2 := p.check(cond)
		if r != Sat {
			p.dec = append(p.dec, Decision{dir: false})
			p.pos = len(p.dec)
			panic(pathAbort{"infeasible", "assertion always false"})
		}
		p.setModel(m2)
	}
	p.dec = append(p.dec, Decision{dir: true})
	p.pos = len(p.dec)
	p.learn(cond)
}

func (p *Path) inputVals(m Model) []InputVal {
	e := NewEval(m)
	var out []InputVal
	for _, iv := range p.inputs {
		if iv.isC {
			out = append(out, InputVal{iv.label, iv.conc})
			continue
		}
		v := e.Eval(iv.t)
		out = append(out, InputVal{iv.label, sext(v, iv.t.w)})
		if iv.t.w < 64 {
			out[len(out)-1].Val = int64(v)
		}
	}
	return out
}

func (p *Path) addCand(c Candidate, m Model) {
	c.inputs = p.inputVals(m)
	c.conc = p.everConc
	c.trace = append([]string(nil), p.trace...)
	p.cands = append(p.cands, c)
	p.w.run.addCandidate(c)
}

// newVar makes a fresh symbolic variable of width w.
func (p *Path) newVar(prefix string, w uint8) *Term {
	p.nvar++
	return p.tc.Var(fmt.Sprintf("%s#%d", prefix, p.nvar), w)
}

func (p *Path) observations() string {
	return strings.Join(p.obs, "\n")
}

func (p *Path) reachLabels() []string {
	var out []string
	for k := range p.reach {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// overBudget checks the hard instruction budget and the time limit.
func (p *Path) overBudget(fr *Frame) {
	if p.budget > 0 && p.steps > p.budget {
		panic(pathAbort{"budget", "instruction budget in " + fr.fn.name})
	}
	if p.w != nil && time.Now().After(p.w.run.deadline) {
		panic(pathAbort{"time", ""})
	}
	p.softBudget = p.steps + 1000000
}
