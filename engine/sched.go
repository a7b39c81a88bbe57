package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Gor is an interpreted goroutine, run on a native goroutine that holds the baton.
type Gor struct {
	p       *Path
	id      int
	arena   []Value
	top     int
	chunks  []savedArena
	fr      *Frame
	wake    chan bool
	ready   func() bool // nil: runnable
	blocked string
	done    bool
	start   func()
	started bool
	vc      vclock
	name    string
	main    bool
	depth   int
	client  int // as named by the harness
}

func (p *Path) newGor(name string) *Gor {
	g := &Gor{p: p, id: p.nextGor, wake: make(chan bool, 1), name: name, client: -1}
	p.nextGor++
	p.gors = append(p.gors, g)
	return g
}

// spawn implements the go statement.
func (p *Path) spawn(fr *Frame, cl *Closure, args []Value) {
	name := cl.name
	if cl.fn != nil {
		name = cl.fn.name
	}
	g := p.newGor(name)
	if p.race != nil {
		g.vc = fr.g.vc.copy()
		g.vc.inc(g.id)
		fr.g.vc.inc(fr.g.id)
	}
	g.start = func() {
		g.callClosure(nil, cl, args, nil)
	}
	p.schedPoint(fr.g)
}

// runGor is the native body of a goroutine.
func (p *Path) runGor(g *Gor) {
	defer p.w.gwg.Done()
	defer func() {
		r := recover()
		g.done = true
		if r != nil {
			if pa, ok := r.(pathAbort); ok && pa.kind == "killed" {
				return
			}
			// hand the failure to the controller
			p.fail(r)
			return
		}
		// pass the baton on
		func() {
			defer func() {
				if r := recover(); r != nil {
					p.fail(r)
				}
			}()
			p.switchFrom(g)
		}()
	}()
	g.start()
}

// fail records a fatal event of the path and wakes the main controller.
func (p *Path) fail(r any) {
	select {
	case p.w.fatal <- r:
	default:
	}
}

func (g *Gor) isReady() bool {
	if g.done {
		return false
	}
	return g.ready == nil || g.ready()
}

// pick chooses the next goroutine to run among the ready ones.
func (p *Path) pick(cur *Gor) *Gor {
	var cands []*Gor
	n := len(p.gors)
	st := 0
	for i, g := range p.gors {
		if g == cur {
			st = i + 1
		}
	}
	for i := 0; i < n; i++ {
		g := p.gors[(st+i)%n]
		if g.isReady() {
			cands = append(cands, g)
		}
	}
	if len(cands) == 0 {
		return p.fireTimer()
	}
	if p.conc && len(cands) > 1 {
		// order: keep current first if runnable
		i := p.choose("sched", len(cands))
		return cands[i]
	}
	return cands[0]
}

// switchFrom gives the baton to another ready goroutine (cur is blocked or finished).
func (p *Path) switchFrom(cur *Gor) {
	nx := p.pick(cur)
	if nx == nil {
		panic(pathAbort{"deadlock", p.blockedInfo()})
	}
	if nx == cur {
		return
	}
	p.transfer(cur, nx)
}

func (p *Path) transfer(cur, nx *Gor) {
	p.cur = nx
	cur.depth = p.depth
	p.depth = nx.depth
	if !nx.started {
		nx.started = true
		p.w.gwg.Add(1)
		go p.runGor(nx)
	} else {
		nx.wake <- true
	}
	if cur.done {
		return
	}
	if !<-cur.wake {
		panic(pathAbort{"killed", ""})
	}
}

func (p *Path) blockedInfo() string {
	s := ""
	for _, g := range p.gors {
		if g.done {
			continue
		}
		if s != "" {
			s += "; "
		}
		w := ""
		if g.fr != nil {
			w = g.fr.where()
		}
		s += fmt.Sprintf("g%d %s blocked on %s at %s", g.id, g.name, g.blocked, w)
	}
	return s
}

// block suspends g until ready() holds.
func (p *Path) block(g *Gor, what string, ready func() bool) {
	if ready() {
		return
	}
	g.ready = ready
	g.blocked = what
	p.switchFrom(g)
	g.ready = nil
	g.blocked = ""
	p.cur = g
}

// schedPoint is a possible preemption.
func (p *Path) schedPoint(g *Gor) {
	if !p.conc || p.preempt <= 0 {
		return
	}
	var others []*Gor
	for _, o := range p.gors {
		if o != g && o.isReady() {
			others = append(others, o)
		}
	}
	if len(others) == 0 {
		return
	}
	i := p.choose("preempt", len(others)+1)
	if i == 0 {
		return
	}
	p.preempt--
	p.transfer(g, others[i-1])
	p.cur = g
}

// yieldAll lets all other goroutines run until they block.
func (p *Path) yieldAll(g *Gor) {
	for n := 0; n < 10000; n++ {
		var nx *Gor
		for _, o := range p.gors {
			if o != g && o.isReady() {
				nx = o
				break
			}
		}
		if nx == nil {
			return
		}
		// g becomes ready only when nobody else is
		g.ready = func() bool {
			for _, o := range p.gors {
				if o != g && o.isReady() {
					return false
				}
			}
			return true
		}
		g.blocked = "settle"
		p.transfer(g, nx)
		g.ready = nil
		g.blocked = ""
		p.cur = g
	}
}

// choose makes an n-way solver-visible choice.
func (p *Path) choose(what string, n int) int {
	if n <= 1 {
		return 0
	}
	w := uint8(1)
	for 1<<w < n {
		w++
	}
	t := p.newVar(what, w)
	p.schedN++
	if 1<<w != n {
		p.assume(p.tc.Ule(t, p.tc.Const(uint64(n-1), w)))
	}
	v := int(p.concretize(t))
	p.inputs = append(p.inputs, inputVar{label: "@" + what, t: t})
	return v
}

// ---- channels ----

type waiter struct {
	g     *Gor
	fired bool
	idx   int
	val   Value
	ok    bool
	grp   *waitGroup
	isSnd bool
	vc    vclock
}

type waitGroup struct {
	fired  bool
	winner *waiter
}

func dequeue(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.grp.fired {
			continue
		}
		return w
	}
	return nil
}

func peekq(q *[]*waiter) bool {
	for len(*q) > 0 {
		if (*q)[0].grp.fired {
			*q = (*q)[1:]
			continue
		}
		return true
	}
	return false
}

func (p *Path) fire(w *waiter) {
	w.grp.fired = true
	w.grp.winner = w
}

func (fr *Frame) chanSend(cv, x Value) {
	p := fr.p
	p.schedPoint(fr.g)
	if cv.P == nil {
		p.block(fr.g, "send on nil channel", func() bool { return false })
	}
	ch := cv.P.(*ChanV)
	if ch.closed {
		panic(&goPanic{v: p.eng.runtimeError("send on closed channel"), where: fr.where()})
	}
	fr.hbSend(ch)
	if w := dequeue(&ch.recvq); w != nil {
		w.val, w.ok = x, true
		p.fire(w)
		return
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, x)
		return
	}
	w := &waiter{g: fr.g, val: x, grp: &waitGroup{}, isSnd: true}
	ch.sendq = append(ch.sendq, w)
	p.block(fr.g, "channel send", func() bool { return w.grp.fired })
	fr.hbRecv(ch)
	if !w.ok {
		panic(&goPanic{v: p.eng.runtimeError("send on closed channel"), where: fr.where()})
	}
}

func (fr *Frame) chanRecv(cv Value, z Value) (Value, bool) {
	p := fr.p
	p.schedPoint(fr.g)
	if cv.P == nil {
		p.block(fr.g, "receive on nil channel", func() bool { return false })
	}
	ch := cv.P.(*ChanV)
	if v, ok, done := fr.tryRecv(ch, z); done {
		return v, ok
	}
	w := &waiter{g: fr.g, grp: &waitGroup{}}
	ch.recvq = append(ch.recvq, w)
	fr.hbSend(ch)
	p.block(fr.g, "channel receive", func() bool { return w.grp.fired })
	fr.hbRecv(ch)
	if !w.ok {
		return z, false
	}
	return w.val, true
}

func (fr *Frame) tryRecv(ch *ChanV, z Value) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if w := dequeue(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			w.ok = true
			fr.p.fire(w)
		}
		fr.hbRecv(ch)
		return v, true, true
	}
	if w := dequeue(&ch.sendq); w != nil {
		w.ok = true
		fr.p.fire(w)
		fr.hbRecv(ch)
		fr.hbSend(ch)
		return w.val, true, true
	}
	if ch.closed {
		fr.hbRecv(ch)
		return z, false, true
	}
	return Value{}, false, false
}

func (fr *Frame) chanClose(cv Value) {
	if cv.P == nil {
		panic(&goPanic{v: fr.p.eng.runtimeError("close of nil channel"), where: fr.where()})
	}
	ch := cv.P.(*ChanV)
	if ch.closed {
		panic(&goPanic{v: fr.p.eng.runtimeError("close of closed channel"), where: fr.where()})
	}
	fr.hbSend(ch)
	ch.closed = true
	for w := dequeue(&ch.recvq); w != nil; w = dequeue(&ch.recvq) {
		w.ok = false
		fr.p.fire(w)
	}
	for w := dequeue(&ch.sendq); w != nil; w = dequeue(&ch.sendq) {
		w.ok = false
		fr.p.fire(w)
	}
	fr.p.schedPoint(fr.g)
}

func (c *compiler) sel(in *ssa.Select) func(fr *Frame) {
	d := c.slots[in]
	type st struct {
		ch, val int
		send    bool
		z       Value
	}
	var sts []st
	nrecv := 0
	for _, s := range in.States {
		x := st{ch: c.op(s.Chan), val: -1 << 30, send: s.Dir == types.SendOnly}
		if x.send {
			x.val = c.op(s.Send)
		} else {
			x.z = zeroValue(s.Chan.Type().Underlying().(*types.Chan).Elem())
			nrecv++
		}
		sts = append(sts, x)
	}
	return func(fr *Frame) {
		p := fr.p
		p.schedPoint(fr.g)
		res := func(idx int, ok bool, val Value) {
			t := &StructV{F: []Value{vInt(int64(idx)), vBool(ok)}}
			for i, s := range sts {
				if s.send {
					continue
				}
				if i == idx {
					t.F = append(t.F, val)
				} else {
					t.F = append(t.F, s.z)
				}
			}
			fr.regs[d] = Value{P: t}
		}
		for i, s := range sts {
			cv := fr.get(s.ch)
			if cv.P == nil {
				continue
			}
			ch := cv.P.(*ChanV)
			if s.send {
				if ch.closed {
					panic(&goPanic{v: p.eng.runtimeError("send on closed channel"), where: fr.where()})
				}
				if peekq(&ch.recvq) || len(ch.buf) < ch.cap {
					fr.chanSend(cv, fr.get(s.val))
					res(i, false, Value{})
					return
				}
			} else {
				if v, ok, done := fr.tryRecv(ch, s.z); done {
					res(i, ok, v)
					return
				}
			}
		}
		if !in.Blocking {
			res(-1, false, Value{})
			return
		}
		grp := &waitGroup{}
		for i, s := range sts {
			cv := fr.get(s.ch)
			if cv.P == nil {
				continue
			}
			ch := cv.P.(*ChanV)
			w := &waiter{g: fr.g, grp: grp, idx: i}
			fr.hbSend(ch)
			if s.send {
				w.val = fr.get(s.val)
				w.isSnd = true
				ch.sendq = append(ch.sendq, w)
			} else {
				ch.recvq = append(ch.recvq, w)
			}
		}
		p.block(fr.g, "select", func() bool { return grp.fired })
		w := grp.winner
		ch := fr.get(sts[w.idx].ch).P.(*ChanV)
		fr.hbRecv(ch)
		if w.isSnd {
			if !w.ok {
				panic(&goPanic{v: p.eng.runtimeError("send on closed channel"), where: fr.where()})
			}
			res(w.idx, false, Value{})
			return
		}
		if w.ok {
			res(w.idx, true, w.val)
		} else {
			res(w.idx, false, sts[w.idx].z)
		}
	}
}

// ---- mutexes ----

type mutexState struct {
	w    bool
	r    int
	own  *Gor
	wait int
	vcW  vclock
	vcR  vclock
	at   string
}

type wgState struct {
	n  int
	vc vclock
}

func (p *Path) mutex(v Value) *mutexState {
	k := lockKey{v.P, v.N}
	m := p.locks[k]
	if m == nil {
		m = &mutexState{}
		p.locks[k] = m
	}
	return m
}

func (fr *Frame) lock(v Value) {
	if v.P == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	p := fr.p
	// the index is only reached through calls at which a harness yields
	if fr.caller == nil || fr.caller.fn == nil || !strings.HasPrefix(fr.caller.fn.name, "(*database/sql.") {
		p.schedPoint(fr.g)
	}
	m := p.mutex(v)
	if m.w || m.r > 0 {
		m.wait++
		p.block(fr.g, "mutex locked at "+m.at, func() bool { return !m.w && m.r == 0 })
		m.wait--
	}
	m.w = true
	m.own = fr.g
	if m.at == "" || p.conc {
		m.at = ""
	}
	m.at = fr.caller.where()
	if p.race != nil {
		fr.g.vc.join(m.vcW)
		fr.g.vc.join(m.vcR)
	}
}

func (fr *Frame) unlock(v Value) {
	p := fr.p
	m := p.mutex(v)
	if !m.w {
		panic(pathAbort{"fatal", "sync: unlock of unlocked mutex"})
	}
	m.w = false
	if p.race != nil {
		m.vcW = fr.g.vc.copy()
		fr.g.vc.inc(fr.g.id)
	}
	p.schedPoint(fr.g)
}

func (fr *Frame) rlock(v Value) {
	p := fr.p
	p.schedPoint(fr.g)
	m := p.mutex(v)
	if m.w {
		p.block(fr.g, "rwmutex locked at "+m.at, func() bool { return !m.w })
	}
	m.r++
	if p.race != nil {
		fr.g.vc.join(m.vcW)
	}
}

func (fr *Frame) runlock(v Value) {
	p := fr.p
	m := p.mutex(v)
	if m.r <= 0 {
		panic(pathAbort{"fatal", "sync: RUnlock of unlocked RWMutex"})
	}
	m.r--
	if p.race != nil {
		m.vcR.join(fr.g.vc)
		fr.g.vc.inc(fr.g.id)
	}
	p.schedPoint(fr.g)
}

// ---- happens-before / race detection ----

type vclock map[int]int

func (v vclock) copy() vclock {
	n := vclock{}
	for k, x := range v {
		n[k] = x
	}
	return n
}

func (v *vclock) join(o vclock) {
	if *v == nil {
		*v = vclock{}
	}
	for k, x := range o {
		if x > (*v)[k] {
			(*v)[k] = x
		}
	}
}

func (v *vclock) inc(i int) {
	if *v == nil {
		*v = vclock{}
	}
	(*v)[i]++
}

type accessInfo struct {
	wg, wt int // last writer goroutine and its clock
	wAt    string
	reads  map[int]int
	rAt    map[int]string
	hasW   bool
}

type raceState struct {
	mem    map[lockKey]*accessInfo
	chvc   map[*ChanV]*vclock
	atom   map[lockKey]*vclock
	report map[string]bool
}

func (p *Path) startRace() {
	p.race = &raceState{mem: map[lockKey]*accessInfo{}, chvc: map[*ChanV]*vclock{}, atom: map[lockKey]*vclock{}, report: map[string]bool{}}
	for _, g := range p.gors {
		g.vc.inc(g.id)
	}
}

func (fr *Frame) hbSend(ch *ChanV) {
	r := fr.p.race
	if r == nil {
		return
	}
	c := r.chvc[ch]
	if c == nil {
		c = &vclock{}
		r.chvc[ch] = c
	}
	c.join(fr.g.vc)
	fr.g.vc.inc(fr.g.id)
}

func (fr *Frame) hbRecv(ch *ChanV) {
	r := fr.p.race
	if r == nil {
		return
	}
	if c := r.chvc[ch]; c != nil {
		fr.g.vc.join(*c)
	}
}

// raceAtomic orders atomic operations on the same address.
func (fr *Frame) raceAtomic(v Value) {
	r := fr.p.race
	if r == nil {
		return
	}
	k := lockKey{v.P, v.N}
	c := r.atom[k]
	if c == nil {
		c = &vclock{}
		r.atom[k] = c
	}
	fr.g.vc.join(*c)
	c.join(fr.g.vc)
	fr.g.vc.inc(fr.g.id)
}

func (fr *Frame) raceAccess(k lockKey, write bool) {
	r := fr.p.race
	if r == nil || len(fr.p.gors) < 2 {
		return
	}
	if _, ok := k.c.(*lazyElem); ok {
		return
	}
	a := r.mem[k]
	if a == nil {
		a = &accessInfo{}
		r.mem[k] = a
	}
	g := fr.g
	at := func() string {
		s := ""
		n := 0
		for f := fr; f != nil && n < 3; f = f.caller {
			if f.fn != nil {
				if s != "" {
					s += " < "
				}
				s += f.fn.name
				n++
			}
		}
		return s
	}
	if a.hasW && a.wg != g.id && g.vc[a.wg] < a.wt {
		fr.p.reportRace(a.wAt, "write", at(), map[bool]string{true: "write", false: "read"}[write])
	}
	if write {
		for rg, rt := range a.reads {
			if rg != g.id && g.vc[rg] < rt {
				fr.p.reportRace(a.rAt[rg], "read", at(), "write")
			}
		}
		a.hasW = true
		a.wg, a.wt = g.id, g.vc[g.id]
		a.wAt = at()
		a.reads = nil
		a.rAt = nil
	} else {
		if a.reads == nil {
			a.reads = map[int]int{}
			a.rAt = map[int]string{}
		}
		if a.reads[g.id] != g.vc[g.id] {
			a.reads[g.id] = g.vc[g.id]
			a.rAt[g.id] = at()
		}
	}
}

func (p *Path) reportRace(a, ka, b, kb string) {
	key := a + "|" + b
	if p.race.report[key] {
		return
	}
	p.race.report[key] = true
	p.addCand(Candidate{label: "race", kind: "race", msg: fmt.Sprintf("data race: %s in [%s] vs %s in [%s]", ka, a, kb, b)}, p.mod)
}

// timerV is a timer of package time.
type timerV struct {
	key          any
	when, period int64
	f            *Closure
	arg          Value
	active       bool
}

func (p *Path) timerOf(v Value) *timerV {
	for _, t := range p.timers {
		if t.key == v.P {
			return t
		}
	}
	panic(p.unsupported("timer that was not made by package time"))
}

// fireTimer lets the next timer run out: nothing else can run, so time passes.
func (p *Path) fireTimer() *Gor {
	var first *timerV
	for _, t := range p.timers {
		if t.active && (first == nil || t.when < first.when) {
			first = t
		}
	}
	if first == nil || p.fired >= 64 || p.eng == nil {
		return nil
	}
	p.fired++
	if s := first.when / 1e9; s > p.clock {
		p.clock = s
	}
	if first.period > 0 {
		first.when += first.period
	} else {
		first.active = false
	}
	g := p.newGor("timer")
	g.start = func() {
		g.callClosure(nil, first.f, []Value{first.arg, vInt(0), vInt(0)}, nil)
	}
	return g
}
