package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Intrinsic func(fr *Frame, args []Value) Value

// Glob is a package-level variable.
type Glob struct {
	g    *ssa.Global
	name string
	init *StructV // snapshot after package initialisation
	ext  func(p *Path) Value
	imm  bool // immutable: share without cloning
}

// Fn is a compiled function.
type Fn struct {
	eng      *Engine
	f        *ssa.Function
	name     string
	once     sync.Once
	err      string
	blocks   []*blk
	nregs    int
	cbase    int
	consts   []Value
	nparams  int
	hasDefer bool
	recov    int
	intr     Intrinsic
	resT     *types.Tuple
	pkg      string
	globs    []*Glob
	hot      bool
}

type blk struct {
	idx  int
	phis []phiNode
	ins  []func(fr *Frame)
	term func(fr *Frame) int
	pred []int // predecessor block index per edge
}

type phiNode struct {
	dst  int
	srcs []int
}

// Frame is one activation.
type Frame struct {
	p      *Path
	g      *Gor
	fn     *Fn
	regs   []Value
	prev   int
	cur    int
	defers []deferred
	result Value
	pan    *goPanic
	pframe *Frame // frame whose panic this deferred call may recover
	caller *Frame
}

type deferred struct {
	fn      *Closure
	args    []Value
	builtin func(fr *Frame)
}

// goPanic is a Go-level panic travelling through interpreted frames.
type goPanic struct {
	v         Value
	recovered bool
	where     string
}

type Engine struct {
	ld      *Loader
	prog    *ssa.Program
	mu      sync.Mutex
	fns     map[*ssa.Function]*Fn
	tmap    typeutil.Map
	tmu     sync.Mutex
	ntypes  int
	aggs    map[*TypeInfo]*aggDesc
	aggMu   sync.Mutex
	globs   map[*ssa.Global]*Glob
	intr    map[string]Intrinsic
	used    sync.Map // function name -> true (functions of the repo that were executed)
	buildMu sync.Mutex
	notes   sync.Map
	immPkg  map[string]bool
	initing bool
	bodyFns map[*Fn]*Fn
}

func NewEngine(ld *Loader) *Engine {
	e := &Engine{ld: ld, prog: ld.Prog, fns: map[*ssa.Function]*Fn{}, aggs: map[*TypeInfo]*aggDesc{}, globs: map[*ssa.Global]*Glob{}, intr: map[string]Intrinsic{}, bodyFns: map[*Fn]*Fn{}}
	e.tmap.SetHasher(typeutil.MakeHasher())
	registerIntrinsics(e)
	return e
}

func (e *Engine) TypeInfo(t types.Type) *TypeInfo {
	t = types.Unalias(t)
	e.tmu.Lock()
	defer e.tmu.Unlock()
	if v := e.tmap.At(t); v != nil {
		return v.(*TypeInfo)
	}
	e.ntypes++
	k, b, s := kindOf(t)
	ti := &TypeInfo{T: t, id: e.ntypes, name: t.String(), methods: map[string]*Fn{}, impl: map[*TypeInfo]bool{}, eng: e, kind: k, bits: b, signed: s}
	e.tmap.Set(t, ti)
	return ti
}

func (e *Engine) Fn(f *ssa.Function) *Fn {
	e.mu.Lock()
	defer e.mu.Unlock()
	if x, ok := e.fns[f]; ok {
		return x
	}
	x := &Fn{eng: e, f: f, name: f.String(), recov: -1}
	if o := f.Origin(); o != nil {
		x.name = o.String()
	}
	if f.Pkg != nil {
		x.pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		x.pkg = o.Pkg.Pkg.Path()
	}
	x.resT = f.Signature.Results()
	if in, ok := e.intr[x.name]; ok {
		x.intr = in
	}
	e.fns[f] = x
	return x
}

// Lookup finds a function or method by its ssa name within a package.
func (e *Engine) PkgFn(pkg, name string) *Fn {
	sp := e.ld.SSA[pkg]
	if sp == nil {
		return nil
	}
	f := sp.Func(name)
	if f == nil {
		return nil
	}
	return e.Fn(f)
}

func (e *Engine) namedType(pkg, name string) types.Type {
	sp := e.ld.SSA[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (e *Engine) Glob(g *ssa.Global) *Glob {
	e.mu.Lock()
	defer e.mu.Unlock()
	if x, ok := e.globs[g]; ok {
		return x
	}
	x := &Glob{g: g, name: g.String()}
	if g.Pkg != nil {
		switch g.Pkg.Pkg.Path() {
		case "unicode", "unicode/utf8", "internal/bytealg", "math/bits", "strconv":
			x.imm = true
		}
	}
	e.globs[g] = x
	return x
}

// method finds the concrete method implementing name on ti.
func (ti *TypeInfo) method(m *types.Func) *Fn {
	key := m.Name()
	if !m.Exported() && m.Pkg() != nil {
		key = m.Pkg().Path() + "." + key
	}
	ti.eng.tmu.Lock()
	f, ok := ti.methods[key]
	ti.eng.tmu.Unlock()
	if ok {
		return f
	}
	ti.eng.buildMu.Lock()
	sf := ti.eng.prog.LookupMethod(ti.T, m.Pkg(), m.Name())
	ti.eng.buildMu.Unlock()
	if sf != nil {
		f = ti.eng.Fn(sf)
	}
	ti.eng.tmu.Lock()
	ti.methods[key] = f
	ti.eng.tmu.Unlock()
	return f
}

func (e *Engine) methodByName(ti *TypeInfo, name string) *Fn {
	ms := types.NewMethodSet(ti.T)
	for i := 0; i < ms.Len(); i++ {
		if fo, ok := ms.At(i).Obj().(*types.Func); ok && fo.Name() == name {
			return ti.method(fo)
		}
	}
	return nil
}

func (ti *TypeInfo) implements(it *TypeInfo) bool {
	ti.eng.tmu.Lock()
	v, ok := ti.impl[it]
	ti.eng.tmu.Unlock()
	if ok {
		return v
	}
	r := types.Implements(ti.T, it.T.Underlying().(*types.Interface))
	ti.eng.tmu.Lock()
	ti.impl[it] = r
	ti.eng.tmu.Unlock()
	return r
}

// globalBox returns this path's storage of g.
func (p *Path) globalBox(g *Glob) *StructV {
	if b, ok := p.globals[g]; ok {
		return b
	}
	var b *StructV
	switch {
	case g.ext != nil:
		b = &StructV{F: []Value{g.ext(p)}}
	case p.eng.initing:
		if g.init == nil {
			g.init = &StructV{F: []Value{zeroValue(g.g.Type().(*types.Pointer).Elem())}}
		}
		return g.init
	case g.init == nil:
		b = &StructV{F: []Value{zeroValue(g.g.Type().(*types.Pointer).Elem())}}
	case g.imm:
		b = g.init
	default:
		b = p.deepClone(g.init).(*StructV)
	}
	p.globals[g] = b
	return b
}

// deepClone copies the heap graph reachable from x into this path (memoised).
func (p *Path) deepClone(x any) any {
	switch v := x.(type) {
	case nil, string, *Term, *SymStr, *SymFloat, *TypeInfo, *Fn:
		return x
	case *StructV:
		if n, ok := p.memo[v]; ok {
			return n
		}
		n := &StructV{F: make([]Value, len(v.F))}
		p.memo[v] = n
		for i, f := range v.F {
			n.F[i] = Value{f.N, p.deepClone(f.P)}
		}
		return n
	case *ByteArr:
		if n, ok := p.memo[v]; ok {
			return n
		}
		n := cloneBytes(v)
		p.memo[v] = n
		return n
	case *SliceV:
		return &SliceV{arr: p.deepClone(v.arr), off: v.off, ln: v.ln, cp: v.cp, lnT: v.lnT, offT: v.offT}
	case *MapV:
		if n, ok := p.memo[v]; ok {
			return n
		}
		n := newMap(v.keyT)
		p.memo[v] = n
		for i, k := range v.keys {
			if v.live[i] {
				p.mapSet(n, Value{k.N, p.deepClone(k.P)}, Value{v.vals[i].N, p.deepClone(v.vals[i].P)})
			}
		}
		return n
	case *Closure:
		if len(v.bind) == 0 {
			return v
		}
		if n, ok := p.memo[v]; ok {
			return n
		}
		n := &Closure{fn: v.fn, nat: v.nat, name: v.name}
		p.memo[v] = n
		for _, b := range v.bind {
			n.bind = append(n.bind, Value{b.N, p.deepClone(b.P)})
		}
		return n
	case *Iface:
		if n, ok := p.memo[v]; ok {
			return n
		}
		n := &Iface{t: v.t}
		p.memo[v] = n
		n.v = Value{v.v.N, p.deepClone(v.v.P)}
		return n
	case *ChanV:
		if n, ok := p.memo[v]; ok {
			return n
		}
		n := &ChanV{cap: v.cap, closed: v.closed}
		p.memo[v] = n
		return n
	}
	panic(p.unsupported(fmt.Sprintf("deepClone %T", x)))
}

// ---- calls ----

const regChunk = 1 << 16

func (g *Gor) allocRegs(n int) []Value {
	if g.top+n > len(g.arena) {
		g.chunks = append(g.chunks, savedArena{g.arena, g.top})
		sz := regChunk
		if n > sz {
			sz = n
		}
		g.arena = make([]Value, sz)
		g.top = 0
	}
	r := g.arena[g.top : g.top+n : g.top+n]
	g.top += n
	return r
}

type savedArena struct {
	a   []Value
	top int
}

func (fn *Fn) ensure() {
	fn.once.Do(func() { fn.compile() })
}

// Call invokes fn with args on goroutine g.
func (g *Gor) Call(caller *Frame, fn *Fn, args []Value, bind []Value, pframe *Frame) Value {
	p := g.p
	if fn.intr != nil {
		fr := Frame{p: p, g: g, fn: fn, caller: caller, pframe: pframe}
		return fn.intr(&fr, args)
	}
	fn.ensure()
	if fn.err != "" {
		panic(p.unsupported(fn.err))
	}
	p.depth++
	if p.depth > 4000 {
		panic(pathAbort{"budget", "call depth"})
	}
	saveTop, nch := g.top, len(g.chunks)
	regs := g.allocRegs(fn.nregs)
	copy(regs, args)
	if len(bind) > 0 {
		copy(regs[fn.nparams:], bind)
	}
	copy(regs[fn.cbase:], fn.consts)
	fr := &Frame{p: p, g: g, fn: fn, regs: regs, caller: caller, pframe: pframe, prev: -1}
	g.fr = fr
	if fn.hasDefer {
		fr.runDefer()
	} else {
		fr.run(0)
	}
	g.fr = caller
	p.depth--
	if len(g.chunks) > nch {
		g.arena = g.chunks[nch].a
		g.chunks = g.chunks[:nch]
	}
	g.top = saveTop
	return fr.result
}

// runDefer executes the body with panic/recover/defer semantics.
func (fr *Frame) runDefer() {
	depth := fr.p.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				fr.p.depth = depth
				fr.pan = gp
			}
		}()
		fr.run(0)
	}()
	for fr.pan != nil {
		// panicking: run remaining defers
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					fr.p.depth = depth
					fr.pan = gp
				}
			}()
			fr.runDefers()
		}()
		if len(fr.defers) == 0 {
			break
		}
		if fr.pan == nil {
			break
		}
	}
	if fr.pan != nil {
		if !fr.pan.recovered {
			panic(fr.pan)
		}
	}
	if fr.pan != nil || fr.needRecov() {
		// recovered: run remaining defers normally, then the recover block
		fr.pan = nil
		for len(fr.defers) > 0 {
			fr.runDefers()
		}
		if fr.fn.recov >= 0 {
			fr.run(fr.fn.recov)
		} else {
			fr.result = fr.zeroResult()
		}
	}
}

func (fr *Frame) needRecov() bool { return false }

func (fr *Frame) zeroResult() Value {
	rt := fr.fn.resT
	switch rt.Len() {
	case 0:
		return Value{}
	case 1:
		return zeroValue(rt.At(0).Type())
	}
	return zeroValue(rt)
}

// runDefers pops and runs deferred calls; it stops early when a panic got recovered so that
// the caller can switch to normal completion.
func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if d.builtin != nil {
			d.builtin(fr)
		} else {
			fr.g.callClosure(fr, d.fn, d.args, fr)
		}
		fr.g.fr = fr
		if fr.pan != nil && fr.pan.recovered {
			return
		}
	}
}

func (g *Gor) callClosure(caller *Frame, c *Closure, args []Value, pframe *Frame) Value {
	if c.nat != nil {
		fr := Frame{p: g.p, g: g, caller: caller, pframe: pframe}
		return c.nat(&fr, args)
	}
	return g.Call(caller, c.fn, args, c.bind, pframe)
}

func (fr *Frame) callValue(f Value, args ...Value) Value {
	if f.P == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	return fr.g.callClosure(fr, f.P.(*Closure), args, nil)
}

func (fr *Frame) run(b int) {
	p := fr.p
	blocks := fr.fn.blocks
	regs := fr.regs
	for {
		bk := blocks[b]
		if len(bk.phis) > 0 {
			e := -1
			for i, pr := range bk.pred {
				if pr == fr.prev {
					e = i
					break
				}
			}
			if len(bk.phis) == 1 {
				ph := &bk.phis[0]
				regs[ph.dst] = fr.get(ph.srcs[e])
			} else {
				var tmp [16]Value
				vals := tmp[:0]
				for i := range bk.phis {
					vals = append(vals, fr.get(bk.phis[i].srcs[e]))
				}
				for i := range bk.phis {
					regs[bk.phis[i].dst] = vals[i]
				}
			}
		}
		p.steps += int64(len(bk.ins)) + 1
		if p.steps > p.softBudget {
			p.overBudget(fr)
		}
		for _, in := range bk.ins {
			in(fr)
		}
		n := bk.term(fr)
		if n < 0 {
			return
		}
		fr.prev = b
		b = n
	}
}

// get reads an operand slot: >=0 register, <0 global address.
func (fr *Frame) get(s int) Value {
	if s >= 0 {
		return fr.regs[s]
	}
	return Value{P: fr.p.globalBox(fr.fn.globs[-s-1])}
}

func (fr *Frame) where() string {
	s := ""
	n := 0
	for f := fr; f != nil && n < 6; f = f.caller {
		if f.fn != nil {
			if s != "" {
				s += " < "
			}
			s += f.fn.name
			n++
		}
	}
	return s
}

// rtPanic raises a Go runtime error.
func (fr *Frame) rtPanic(msg string) {
	panic(&goPanic{v: fr.p.eng.runtimeError(msg), where: fr.where()})
}

func (e *Engine) runtimeError(msg string) Value {
	t := e.namedType("runtime", "errorString")
	if t == nil {
		t = e.namedType("errors", "errorString")
		return Value{P: &Iface{t: e.TypeInfo(types.NewPointer(t)), v: newBox(Value{P: &StructV{F: []Value{vStr("runtime error: " + msg)}}})}}
	}
	return Value{P: &Iface{t: e.TypeInfo(t), v: vStr(msg)}}
}

// mkError builds an *errors.errorString.
func (e *Engine) mkError(msg string) Value {
	t := e.namedType("errors", "errorString")
	return Value{P: &Iface{t: e.TypeInfo(types.NewPointer(t)), v: newBox(Value{P: &StructV{F: []Value{vStr(msg)}}})}}
}

func mkIface(t *TypeInfo, v Value) Value { return Value{P: &Iface{t: t, v: v}} }
