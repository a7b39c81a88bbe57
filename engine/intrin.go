package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]Intrinsic{}

func reg(name string, f Intrinsic) { intrinsics[name] = f }

func registerIntrinsics(e *Engine) {
	for k, v := range intrinsics {
		e.intr[k] = v
	}
}

func nop(fr *Frame, a []Value) Value { return Value{} }

func retZero(fr *Frame, a []Value) Value { return fr.zeroResult() }

var nilV = Value{}

// deref loads through pointer v (container, index).
func deref(v Value) *Value {
	return &v.P.(*StructV).F[v.N]
}

// fieldPtr returns the struct pointed to by v.
func structOf(v Value) *StructV {
	return v.P.(*StructV).F[v.N].P.(*StructV)
}

func fieldIdx(t types.Type, name string) int {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (fr *Frame) str(v Value, what string) string {
	if s, ok := concStr(v); ok {
		return s
	}
	s := v.P.(*SymStr)
	b := make([]byte, len(s.b))
	for i := range b {
		if s.t[i] != nil {
			b[i] = byte(fr.p.concretize(s.t[i]))
		} else {
			b[i] = s.b[i]
		}
	}
	return string(b)
}

func (fr *Frame) errV(msg string) Value { return fr.p.eng.mkError(msg) }

// elemStr returns the elements of a []string / []any slice value.
func (p *Path) elems(v Value) []Value {
	if v.P == nil {
		return nil
	}
	s := v.P.(*SliceV)
	if s.lnT != nil {
		n := int(p.concretize(s.lnT))
		return s.arr.(*StructV).F[s.off : s.off+n]
	}
	return sliceElems(v)
}

func (p *Path) byteTerm(v Value) *Term { return p.term(v, 8) }

// findByte returns the first index at which s holds c, forking on symbolic bytes.
func (p *Path) findByte(s *SymStr, c Value) int {
	for i := range s.b {
		if s.t[i] == nil && c.P == nil {
			if s.b[i] == byte(c.N) {
				return i
			}
			continue
		}
		if p.branch(p.tc.Eq(p.symCell(s, i), p.byteTerm(c))) {
			return i
		}
	}
	return -1
}

func (p *Path) matchAt(s, sub *SymStr, i int) bool {
	r := p.tc.tru
	for j := range sub.b {
		if s.t[i+j] == nil && sub.t[j] == nil {
			if s.b[i+j] != sub.b[j] {
				return false
			}
			continue
		}
		r = p.tc.BAnd(r, p.tc.Eq(p.symCell(s, i+j), p.symCell(sub, j)))
	}
	return p.branch(r)
}

func (p *Path) findStr(s, sub *SymStr) int {
	for i := 0; i+len(sub.b) <= len(s.b); i++ {
		if p.matchAt(s, sub, i) {
			return i
		}
	}
	return -1
}

// newStruct allocates a zero value of the named type and returns a pointer to it.
func (e *Engine) alloc(t types.Type) (Value, *StructV) {
	z := zeroValue(t)
	b := newBox(z)
	s, _ := z.P.(*StructV)
	return b, s
}

func (e *Engine) ifaceOf(t types.Type, v Value) Value { return mkIface(e.TypeInfo(t), v) }

func atomicLoad(fr *Frame, a []Value) Value {
	fr.raceAtomic(a[0])
	if b, ok := a[0].P.(*ByteArr); ok {
		return fr.p.getByte(b, int(a[0].N))
	}
	fr.nilChk(a[0])
	return *deref(a[0])
}

func (fr *Frame) nilChk(v Value) {
	if v.P == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
}

func atomicStore(fr *Frame, a []Value) Value {
	fr.nilChk(a[0])
	fr.raceAtomic(a[0])
	*deref(a[0]) = a[1]
	return Value{}
}

func atomicSwap(fr *Frame, a []Value) Value {
	fr.nilChk(a[0])
	fr.raceAtomic(a[0])
	o := *deref(a[0])
	*deref(a[0]) = a[1]
	return o
}

func atomicAdd(w uint8) Intrinsic {
	return func(fr *Frame, a []Value) Value {
		fr.nilChk(a[0])
		fr.raceAtomic(a[0])
		d := deref(a[0])
		p := fr.p
		if d.P == nil && a[1].P == nil {
			d.N = (d.N + a[1].N) & wmask(w)
		} else {
			*d = vTerm(p.tc.Add(p.term(*d, w), p.term(a[1], w)))
		}
		return *d
	}
}

func atomicCAS(w uint8) Intrinsic {
	return func(fr *Frame, a []Value) Value {
		fr.nilChk(a[0])
		fr.raceAtomic(a[0])
		d := deref(a[0])
		var eq bool
		if w == 0 {
			eq = d.P == a[1].P && d.N == a[1].N
		} else if d.P == nil && a[1].P == nil {
			eq = d.N == a[1].N
		} else {
			eq = fr.p.branch(fr.p.tc.Eq(fr.p.term(*d, w), fr.p.term(a[1], w)))
		}
		if eq {
			*d = a[2]
		}
		return vBool(eq)
	}
}

func floatArg(fr *Frame, v Value) float64 {
	if v.P != nil {
		panic(fr.p.unsupported("math on symbolic float"))
	}
	return math.Float64frombits(v.N)
}

func math1(f func(float64) float64) Intrinsic {
	return func(fr *Frame, a []Value) Value { return vFloat(f(floatArg(fr, a[0]))) }
}

func init() {
	for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, t := range []struct {
			n string
			w uint8
		}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
			reg(pk+"Load"+t.n, atomicLoad)
			reg(pk+"Store"+t.n, atomicStore)
			reg(pk+"Swap"+t.n, atomicSwap)
			reg(pk+"Add"+t.n, atomicAdd(t.w))
			reg(pk+"CompareAndSwap"+t.n, atomicCAS(t.w))
		}
	}
	// atomic.Value: represented directly in its single interface field
	reg("(*sync/atomic.Value).Load", func(fr *Frame, a []Value) Value {
		fr.raceAtomic(a[0])
		return structOf(a[0]).F[0]
	})
	reg("(*sync/atomic.Value).Store", func(fr *Frame, a []Value) Value {
		fr.raceAtomic(a[0])
		structOf(a[0]).F[0] = a[1]
		return Value{}
	})

	reg("(*sync.Mutex).Lock", func(fr *Frame, a []Value) Value { fr.lock(a[0]); return Value{} })
	reg("(*sync.Mutex).Unlock", func(fr *Frame, a []Value) Value { fr.unlock(a[0]); return Value{} })
	reg("(*sync.Mutex).TryLock", func(fr *Frame, a []Value) Value {
		fr.p.schedPoint(fr.g)
		m := fr.p.mutex(a[0])
		if m.w || m.r > 0 {
			return vBool(false)
		}
		fr.lock(a[0])
		return vBool(true)
	})
	reg("(*sync.RWMutex).Lock", func(fr *Frame, a []Value) Value { fr.lock(a[0]); return Value{} })
	reg("(*sync.RWMutex).Unlock", func(fr *Frame, a []Value) Value { fr.unlock(a[0]); return Value{} })
	reg("(*sync.RWMutex).RLock", func(fr *Frame, a []Value) Value { fr.rlock(a[0]); return Value{} })
	reg("(*sync.RWMutex).RUnlock", func(fr *Frame, a []Value) Value { fr.runlock(a[0]); return Value{} })
	reg("(*sync.WaitGroup).Add", func(fr *Frame, a []Value) Value {
		p := fr.p
		w := p.wg(a[0])
		w.n += int(int64(p.conc1(a[1])))
		if w.n < 0 {
			panic(&goPanic{v: fr.errV("sync: negative WaitGroup counter"), where: fr.where()})
		}
		if p.race != nil {
			w.vc.join(fr.g.vc)
			fr.g.vc.inc(fr.g.id)
		}
		return Value{}
	})
	reg("(*sync.WaitGroup).Done", func(fr *Frame, a []Value) Value {
		p := fr.p
		w := p.wg(a[0])
		w.n--
		if w.n < 0 {
			panic(&goPanic{v: fr.errV("sync: negative WaitGroup counter"), where: fr.where()})
		}
		if p.race != nil {
			w.vc.join(fr.g.vc)
			fr.g.vc.inc(fr.g.id)
		}
		return Value{}
	})
	reg("(*sync.WaitGroup).Wait", func(fr *Frame, a []Value) Value {
		p := fr.p
		w := p.wg(a[0])
		p.block(fr.g, "WaitGroup", func() bool { return w.n == 0 })
		if p.race != nil {
			fr.g.vc.join(w.vc)
		}
		return Value{}
	})
	reg("(*sync.Pool).Get", func(fr *Frame, a []Value) Value {
		s := structOf(a[0])
		n := s.F[len(s.F)-1]
		if n.P == nil {
			return Value{}
		}
		return fr.callValue(n)
	})
	reg("(*sync.Pool).Put", nop)
	condKey := func(v Value) lockKey { return lockKey{v.P, v.N + 1<<40} }
	type condSt struct{ q []*bool }
	condOf := func(p *Path, v Value) *condSt {
		k := condKey(v)
		c, _ := p.misc[k].(*condSt)
		if c == nil {
			c = &condSt{}
			p.misc[k] = c
		}
		return c
	}
	reg("(*sync.Cond).Wait", func(fr *Frame, a []Value) Value {
		p := fr.p
		s := structOf(a[0])
		l := s.F[1].P.(*Iface) // noCopy, L, ...
		ul := p.eng.methodByName(l.t, "Unlock")
		lk := p.eng.methodByName(l.t, "Lock")
		c := condOf(p, a[0])
		f := new(bool)
		c.q = append(c.q, f)
		fr.g.Call(fr, ul, []Value{l.v}, nil, nil)
		p.block(fr.g, "Cond", func() bool { return *f })
		fr.g.Call(fr, lk, []Value{l.v}, nil, nil)
		return Value{}
	})
	reg("(*sync.Cond).Signal", func(fr *Frame, a []Value) Value {
		c := condOf(fr.p, a[0])
		if len(c.q) > 0 {
			*c.q[0] = true
			c.q = c.q[1:]
		}
		return Value{}
	})
	reg("(*sync.Cond).Broadcast", func(fr *Frame, a []Value) Value {
		c := condOf(fr.p, a[0])
		for _, f := range c.q {
			*f = true
		}
		c.q = nil
		return Value{}
	})
	for _, n := range []string{"sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "sync.throw", "sync.fatal",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "internal/race.ReleaseMerge",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault",
		"(*internal/godebug.Setting).IncNonDefault", "os.runtime_beforeExit", "syscall.runtime_envs"} {
		reg(n, retZero)
	}
	reg("(*internal/godebug.Setting).Value", func(fr *Frame, a []Value) Value { return vStr("") })
	reg("runtime.Gosched", func(fr *Frame, a []Value) Value { fr.p.schedPoint(fr.g); return Value{} })
	reg("runtime.NumCPU", func(fr *Frame, a []Value) Value { return vInt(2) })
	reg("runtime.GOMAXPROCS", func(fr *Frame, a []Value) Value { return vInt(2) })
	reg("internal/abi.NoEscape", func(fr *Frame, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(fr *Frame, a []Value) Value { return a[0] })
	reg("os.Exit", func(fr *Frame, a []Value) Value {
		panic(&goPanic{v: fr.errV(fmt.Sprintf("os.Exit(%d)", int64(fr.p.conc1(a[0])))), where: fr.where()})
	})

	// ---- bytealg ----
	idxByte := func(fr *Frame, s *SymStr, c Value) Value { return vInt(int64(fr.p.findByte(s, c))) }
	reg("internal/bytealg.IndexByteString", func(fr *Frame, a []Value) Value { return idxByte(fr, toSym(a[0]), a[1]) })
	reg("internal/bytealg.IndexByte", func(fr *Frame, a []Value) Value {
		if fr.p.hugeFill(a[0]) {
			panic(fr.p.unsupported("IndexByte over symbolic-length data"))
		}
		return idxByte(fr, fr.p.bytesOf(a[0]), a[1])
	})
	lastByte := func(fr *Frame, s *SymStr, c Value) Value {
		for i := len(s.b) - 1; i >= 0; i-- {
			if fr.p.branch(fr.p.tc.Eq(fr.p.symCell(s, i), fr.p.byteTerm(c))) {
				return vInt(int64(i))
			}
		}
		return vInt(-1)
	}
	reg("internal/bytealg.LastIndexByteString", func(fr *Frame, a []Value) Value { return lastByte(fr, toSym(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByte", func(fr *Frame, a []Value) Value { return lastByte(fr, fr.p.bytesOf(a[0]), a[1]) })
	cnt := func(fr *Frame, s *SymStr, c Value) Value {
		n := 0
		for i := range s.b {
			if fr.p.branch(fr.p.tc.Eq(fr.p.symCell(s, i), fr.p.byteTerm(c))) {
				n++
			}
		}
		return vInt(int64(n))
	}
	reg("internal/bytealg.CountString", func(fr *Frame, a []Value) Value { return cnt(fr, toSym(a[0]), a[1]) })
	reg("internal/bytealg.Count", func(fr *Frame, a []Value) Value { return cnt(fr, fr.p.bytesOf(a[0]), a[1]) })
	reg("internal/bytealg.Equal", func(fr *Frame, a []Value) Value {
		return vTerm(fr.p.bytesEq(a[0], a[1]))
	})
	reg("bytes.Equal", func(fr *Frame, a []Value) Value { return vTerm(fr.p.bytesEq(a[0], a[1])) })
	cmp3 := func(fr *Frame, x, y Value) Value {
		p := fr.p
		if p.branch(p.strEq(x, y)) {
			return vInt(0)
		}
		if p.branch(p.strLess(x, y)) {
			return vInt(-1)
		}
		return vInt(1)
	}
	reg("internal/bytealg.Compare", func(fr *Frame, a []Value) Value {
		return cmp3(fr, symToStr(fr.p.bytesOf(a[0])), symToStr(fr.p.bytesOf(a[1])))
	})
	reg("bytes.Compare", func(fr *Frame, a []Value) Value {
		return cmp3(fr, symToStr(fr.p.bytesOf(a[0])), symToStr(fr.p.bytesOf(a[1])))
	})
	reg("internal/bytealg.CompareString", func(fr *Frame, a []Value) Value { return cmp3(fr, a[0], a[1]) })
	reg("strings.Compare", func(fr *Frame, a []Value) Value { return cmp3(fr, a[0], a[1]) })
	reg("internal/bytealg.MakeNoZero", func(fr *Frame, a []Value) Value {
		n := int(fr.p.conc1(a[0]))
		return bytesToSlice(make([]byte, n))
	})
	idxStr := func(fr *Frame, a []Value) Value { return vInt(int64(fr.p.findStr(toSym(a[0]), toSym(a[1])))) }
	reg("internal/bytealg.IndexString", idxStr)
	reg("strings.Index", idxStr)
	reg("internal/bytealg.Index", func(fr *Frame, a []Value) Value {
		return vInt(int64(fr.p.findStr(fr.p.bytesOf(a[0]), fr.p.bytesOf(a[1]))))
	})
	reg("bytes.Index", func(fr *Frame, a []Value) Value {
		return vInt(int64(fr.p.findStr(fr.p.bytesOf(a[0]), fr.p.bytesOf(a[1]))))
	})

	// ---- strings.Builder: avoid the unsafe string conversion ----
	reg("(*strings.Builder).String", func(fr *Frame, a []Value) Value {
		s := structOf(a[0])
		return symToStr(fr.p.bytesOf(s.F[1]))
	})
	reg("strings.Clone", func(fr *Frame, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(fr *Frame, a []Value) Value { return a[0] })
	reg("bytes.Clone", func(fr *Frame, a []Value) Value {
		if a[0].P == nil {
			return Value{}
		}
		return symToSlice(fr.p.bytesOf(a[0]))
	})

	// ---- math ----
	reg("math.Ceil", func(fr *Frame, a []Value) Value { return fr.p.floatRound(a[0], true) })
	reg("math.ceil", func(fr *Frame, a []Value) Value { return fr.p.floatRound(a[0], true) })
	reg("math.Floor", func(fr *Frame, a []Value) Value { return fr.p.floatRound(a[0], false) })
	reg("math.floor", func(fr *Frame, a []Value) Value { return fr.p.floatRound(a[0], false) })
	reg("math.Trunc", math1(math.Trunc))
	reg("math.Sqrt", math1(math.Sqrt))
	reg("math.Abs", math1(math.Abs))
	reg("math.Log", math1(math.Log))
	reg("math.Log2", math1(math.Log2))
	reg("math.Log10", math1(math.Log10))
	reg("math.Exp", math1(math.Exp))
	reg("math.Round", math1(math.Round))
	reg("math.Pow", func(fr *Frame, a []Value) Value { return vFloat(math.Pow(floatArg(fr, a[0]), floatArg(fr, a[1]))) })
	reg("math.Mod", func(fr *Frame, a []Value) Value { return vFloat(math.Mod(floatArg(fr, a[0]), floatArg(fr, a[1]))) })
	reg("math.Float64bits", func(fr *Frame, a []Value) Value { return Value{N: math.Float64bits(floatArg(fr, a[0]))} })
	reg("math.Float64frombits", func(fr *Frame, a []Value) Value { return a[0] })
	reg("math.Float32bits", func(fr *Frame, a []Value) Value {
		return Value{N: uint64(math.Float32bits(float32(floatArg(fr, a[0]))))}
	})
	reg("math.Float32frombits", func(fr *Frame, a []Value) Value {
		return vFloat(float64(math.Float32frombits(uint32(a[0].N))))
	})
	b1 := func(f func(x uint64) int) Intrinsic {
		return func(fr *Frame, a []Value) Value {
			if a[0].P != nil {
				a = []Value{{N: fr.p.concretize(a[0].P.(*Term))}}
			}
			return vInt(int64(f(a[0].N)))
		}
	}
	reg("math/bits.Len64", b1(bits.Len64))
	reg("math/bits.Len", b1(bits.Len64))
	reg("math/bits.Len32", b1(func(x uint64) int { return bits.Len32(uint32(x)) }))
	reg("math/bits.TrailingZeros64", b1(bits.TrailingZeros64))
	reg("math/bits.TrailingZeros32", b1(func(x uint64) int { return bits.TrailingZeros32(uint32(x)) }))
	reg("math/bits.OnesCount64", b1(bits.OnesCount64))

	// ---- errors ----
	reg("errors.Is", func(fr *Frame, a []Value) Value {
		if a[0].P == nil || a[1].P == nil {
			return vBool(a[0].P == a[1].P)
		}
		return vBool(fr.errIs(a[0], a[1]))
	})
	reg("errors.As", func(fr *Frame, a []Value) Value { return vBool(fr.errAs(a[0], a[1])) })
	reg("internal/reflectlite.TypeOf", func(fr *Frame, a []Value) Value { panic(fr.p.unsupported("reflectlite.TypeOf")) })
	reg("reflect.TypeOf", func(fr *Frame, a []Value) Value { panic(fr.p.unsupported("reflect.TypeOf")) })
	reg("reflect.ValueOf", func(fr *Frame, a []Value) Value { panic(fr.p.unsupported("reflect.ValueOf")) })
	reg("reflect.DeepEqual", func(fr *Frame, a []Value) Value { return vTerm(fr.deepEqual(a[0], a[1], 0)) })
	reg("unicode/utf8.ValidString", func(fr *Frame, a []Value) Value { return fr.utf8Valid(toSym(a[0])) })
	reg("unicode/utf8.Valid", func(fr *Frame, a []Value) Value { return fr.utf8Valid(fr.p.bytesOf(a[0])) })

	// ---- sort with reflection ----
	sortSlice := func(fr *Frame, a []Value) Value {
		sv := a[0].P.(*Iface).v
		if sv.P == nil {
			return Value{}
		}
		s := sv.P.(*SliceV)
		arr, ok := s.arr.(*StructV)
		if !ok {
			panic(fr.p.unsupported("sort.Slice on bytes"))
		}
		el := arr.F[s.off : s.off+s.ln]
		for i := 1; i < len(el); i++ {
			for j := i; j > 0; j-- {
				r := fr.callValue(a[1], vInt(int64(j)), vInt(int64(j-1)))
				b := r.N != 0
				if r.P != nil {
					b = fr.p.branch(r.P.(*Term))
				}
				if !b {
					break
				}
				el[j], el[j-1] = el[j-1], el[j]
			}
		}
		return Value{}
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	reg("sort.Strings", func(fr *Frame, a []Value) Value {
		el := fr.p.elems(a[0])
		for i := 1; i < len(el); i++ {
			for j := i; j > 0; j-- {
				if !fr.p.branch(fr.p.strLess(el[j], el[j-1])) {
					break
				}
				el[j], el[j-1] = el[j-1], el[j]
			}
		}
		return Value{}
	})

	// ---- time ----
	reg("time.Now", func(fr *Frame, a []Value) Value {
		p := fr.p
		p.clock++
		return p.mkTime(p.clock, 123456000)
	})
	reg("time.runtimeNano", func(fr *Frame, a []Value) Value { fr.p.clock++; return vInt(fr.p.clock * 1e9) })
	reg("time.runtimeNow", func(fr *Frame, a []Value) Value { fr.p.clock++; return vInt(fr.p.clock * 1e9) })
	reg("time.initLocal", nop)
	reg("time.Sleep", func(fr *Frame, a []Value) Value {
		fr.p.yieldAll(fr.g)
		return Value{}
	})
	// Timers only run out once nothing else can run: see fireTimer
	reg("time.newTimer", func(fr *Frame, a []Value) Value {
		p := fr.p
		t := p.eng.namedType("time", "Timer")
		ptr, st := p.eng.alloc(t)
		st.F[fieldIdx(t, "initTimer")] = vBool(true)
		p.timers = append(p.timers, &timerV{key: ptr.P, when: int64(p.conc1(a[0])), period: int64(p.conc1(a[1])), f: a[2].P.(*Closure), arg: a[3], active: true})
		return ptr
	})
	reg("time.stopTimer", func(fr *Frame, a []Value) Value {
		t := fr.p.timerOf(a[0])
		was := t.active
		t.active = false
		return vBool(was)
	})
	reg("time.resetTimer", func(fr *Frame, a []Value) Value {
		t := fr.p.timerOf(a[0])
		was := t.active
		t.when, t.period, t.active = int64(fr.p.conc1(a[1])), int64(fr.p.conc1(a[2])), true
		return vBool(was)
	})
	reg("time.syncTimer", func(fr *Frame, a []Value) Value { return Value{} })

	// ---- os identity ----
	reg("os.Getpid", func(fr *Frame, a []Value) Value { return vInt(4242) })
	reg("os.Getuid", func(fr *Frame, a []Value) Value { return vInt(0) })
	reg("os.Getgid", func(fr *Frame, a []Value) Value { return vInt(0) })
	reg("os.Geteuid", func(fr *Frame, a []Value) Value { return vInt(0) })
	reg("os.Getenv", func(fr *Frame, a []Value) Value { return vStr("") })
	reg("os.LookupEnv", func(fr *Frame, a []Value) Value { return vTuple(vStr(""), vBool(false)) })
	reg("syscall.Getenv", func(fr *Frame, a []Value) Value { return vTuple(vStr(""), vBool(false)) })
	reg("syscall.Getpagesize", func(fr *Frame, a []Value) Value { return vInt(4096) })
	reg("syscall.runtime_entersyscall", nop)
	reg("syscall.runtime_exitsyscall", nop)
	reg("os/user.Current", func(fr *Frame, a []Value) Value {
		e := fr.p.eng
		t := e.namedType("os/user", "User")
		ptr, s := e.alloc(t)
		for k, v := range map[string]string{"Uid": "0", "Gid": "0", "Username": "root", "Name": "root", "HomeDir": "/root"} {
			s.F[fieldIdx(t, k)] = vStr(v)
		}
		return vTuple(ptr, Value{})
	})
	reg("unsafe.init", nop)
	reg("(*os/user.User).GroupIds", func(fr *Frame, a []Value) Value {
		return vTuple(mkSlice([]Value{vStr("0")}), Value{})
	})
	reg("os/user.LookupId", func(fr *Frame, a []Value) Value {
		panic(fr.p.unsupported("os/user.LookupId"))
	})
	reg("os/user.LookupGroupId", func(fr *Frame, a []Value) Value {
		panic(fr.p.unsupported("os/user.LookupGroupId"))
	})
	reg("(*log.Logger).Output", retZero)
	reg("(*log.Logger).output", retZero)
}

func (p *Path) wg(v Value) *wgState {
	k := lockKey{v.P, v.N}
	w := p.wgs[k]
	if w == nil {
		w = &wgState{}
		p.wgs[k] = w
	}
	return w
}

// mkTime builds a time.Time in UTC-equal Local.
func (p *Path) mkTime(sec, nsec int64) Value {
	t := p.eng.namedType("time", "Time")
	z := zeroValue(t).P.(*StructV)
	z.F[0] = Value{N: uint64(nsec)}
	z.F[1] = vInt(sec + 62135596800)
	z.F[2] = p.localLoc()
	return Value{P: z}
}

func (p *Path) localLoc() Value {
	sp := p.eng.ld.SSA["time"]
	if g, ok := sp.Members["localLoc"].(*ssa.Global); ok {
		return Value{P: p.globalBox(p.eng.Glob(g))}
	}
	return Value{}
}

func (p *Path) hugeFill(v Value) bool {
	if v.P == nil {
		return false
	}
	s := v.P.(*SliceV)
	return s.lnT != nil
}

// bytesEq compares two byte slices, symbolically when needed.
func (p *Path) bytesEq(a, b Value) *Term {
	la, lta := sliceLen(a)
	lb, ltb := sliceLen(b)
	if lta == nil && ltb == nil {
		if la != lb {
			return p.tc.fls
		}
		if la == 0 {
			return p.tc.tru
		}
		return p.strEq(symToStr(p.bytesOf(a)), symToStr(p.bytesOf(b)))
	}
	x, y := p.sliceLenV(a), p.sliceLenV(b)
	if !p.branch(p.tc.Eq(p.term(x, 64), p.term(y, 64))) {
		return p.tc.fls
	}
	if a.P == nil || b.P == nil {
		return p.tc.tru
	}
	// equal symbolic length: compare by runs
	eq, ok := p.fillEq(a, b)
	if ok {
		return eq
	}
	return p.strEq(symToStr(p.bytesOf(a)), symToStr(p.bytesOf(b)))
}

// fillEq compares two equally long slices that are both single fills.
func (p *Path) fillEq(a, b Value) (*Term, bool) {
	va, ta, oka := p.fillOf(a.P.(*SliceV))
	vb, tb, okb := p.fillOf(b.P.(*SliceV))
	if !oka || !okb {
		return nil, false
	}
	x, y := p.tc.Const(uint64(va), 8), p.tc.Const(uint64(vb), 8)
	if ta != nil {
		x = ta
	}
	if tb != nil {
		y = tb
	}
	ln := p.term(p.sliceLenV(a), 64)
	return p.tc.BOr(p.tc.Eq(x, y), p.tc.Eq(ln, p.tc.Const(0, 64))), true
}

func (fr *Frame) utf8Valid(s *SymStr) Value {
	p := fr.p
	for i := 0; i < len(s.b); {
		if s.t[i] == nil && s.b[i] < 0x80 {
			i++
			continue
		}
		if p.branch(p.tc.Ult(p.symCell(s, i), p.tc.Const(0x80, 8))) {
			i++
			continue
		}
		r, n := fr.decodeRune(symToStr(s), i)
		if n == 1 {
			_ = r
			return vBool(false)
		}
		i += n
	}
	return vBool(true)
}

// ---- errors ----

func (fr *Frame) errIs(err, target Value) bool {
	p := fr.p
	for n := 0; n < 100; n++ {
		x := err.P.(*Iface)
		y := target.P.(*Iface)
		if x.t == y.t && types.Comparable(x.t.T) {
			if p.branch(fr.valueEq(x.t.T, x.v, y.v)) {
				return true
			}
		}
		if m := p.eng.methodByName(x.t, "Is"); m != nil && m.f.Signature.Params().Len() == 1 {
			r := fr.g.Call(fr, m, []Value{x.v, target}, nil, nil)
			if p.truth(r) {
				return true
			}
		}
		m := p.eng.methodByName(x.t, "Unwrap")
		if m == nil {
			return false
		}
		r := fr.g.Call(fr, m, []Value{x.v}, nil, nil)
		if _, isSl := m.f.Signature.Results().At(0).Type().Underlying().(*types.Slice); isSl {
			for _, e := range p.elems(r) {
				if e.P != nil && fr.errIs(e, target) {
					return true
				}
			}
			return false
		}
		if r.P == nil {
			return false
		}
		err = r
	}
	return false
}

func (p *Path) truth(v Value) bool {
	if v.P != nil {
		return p.branch(v.P.(*Term))
	}
	return v.N != 0
}

func (fr *Frame) errAs(err, target Value) bool {
	p := fr.p
	t := target.P.(*Iface)
	pt := t.t.T.Underlying().(*types.Pointer).Elem()
	it, isI := pt.Underlying().(*types.Interface)
	ti := p.eng.TypeInfo(pt)
	for n := 0; n < 100 && err.P != nil; n++ {
		x := err.P.(*Iface)
		if isI && types.Implements(x.t.T, it) {
			*deref(t.v) = err
			return true
		}
		if !isI && x.t == ti {
			p.eng.aggOf(pt).storeInto(deref(t.v), x.v)
			return true
		}
		m := p.eng.methodByName(x.t, "Unwrap")
		if m == nil {
			return false
		}
		r := fr.g.Call(fr, m, []Value{x.v}, nil, nil)
		if _, isSl := m.f.Signature.Results().At(0).Type().Underlying().(*types.Slice); isSl {
			for _, e := range p.elems(r) {
				if e.P != nil && fr.errAs(e, target) {
					return true
				}
			}
			return false
		}
		err = r
	}
	return false
}

func (fr *Frame) deepEqual(a, b Value, d int) *Term {
	if a.P == nil || b.P == nil {
		return fr.p.tc.Bool(a.P == nil && b.P == nil)
	}
	x, y := a.P.(*Iface), b.P.(*Iface)
	if x.t != y.t {
		return fr.p.tc.fls
	}
	return fr.deepEqT(x.t.T, x.v, y.v, d)
}

func (fr *Frame) deepEqT(t types.Type, a, b Value, d int) *Term {
	p := fr.p
	if d > 50 {
		panic(p.unsupported("deepEqual depth"))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if (a.P == nil) != (b.P == nil) {
			return p.tc.fls
		}
		if a.P == nil {
			return p.tc.tru
		}
		if isByteType(u.Elem()) {
			return p.bytesEq(a, b)
		}
		x, y := p.elems(a), p.elems(b)
		if len(x) != len(y) {
			return p.tc.fls
		}
		r := p.tc.tru
		for i := range x {
			r = p.tc.BAnd(r, fr.deepEqT(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Struct:
		x, y := a.P.(*StructV), b.P.(*StructV)
		r := p.tc.tru
		for i := range x.F {
			r = p.tc.BAnd(r, fr.deepEqT(u.Field(i).Type(), x.F[i], y.F[i], d+1))
		}
		return r
	case *types.Pointer:
		if a.P == nil || b.P == nil || (a.P == b.P && a.N == b.N) {
			return p.tc.Bool(a.P == b.P)
		}
		return fr.deepEqT(u.Elem(), *deref(a), *deref(b), d+1)
	case *types.Interface:
		return fr.deepEqual(a, b, d+1)
	case *types.Map:
		if a.P == nil || b.P == nil {
			return p.tc.Bool(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*MapV), b.P.(*MapV)
		if x.n != y.n {
			return p.tc.fls
		}
		r := p.tc.tru
		for i := range x.keys {
			if x.live[i] {
				v, ok := p.mapGet(y, x.keys[i])
				if !ok {
					return p.tc.fls
				}
				r = p.tc.BAnd(r, fr.deepEqT(u.Elem(), x.vals[i], v, d+1))
			}
		}
		return r
	}
	return fr.valueEq(t, a, b)
}

// floatRound implements Ceil/Floor on possibly symbolic floats.
func (p *Path) floatRound(v Value, up bool) Value {
	if v.P == nil {
		f := math.Float64frombits(v.N)
		if up {
			return vFloat(math.Ceil(f))
		}
		return vFloat(math.Floor(f))
	}
	switch s := v.P.(type) {
	case *SymFloat:
		if s.sh == 0 {
			return v
		}
		n := s.num
		d := int64(1) << s.sh
		if up {
			n = p.tc.Add(n, p.tc.Const(uint64(d-1), 64))
		}
		return Value{P: &SymFloat{num: p.tc.Ashr(n, uint64(s.sh)), sh: 0}}
	case *SymRatio:
		return p.ratioRound(s, up)
	}
	panic(p.unsupported("float round"))
}

var _ = strings.HasPrefix
