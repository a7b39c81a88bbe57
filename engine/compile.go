package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type compiler struct {
	e     *Engine
	fn    *Fn
	slots map[ssa.Value]int
	cmap  map[ssa.Value]int
	gmap  map[*Glob]int
	cs    []Value
	n     int
}

func (e *Engine) buildFor(f *ssa.Function) {
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	if f.Pkg != nil {
		f.Pkg.Build()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	} else if p := f.Parent(); p != nil && p.Pkg != nil {
		p.Pkg.Build()
	}
}

func (fn *Fn) compile() {
	f := fn.f
	if f.Blocks == nil {
		fn.eng.buildFor(f)
	}
	if f.Blocks == nil {
		fn.err = "no body: " + fn.name
		return
	}
	c := &compiler{e: fn.eng, fn: fn, slots: map[ssa.Value]int{}, cmap: map[ssa.Value]int{}, gmap: map[*Glob]int{}}
	defer func() {
		if r := recover(); r != nil {
			if pa, ok := r.(pathAbort); ok {
				fn.err = pa.msg
				return
			}
			fn.err = fmt.Sprintf("compile %s: %v", fn.name, r)
			if debugFlag {
				panic(r)
			}
		}
	}()
	for _, p := range f.Params {
		c.slots[p] = c.n
		c.n++
	}
	fn.nparams = c.n
	for _, p := range f.FreeVars {
		c.slots[p] = c.n
		c.n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.slots[v] = c.n
				c.n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				fn.hasDefer = true
			}
		}
	}
	fn.cbase = c.n
	for _, b := range f.Blocks {
		bk := &blk{idx: b.Index}
		for _, p := range b.Preds {
			bk.pred = append(bk.pred, p.Index)
		}
		fn.blocks = append(fn.blocks, bk)
	}
	for i, b := range f.Blocks {
		bk := fn.blocks[i]
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				ph := phiNode{dst: c.slots[in]}
				for _, e := range in.Edges {
					ph.srcs = append(ph.srcs, c.op(e))
				}
				bk.phis = append(bk.phis, ph)
			case *ssa.DebugRef:
			case *ssa.Jump:
				n := b.Succs[0].Index
				bk.term = func(fr *Frame) int { return n }
			case *ssa.If:
				s := c.op(in.Cond)
				t, e := b.Succs[0].Index, b.Succs[1].Index
				bk.term = func(fr *Frame) int {
					v := fr.regs[s]
					if v.P == nil {
						if v.N != 0 {
							return t
						}
						return e
					}
					if fr.p.branch(v.P.(*Term)) {
						return t
					}
					return e
				}
			case *ssa.Return:
				var rs []int
				for _, r := range in.Results {
					rs = append(rs, c.op(r))
				}
				switch len(rs) {
				case 0:
					bk.term = func(fr *Frame) int { return -1 }
				case 1:
					r := rs[0]
					bk.term = func(fr *Frame) int { fr.result = fr.get(r); return -1 }
				default:
					bk.term = func(fr *Frame) int {
						t := &StructV{F: make([]Value, len(rs))}
						for i, r := range rs {
							t.F[i] = fr.get(r)
						}
						fr.result = Value{P: t}
						return -1
					}
				}
			case *ssa.Panic:
				s := c.op(in.X)
				bk.term = func(fr *Frame) int {
					panic(&goPanic{v: fr.get(s), where: fr.where()})
				}
			default:
				x := c.instr(in)
				if x != nil && f.Synthetic == "package initializer" {
					x = c.tolerant(in, x)
				}
				if x != nil {
					bk.ins = append(bk.ins, x)
				}
			}
		}
		if bk.term == nil {
			bk.term = func(fr *Frame) int { return -1 }
		}
	}
	if f.Recover != nil {
		fn.recov = f.Recover.Index
	}
	fn.consts = c.cs
	fn.nregs = c.n
	// constant slots follow the registers
	fn.nregs = fn.cbase + len(c.cs)
	if strings.HasPrefix(fn.pkg, "github.com/pojntfx/stfs") {
		fn.eng.used.Store(fn.name, true)
	}
}

func (c *compiler) constSlot(key ssa.Value, v Value) int {
	if s, ok := c.cmap[key]; ok {
		return s
	}
	s := c.fn.cbase + len(c.cs)
	c.cs = append(c.cs, v)
	c.cmap[key] = s
	return s
}

// op returns the operand slot of v.
func (c *compiler) op(v ssa.Value) int {
	if s, ok := c.slots[v]; ok {
		return s
	}
	switch x := v.(type) {
	case *ssa.Const:
		return c.constSlot(v, c.constVal(x))
	case *ssa.Function:
		return c.constSlot(v, Value{P: &Closure{fn: c.e.Fn(x)}})
	case *ssa.Global:
		g := c.e.Glob(x)
		if i, ok := c.gmap[g]; ok {
			return -i - 1
		}
		i := len(c.fn.globs)
		c.fn.globs = append(c.fn.globs, g)
		c.gmap[g] = i
		return -i - 1
	case *ssa.Builtin:
		return c.constSlot(v, Value{})
	}
	panic(fmt.Sprintf("operand %T", v))
}

func (c *compiler) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return zeroValue(t)
	}
	k, bitsN, _ := kindOf(t)
	switch k {
	case kBool:
		return vBool(constant.BoolVal(x.Value))
	case kInt:
		if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			return Value{N: uint64(i) & wmask(bitsN)}
		}
		u, _ := constant.Uint64Val(constant.ToInt(x.Value))
		return Value{N: u & wmask(bitsN)}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		return vFloat(f)
	case kString:
		return vStr(constant.StringVal(x.Value))
	case kIface:
		return Value{}
	}
	if _, ok := t.Underlying().(*types.TypeParam); ok {
		panic("type param const")
	}
	return zeroValue(t)
}

func (c *compiler) instr(in ssa.Instruction) func(fr *Frame) {
	switch in := in.(type) {
	case *ssa.Alloc:
		d := c.slots[in]
		t := in.Type().Underlying().(*types.Pointer).Elem()
		k, _, _ := kindOf(t)
		switch k {
		case kStruct, kArray, kBytes:
			if k == kBytes {
				n := int(t.Underlying().(*types.Array).Len())
				return func(fr *Frame) {
					fr.regs[d] = newBox(Value{P: &ByteArr{b: make([]byte, n)}})
				}
			}
			z := zeroValue(t)
			ag := c.e.aggOf(t)
			return func(fr *Frame) { fr.regs[d] = newBox(ag.clone(z)) }
		}
		z := zeroValue(t)
		return func(fr *Frame) { fr.regs[d] = newBox(z) }
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		d := c.slots[in]
		call := c.call(&in.Call, in)
		return func(fr *Frame) { fr.regs[d] = call(fr) }
	case *ssa.ChangeInterface:
		d, s := c.slots[in], c.op(in.X)
		return func(fr *Frame) { fr.regs[d] = fr.get(s) }
	case *ssa.ChangeType:
		d, s := c.slots[in], c.op(in.X)
		return func(fr *Frame) { fr.regs[d] = fr.get(s) }
	case *ssa.Convert:
		return c.convert(c.slots[in], c.op(in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return c.convert(c.slots[in], c.op(in.X), in.X.Type(), in.Type())
	case *ssa.Defer:
		return c.deferGo(&in.Call, in, false)
	case *ssa.Go:
		return c.deferGo(&in.Call, in, true)
	case *ssa.Extract:
		d, s, i := c.slots[in], c.op(in.Tuple), in.Index
		return func(fr *Frame) { fr.regs[d] = fr.regs[s].P.(*StructV).F[i] }
	case *ssa.Field:
		d, s, i := c.slots[in], c.op(in.X), in.Field
		return func(fr *Frame) { fr.regs[d] = fr.get(s).P.(*StructV).F[i] }
	case *ssa.FieldAddr:
		d, s, i := c.slots[in], c.op(in.X), uint64(in.Field)
		return func(fr *Frame) {
			b := fr.get(s)
			if b.P == nil {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
			fr.regs[d] = Value{P: b.P.(*StructV).F[b.N].P, N: i}
		}
	case *ssa.Index:
		return c.index(in)
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Lookup:
		return c.lookup(in)
	case *ssa.MakeChan:
		d, s := c.slots[in], c.op(in.Size)
		return func(fr *Frame) {
			fr.regs[d] = Value{P: &ChanV{cap: int(fr.p.conc1(fr.get(s)))}}
		}
	case *ssa.MakeClosure:
		d := c.slots[in]
		fn := c.e.Fn(in.Fn.(*ssa.Function))
		var bs []int
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *Frame) {
			cl := &Closure{fn: fn, bind: make([]Value, len(bs))}
			for i, b := range bs {
				cl.bind[i] = fr.get(b)
			}
			fr.regs[d] = Value{P: cl}
		}
	case *ssa.MakeInterface:
		d, s := c.slots[in], c.op(in.X)
		ti := c.e.TypeInfo(in.X.Type())
		return func(fr *Frame) { fr.regs[d] = Value{P: &Iface{t: ti, v: fr.get(s)}} }
	case *ssa.MakeMap:
		d := c.slots[in]
		kt := in.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) { fr.regs[d] = Value{P: newMap(kt)} }
	case *ssa.MakeSlice:
		d, l, cp := c.slots[in], c.op(in.Len), c.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		isB := isByteType(et)
		z := zeroValue(et)
		ag := c.e.aggOf(et)
		return func(fr *Frame) {
			var fillN *Term
			lv := fr.get(l)
			if lv.P != nil && isB {
				t := lv.P.(*Term)
				if t.lo >= 0 && t.hi < 1<<24 && cp == l {
					// symbolic length: allocate the maximum
					fillN = t
					lv = vInt(t.hi)
				}
			}
			n := int64(fr.p.conc1(lv))
			m := n
			if fillN == nil {
				m = int64(fr.p.conc1(fr.get(cp)))
			}
			if n < 0 || n > 1<<30 {
				fr.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<30 {
				fr.rtPanic("makeslice: cap out of range")
			}
			var sl *SliceV
			if isB {
				sl = &SliceV{arr: &ByteArr{b: make([]byte, m)}, ln: int(n), cp: int(m), lnT: fillN}
			} else {
				a := &StructV{F: make([]Value, m)}
				for i := range a.F {
					if ag.kind != 0 {
						a.F[i] = ag.clone(z)
					} else {
						a.F[i] = z
					}
				}
				sl = &SliceV{arr: a, ln: int(n), cp: int(m)}
			}
			fr.regs[d] = Value{P: sl}
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(fr *Frame) {
			mv := fr.get(m)
			if mv.P == nil {
				panic(&goPanic{v: fr.p.eng.runtimeError("assignment to entry in nil map"), where: fr.where()})
			}
			if fr.p.race != nil {
				fr.raceAccess(lockKey{mv.P, 0}, true)
			}
			fr.p.mapSet(mv.P.(*MapV), fr.get(k), fr.get(v))
		}
	case *ssa.Next:
		d, s := c.slots[in], c.op(in.Iter)
		if in.IsString {
			return func(fr *Frame) {
				it := fr.regs[s].P.(*strIter)
				fr.regs[d] = it.next(fr)
			}
		}
		return func(fr *Frame) {
			it := fr.regs[s].P.(*mapIter)
			fr.regs[d] = it.next()
		}
	case *ssa.Range:
		d, s := c.slots[in], c.op(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			kt := in.X.Type().Underlying().(*types.Map)
			zk, zv := zeroValue(kt.Key()), zeroValue(kt.Elem())
			return func(fr *Frame) {
				m, _ := fr.get(s).P.(*MapV)
				if m != nil && fr.p.race != nil {
					fr.raceAccess(lockKey{m, 0}, false)
				}
				fr.regs[d] = Value{P: &mapIter{m: m, zk: zk, zv: zv}}
			}
		}
		return func(fr *Frame) { fr.regs[d] = Value{P: &strIter{s: fr.get(s)}} }
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Select:
		return c.sel(in)
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		return func(fr *Frame) { fr.chanSend(fr.get(ch), fr.get(x)) }
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.SliceToArrayPointer:
		d, s := c.slots[in], c.op(in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *Frame) {
			v := fr.get(s)
			if v.P == nil {
				if n != 0 {
					fr.rtPanic("cannot convert slice to array pointer")
				}
				fr.regs[d] = Value{}
				return
			}
			sl := v.P.(*SliceV)
			if int64(sl.ln) < n {
				fr.rtPanic("cannot convert slice with length to array pointer")
			}
			// only whole-array views are supported
			if ba, ok := sl.arr.(*ByteArr); ok && sl.off == 0 && int64(len(ba.b)) == n {
				fr.regs[d] = newBox(Value{P: ba})
				return
			}
			if st, ok := sl.arr.(*StructV); ok && sl.off == 0 && int64(len(st.F)) == n {
				fr.regs[d] = newBox(Value{P: st})
				return
			}
			if ba, ok := sl.arr.(*ByteArr); ok {
				// read-only copy view (sufficient for decoding helpers)
				b := fr.p.bytesOf(Value{P: &SliceV{arr: ba, off: sl.off, ln: int(n), cp: int(n)}})
				nb := &ByteArr{b: append([]byte(nil), b.b...)}
				for i, t := range b.t {
					if t != nil {
						nb.setSym(i, t)
					}
				}
				fr.regs[d] = newBox(Value{P: nb})
				return
			}
			panic(fr.p.unsupported("slice to array pointer view"))
		}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		ag := c.e.aggOf(in.Val.Type())
		k, _, _ := kindOf(in.Val.Type())
		isByte := k == kInt && isByteType(in.Val.Type())
		return func(fr *Frame) {
			pt := fr.get(a)
			if fr.p.race != nil && pt.P != nil {
				fr.raceAccess(lockKey{pt.P, pt.N}, true)
			}
			switch b := pt.P.(type) {
			case *StructV:
				if ag.kind == 0 {
					b.F[pt.N] = fr.get(v)
				} else {
					ag.storeInto(&b.F[pt.N], fr.get(v))
				}
			case *ByteArr:
				if !isByte {
					panic(fr.p.unsupported("non-byte store into byte array"))
				}
				x := fr.get(v)
				if x.P == nil && len(b.runs) == 0 && b.sym == nil {
					b.b[pt.N] = byte(x.N)
				} else {
					fr.p.setByte(b, int(pt.N), x)
				}
			case nil:
				fr.rtPanic("invalid memory address or nil pointer dereference")
			case *lazyElem:
				i := fr.p.concretize(b.idx)
				switch arr := b.arr.(type) {
				case *StructV:
					if ag.kind == 0 {
						arr.F[b.off+int(i)] = fr.get(v)
					} else {
						ag.storeInto(&arr.F[b.off+int(i)], fr.get(v))
					}
				case *ByteArr:
					fr.p.setByte(arr, b.off+int(i), fr.get(v))
				}
			default:
				panic(fr.p.unsupported(fmt.Sprintf("store through %T", pt.P)))
			}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	}
	panic(fmt.Sprintf("instr %T", in))
}

// lazyElem is the address of an element at a symbolic index.
type lazyElem struct {
	arr any
	off int
	idx *Term
	n   int
	ew  uint8
}

func (p *Path) conc1(v Value) uint64 {
	if v.P == nil {
		return v.N
	}
	return p.concretize(v.P.(*Term))
}

func (fr *Frame) load(pt Value, ag *aggDesc) Value {
	if fr.p.race != nil && pt.P != nil {
		fr.raceAccess(lockKey{pt.P, pt.N}, false)
	}
	switch b := pt.P.(type) {
	case *StructV:
		v := b.F[pt.N]
		if ag.kind != 0 {
			return ag.clone(v)
		}
		return v
	case *ByteArr:
		if b.sym == nil && len(b.runs) == 0 {
			return Value{N: uint64(b.b[pt.N])}
		}
		return fr.p.getByte(b, int(pt.N))
	case nil:
		fr.rtPanic("invalid memory address or nil pointer dereference")
	case *lazyElem:
		return fr.p.loadLazy(b, ag)
	}
	panic(fr.p.unsupported(fmt.Sprintf("load through %T", pt.P)))
}

// loadLazy reads arr[idx] at a symbolic index, as an if-then-else over distinct values when
// all elements are concrete scalars.
func (p *Path) loadLazy(l *lazyElem, ag *aggDesc) Value {
	get := func(i int) Value {
		switch a := l.arr.(type) {
		case *StructV:
			return a.F[l.off+i]
		case *ByteArr:
			return p.getByte(a, l.off+i)
		}
		panic("loadLazy")
	}
	lo, hi := l.idx.lo, l.idx.hi
	if b, ok := p.bnd[l.idx]; ok {
		if b[0] > lo {
			lo = b[0]
		}
		if b[1] < hi {
			hi = b[1]
		}
	}
	if lo < 0 {
		lo = 0
	}
	if hi >= int64(l.n) {
		hi = int64(l.n) - 1
	}
	w := uint8(0)
	if l.ew != 0 {
		w = l.ew
	}
	if ag.kind == 0 && w > 0 && hi-lo < 512 {
		type seg struct {
			lo, hi int64
			v      Value
		}
		var segs []seg
		ok := true
		for i := lo; i <= hi; i++ {
			v := get(int(i))
			if v.P != nil {
				ok = false
				break
			}
			if len(segs) > 0 && segs[len(segs)-1].v.N == v.N {
				segs[len(segs)-1].hi = i
			} else {
				segs = append(segs, seg{i, i, v})
			}
		}
		if ok && len(segs) > 0 {
			// group: last segment default
			r := p.tc.Const(segs[len(segs)-1].v.N, w)
			iw := l.idx.w
			for i := len(segs) - 2; i >= 0; i-- {
				r = p.tc.Ite(p.tc.Ule(l.idx, p.tc.Const(uint64(segs[i].hi), iw)), p.tc.Const(segs[i].v.N, w), r)
			}
			return vTerm(r)
		}
	}
	i := p.concretize(l.idx)
	v := get(int(i))
	if ag.kind != 0 {
		return ag.clone(v)
	}
	return v
}

func (c *compiler) unop(in *ssa.UnOp) func(fr *Frame) {
	d, s := c.slots[in], c.op(in.X)
	switch in.Op {
	case token.MUL:
		ag := c.e.aggOf(in.Type())
		if g, ok := in.X.(*ssa.Global); ok {
			gl := c.e.Glob(g)
			return func(fr *Frame) {
				b := fr.p.globalBox(gl)
				if fr.p.race != nil {
					fr.raceAccess(lockKey{b, 0}, false)
				}
				v := b.F[0]
				if ag.kind != 0 {
					v = ag.clone(v)
				}
				fr.regs[d] = v
			}
		}
		k, w, _ := kindOf(in.Type())
		return func(fr *Frame) {
			pt := fr.regs[s]
			if b, ok := pt.P.(*StructV); ok && ag.kind == 0 && fr.p.race == nil {
				fr.regs[d] = b.F[pt.N]
				return
			}
			if le, ok := pt.P.(*lazyElem); ok && k == kInt {
				l2 := *le
				l2.ew = w
				pt.P = &l2
			}
			fr.regs[d] = fr.load(pt, ag)
		}
	case token.NOT:
		return func(fr *Frame) {
			v := fr.get(s)
			if v.P == nil {
				fr.regs[d] = Value{N: 1 - v.N}
			} else {
				fr.regs[d] = vTerm(fr.p.tc.Not(v.P.(*Term)))
			}
		}
	case token.SUB:
		k, w, _ := kindOf(in.Type())
		if k == kFloat {
			return func(fr *Frame) {
				v := fr.get(s)
				if v.P != nil {
					f := v.P.(*SymFloat)
					fr.regs[d] = Value{P: &SymFloat{fr.p.tc.Neg(f.num), f.sh}}
					return
				}
				fr.regs[d] = vFloat(-math.Float64frombits(v.N))
			}
		}
		m := wmask(w)
		return func(fr *Frame) {
			v := fr.get(s)
			if v.P == nil {
				fr.regs[d] = Value{N: (-v.N) & m}
			} else {
				fr.regs[d] = vTerm(fr.p.tc.Neg(v.P.(*Term)))
			}
		}
	case token.XOR:
		_, w, _ := kindOf(in.Type())
		m := wmask(w)
		return func(fr *Frame) {
			v := fr.get(s)
			if v.P == nil {
				fr.regs[d] = Value{N: (^v.N) & m}
			} else {
				fr.regs[d] = vTerm(fr.p.tc.Xor(v.P.(*Term), fr.p.tc.Const(m, w)))
			}
		}
	case token.ARROW:
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		z := zeroValue(et)
		commaOk := in.CommaOk
		return func(fr *Frame) {
			v, ok := fr.chanRecv(fr.get(s), z)
			if commaOk {
				fr.regs[d] = vTuple(v, vBool(ok))
			} else {
				fr.regs[d] = v
			}
		}
	}
	panic("unop " + in.Op.String())
}

func (c *compiler) index(in *ssa.Index) func(fr *Frame) {
	d, x, i := c.slots[in], c.op(in.X), c.op(in.Index)
	_, iw, isg := kindOf(in.Index.Type())
	ag := c.e.aggOf(in.Type())
	_, ew, _ := kindOf(in.Type())
	isStr := false
	if k, _, _ := kindOf(in.X.Type()); k == kString {
		isStr = true
	}
	return func(fr *Frame) {
		xv, iv := fr.get(x), fr.get(i)
		n := 0
		if isStr {
			n = strLen(xv)
		} else {
			switch a := xv.P.(type) {
			case *StructV:
				n = len(a.F)
			case *ByteArr:
				n = len(a.b)
			}
		}
		if iv.P != nil {
			t := fr.p.idxTerm(iv, iw, isg)
			fr.boundsT(t, n)
			if isStr {
				if s, ok := concStr(xv); ok {
					fr.regs[d] = fr.p.loadLazy(&lazyElem{arr: &ByteArr{b: []byte(s)}, idx: t, n: n, ew: 8}, ag)
					return
				}
				fr.regs[d] = fr.p.strAt(xv, int(fr.p.concretize(t)))
				return
			}
			fr.regs[d] = fr.p.loadLazy(&lazyElem{arr: xv.P, idx: t, n: n, ew: ew}, ag)
			return
		}
		idx := sext(iv.N, iw)
		if !isg {
			idx = int64(iv.N)
		}
		if idx < 0 || idx >= int64(n) {
			fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, n))
		}
		if isStr {
			fr.regs[d] = fr.p.strAt(xv, int(idx))
			return
		}
		switch a := xv.P.(type) {
		case *StructV:
			fr.regs[d] = a.F[idx]
		case *ByteArr:
			fr.regs[d] = fr.p.getByte(a, int(idx))
		}
	}
}

func (p *Path) idxTerm(v Value, w uint8, signed bool) *Term {
	t := v.P.(*Term)
	if w == 64 {
		return t
	}
	if signed {
		return p.tc.Sext(t, 64)
	}
	return p.tc.Zext(t, 64)
}

// boundsT checks a symbolic index against n, panicking on the out-of-range side.
func (fr *Frame) boundsT(t *Term, n int) {
	tc := fr.p.tc
	if !fr.p.branch(tc.BAnd(tc.Sle(tc.Const(0, 64), t), tc.Slt(t, tc.Const(uint64(n), 64)))) {
		fr.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (c *compiler) indexAddr(in *ssa.IndexAddr) func(fr *Frame) {
	d, x, i := c.slots[in], c.op(in.X), c.op(in.Index)
	_, iw, isg := kindOf(in.Index.Type())
	if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
		return func(fr *Frame) {
			xv, iv := fr.get(x), fr.get(i)
			if xv.P == nil {
				if iv.P != nil {
					fr.p.conc1(iv)
				}
				fr.rtPanic("index out of range with length 0")
			}
			s := xv.P.(*SliceV)
			if iv.P == nil && s.lnT == nil {
				idx := sext(iv.N, iw)
				if !isg {
					idx = int64(iv.N)
				}
				if idx < 0 || idx >= int64(s.ln) {
					fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, s.ln))
				}
				fr.regs[d] = Value{P: s.arr, N: uint64(s.off + int(idx))}
				return
			}
			tc := fr.p.tc
			var t *Term
			if iv.P != nil {
				t = fr.p.idxTerm(iv, iw, isg)
			} else {
				t = tc.Const(iv.N, 64)
			}
			lim := tc.Const(uint64(s.ln), 64)
			if s.lnT != nil {
				lim = s.lnT
			}
			if !fr.p.branch(tc.BAnd(tc.Sle(tc.Const(0, 64), t), tc.Slt(t, lim))) {
				fr.rtPanic("index out of range")
			}
			if t.op == opConst {
				fr.regs[d] = Value{P: s.arr, N: uint64(s.off) + t.k}
				return
			}
			fr.regs[d] = Value{P: &lazyElem{arr: s.arr, off: s.off, idx: t, n: s.ln}}
		}
	}
	// pointer to array
	n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	return func(fr *Frame) {
		xv, iv := fr.get(x), fr.get(i)
		if xv.P == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr := xv.P.(*StructV).F[xv.N].P
		if iv.P != nil {
			t := fr.p.idxTerm(iv, iw, isg)
			fr.boundsT(t, n)
			fr.regs[d] = Value{P: &lazyElem{arr: arr, idx: t, n: n}}
			return
		}
		idx := sext(iv.N, iw)
		if !isg {
			idx = int64(iv.N)
		}
		if idx < 0 || idx >= int64(n) {
			fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, n))
		}
		fr.regs[d] = Value{P: arr, N: uint64(idx)}
	}
}

func (c *compiler) lookup(in *ssa.Lookup) func(fr *Frame) {
	d, x, i := c.slots[in], c.op(in.X), c.op(in.Index)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		// string index
		_, iw, isg := kindOf(in.Index.Type())
		return func(fr *Frame) {
			xv, iv := fr.get(x), fr.get(i)
			n := strLen(xv)
			if iv.P != nil {
				t := fr.p.idxTerm(iv, iw, isg)
				fr.boundsT(t, n)
				if s, ok := concStr(xv); ok {
					fr.regs[d] = fr.p.loadLazy(&lazyElem{arr: &ByteArr{b: []byte(s)}, idx: t, n: n, ew: 8}, &aggDesc{})
					return
				}
				fr.regs[d] = fr.p.strAt(xv, int(fr.p.concretize(t)))
				return
			}
			idx := sext(iv.N, iw)
			if idx < 0 || idx >= int64(n) {
				fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, n))
			}
			fr.regs[d] = fr.p.strAt(xv, int(idx))
		}
	}
	z := zeroValue(mt.Elem())
	commaOk := in.CommaOk
	return func(fr *Frame) {
		v, found := z, false
		if m, _ := fr.get(x).P.(*MapV); m != nil {
			if fr.p.race != nil {
				fr.raceAccess(lockKey{m, 0}, false)
			}
			v, found = fr.p.mapGet(m, fr.get(i))
			if !found {
				v = z
			}
		}
		if commaOk {
			fr.regs[d] = vTuple(v, vBool(found))
		} else {
			fr.regs[d] = v
		}
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) func(fr *Frame) {
	d, x := c.slots[in], c.op(in.X)
	ti := c.e.TypeInfo(in.AssertedType)
	isI := types.IsInterface(in.AssertedType)
	commaOk := in.CommaOk
	z := zeroValue(in.AssertedType)
	return func(fr *Frame) {
		v := fr.get(x)
		ok := false
		var r Value
		if v.P != nil {
			f := v.P.(*Iface)
			if isI {
				if f.t.implements(ti) {
					ok, r = true, v
				}
			} else if f.t == ti {
				ok, r = true, f.v
			}
		}
		if !ok {
			r = z
			if !commaOk {
				got := "nil"
				if v.P != nil {
					got = v.P.(*Iface).t.name
				}
				fr.rtPanic("interface conversion: interface is " + got + ", not " + ti.name)
			}
		}
		if commaOk {
			fr.regs[d] = vTuple(r, vBool(ok))
		} else {
			fr.regs[d] = r
		}
	}
}

func (c *compiler) slice(in *ssa.Slice) func(fr *Frame) {
	d, x := c.slots[in], c.op(in.X)
	lo, hi, mx := -1<<30, -1<<30, -1<<30
	const none = -1 << 30
	if in.Low != nil {
		lo = c.op(in.Low)
	}
	if in.High != nil {
		hi = c.op(in.High)
	}
	if in.Max != nil {
		mx = c.op(in.Max)
	}
	k, _, _ := kindOf(in.X.Type())
	ptr := k == kPtr
	return func(fr *Frame) {
		p := fr.p
		xv := fr.get(x)
		if k == kString {
			n := strLen(xv)
			l, h := 0, n
			if lo != none {
				l = int(int64(p.conc1(fr.get(lo))))
			}
			if hi != none {
				h = int(int64(p.conc1(fr.get(hi))))
			}
			if l < 0 || h < l || h > n {
				fr.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.regs[d] = subStr(xv, l, h)
			return
		}
		var s *SliceV
		if ptr {
			if xv.P == nil {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
			arr := xv.P.(*StructV).F[xv.N].P
			n := 0
			switch a := arr.(type) {
			case *ByteArr:
				n = len(a.b)
			case *StructV:
				n = len(a.F)
			}
			s = &SliceV{arr: arr, ln: n, cp: n}
		} else if xv.P == nil {
			s = &SliceV{arr: nil}
		} else {
			s = xv.P.(*SliceV)
		}
		var lv, hv Value
		if lo != none {
			lv = fr.get(lo)
		}
		if hi != none {
			hv = fr.get(hi)
		} else if s.lnT != nil {
			hv = Value{P: s.lnT}
		} else {
			hv = vInt(int64(s.ln))
		}
		cp := s.cp
		if mx != none {
			cp = int(int64(p.conc1(fr.get(mx))))
			if cp < 0 || cp > s.cp {
				fr.rtPanic("slice bounds out of range (max)")
			}
		}
		if lv.P == nil && hv.P == nil {
			l, h := int(int64(lv.N)), int(int64(hv.N))
			if l < 0 || h < l || h > cp {
				fr.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp))
			}
			if s.arr == nil {
				fr.regs[d] = Value{}
				return
			}
			fr.regs[d] = Value{P: &SliceV{arr: s.arr, off: s.off + l, ln: h - l, cp: cp - l}}
			return
		}
		tc := p.tc
		lt, ht := p.term(lv, 64), p.term(hv, 64)
		ok := p.branch(tc.BAnd(tc.Sle(tc.Const(0, 64), lt), tc.BAnd(tc.Sle(lt, ht), tc.Sle(ht, tc.Const(uint64(cp), 64)))))
		if !ok {
			fr.rtPanic("slice bounds out of range")
		}
		if s.arr == nil {
			fr.regs[d] = Value{}
			return
		}
		if lt.op != opConst {
			if lt == ht || p.must(tc.Eq(lt, ht)) {
				// empty tail
				fr.regs[d] = Value{P: &SliceV{arr: s.arr, off: s.off, ln: 0, cp: 0}}
				return
			}
			if a, isB := s.arr.(*ByteArr); isB {
				if v, tag, okf := p.fillOf(s); okf {
					// suffix of a fill run: shift by copying the overlay into a view
					n := tc.Sub(ht, lt)
					up := cp
					nb := &ByteArr{b: make([]byte, up), view: true}
					nb.runs = []fillRun{{n: n, val: v, tag: tag}}
					_ = a
					fr.regs[d] = Value{P: &SliceV{arr: nb, ln: up, cp: up, lnT: n}}
					return
				}
				if fr.fn.name == "io.ReadAtLeast" || fr.fn.name == "archive/tar.tryReadFull" {
					// the rest of a buffer: usually nothing more is read into it
					n := tc.Sub(ht, lt)
					nb := &ByteArr{b: make([]byte, cp), view: true, src: s, lo: lt}
					fr.regs[d] = Value{P: &SliceV{arr: nb, ln: cp, cp: cp, lnT: n}}
					return
				}
			}
			l := int(p.concretize(lt))
			lt = tc.Const(uint64(l), 64)
			ht = p.term(hv, 64)
		}
		l := int(lt.k)
		n := tc.Sub(ht, lt)
		if n.op == opConst {
			fr.regs[d] = Value{P: &SliceV{arr: s.arr, off: s.off + l, ln: int(n.k), cp: cp - l}}
			return
		}
		if _, isB := s.arr.(*ByteArr); !isB {
			h := int(p.concretize(ht))
			fr.regs[d] = Value{P: &SliceV{arr: s.arr, off: s.off + l, ln: h - l, cp: cp - l}}
			return
		}
		fr.regs[d] = Value{P: &SliceV{arr: s.arr, off: s.off + l, ln: cp - l, cp: cp - l, lnT: n}}
	}
}

// fillOf reports whether all bytes of s lie in one fill run.
func (p *Path) fillOf(s *SliceV) (byte, *Term, bool) {
	a, ok := s.arr.(*ByteArr)
	if !ok {
		return 0, nil, false
	}
	n := p.tc.Const(uint64(s.ln), 64)
	if s.lnT != nil {
		n = s.lnT
	}
	nhi := n.hi
	if b, ok := p.bnd[n]; ok && b[1] < nhi {
		nhi = b[1]
	}
	for k := len(a.runs) - 1; k >= 0; k-- {
		r := &a.runs[k]
		rhi := r.n.hi
		if b, ok := p.bnd[r.n]; ok && b[1] < rhi {
			rhi = b[1]
		}
		if int64(r.start) >= int64(s.off)+nhi || int64(r.start)+rhi <= int64(s.off) {
			continue // no overlap
		}
		if r.cells != nil || s.off < r.start {
			return 0, nil, false
		}
		need := p.tc.Add(n, p.tc.Const(uint64(s.off-r.start), 64))
		if need == r.n || p.must(p.tc.Sle(need, r.n)) {
			return r.val, r.tag, true
		}
		if k > 0 || s.lnT != nil {
			return 0, nil, false
		}
		return 0, nil, false
	}
	if s.lnT == nil || len(a.sym) > 0 {
		return 0, nil, false
	}
	// symbolic length over plain storage: a constant fill (typically zeros)?
	hi := s.off + int(mini(int(nhi), s.ln))
	if hi > len(a.b) {
		hi = len(a.b)
	}
	if hi <= s.off {
		return 0, nil, false
	}
	v := a.b[s.off]
	for _, c := range a.b[s.off:hi] {
		if c != v {
			return 0, nil, false
		}
	}
	return v, nil, true
}
