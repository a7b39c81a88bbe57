package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) binop(in *ssa.BinOp) func(fr *Frame) {
	d, x, y := c.slots[in], c.op(in.X), c.op(in.Y)
	k, w, sg := kindOf(in.X.Type())
	op := in.Op
	m := wmask(w)
	switch k {
	case kInt:
		return c.intBin(op, d, x, y, w, sg, m, in)
	case kFloat:
		return func(fr *Frame) { fr.regs[d] = fr.p.floatBin(op, fr.get(x), fr.get(y), w) }
	case kString:
		switch op {
		case token.ADD:
			return func(fr *Frame) { fr.regs[d] = catStr(fr.get(x), fr.get(y)) }
		case token.EQL:
			return func(fr *Frame) { fr.regs[d] = vTerm(fr.p.strEq(fr.get(x), fr.get(y))) }
		case token.NEQ:
			return func(fr *Frame) { fr.regs[d] = vTerm(fr.p.tc.Not(fr.p.strEq(fr.get(x), fr.get(y)))) }
		case token.LSS:
			return func(fr *Frame) { fr.regs[d] = vTerm(fr.p.strLess(fr.get(x), fr.get(y))) }
		case token.GTR:
			return func(fr *Frame) { fr.regs[d] = vTerm(fr.p.strLess(fr.get(y), fr.get(x))) }
		case token.LEQ:
			return func(fr *Frame) { fr.regs[d] = vTerm(fr.p.tc.Not(fr.p.strLess(fr.get(y), fr.get(x)))) }
		case token.GEQ:
			return func(fr *Frame) { fr.regs[d] = vTerm(fr.p.tc.Not(fr.p.strLess(fr.get(x), fr.get(y)))) }
		}
	case kComplex:
		return func(fr *Frame) { panic(fr.p.unsupported("complex numbers")) }
	}
	switch op {
	case token.EQL, token.NEQ:
		xt, yt := in.X.Type(), in.Y.Type()
		neg := op == token.NEQ
		if k == kIface && !types.IsInterface(yt) || k != kIface && types.IsInterface(yt) {
			panic("mixed interface comparison")
		}
		return func(fr *Frame) {
			t := fr.valueEq(xt, fr.get(x), fr.get(y))
			if neg {
				t = fr.p.tc.Not(t)
			}
			fr.regs[d] = vTerm(t)
		}
	case token.AND, token.OR:
		if k == kBool {
			return func(fr *Frame) {
				a, b := fr.p.boolTerm(fr.get(x)), fr.p.boolTerm(fr.get(y))
				if op == token.AND {
					fr.regs[d] = vTerm(fr.p.tc.BAnd(a, b))
				} else {
					fr.regs[d] = vTerm(fr.p.tc.BOr(a, b))
				}
			}
		}
	}
	panic(fmt.Sprintf("binop %s on %s", op, in.X.Type()))
}

func (c *compiler) intBin(op token.Token, d, x, y int, w uint8, sg bool, m uint64, in *ssa.BinOp) func(fr *Frame) {
	sym := func(f func(tc *TermCtx, a, b *Term) *Term) func(fr *Frame, a, b Value) {
		return func(fr *Frame, a, b Value) {
			fr.regs[d] = vTerm(f(fr.p.tc, fr.p.term(a, w), fr.p.term(b, w)))
		}
	}
	switch op {
	case token.ADD:
		s := sym((*TermCtx).Add)
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: (a.N + b.N) & m}
				return
			}
			s(fr, a, b)
		}
	case token.SUB:
		s := sym((*TermCtx).Sub)
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: (a.N - b.N) & m}
				return
			}
			s(fr, a, b)
		}
	case token.MUL:
		s := sym((*TermCtx).Mul)
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: (a.N * b.N) & m}
				return
			}
			s(fr, a, b)
		}
	case token.QUO, token.REM:
		quo := op == token.QUO
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			tc := fr.p.tc
			if b.P != nil {
				if fr.p.branch(tc.Eq(b.P.(*Term), tc.Const(0, w))) {
					fr.rtPanic("integer divide by zero")
				}
			} else if b.N == 0 {
				fr.rtPanic("integer divide by zero")
			}
			if a.P == nil && b.P == nil {
				var r uint64
				if sg {
					p, q := sext(a.N, w), sext(b.N, w)
					if quo {
						if q == -1 {
							r = uint64(-p)
						} else {
							r = uint64(p / q)
						}
					} else if q == -1 {
						r = 0
					} else {
						r = uint64(p % q)
					}
				} else if quo {
					r = a.N / b.N
				} else {
					r = a.N % b.N
				}
				fr.regs[d] = Value{N: r & m}
				return
			}
			at, bt := fr.p.term(a, w), fr.p.term(b, w)
			// path-sensitive sign knowledge helps canonicalisation
			var r *Term
			switch {
			case sg && quo:
				r = tc.Sdiv(at, bt)
			case sg:
				r = tc.Srem(at, bt)
			case quo:
				r = tc.Udiv(at, bt)
			default:
				r = tc.Urem(at, bt)
			}
			fr.regs[d] = vTerm(r)
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		var cf func(a, b uint64) uint64
		var s func(fr *Frame, a, b Value)
		switch op {
		case token.AND:
			cf, s = func(a, b uint64) uint64 { return a & b }, sym((*TermCtx).And)
		case token.OR:
			cf, s = func(a, b uint64) uint64 { return a | b }, sym((*TermCtx).Or)
		case token.XOR:
			cf, s = func(a, b uint64) uint64 { return a ^ b }, sym((*TermCtx).Xor)
		default:
			cf, s = func(a, b uint64) uint64 { return a &^ b }, sym((*TermCtx).AndNot)
		}
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: cf(a.N, b.N) & m}
				return
			}
			s(fr, a, b)
		}
	case token.SHL, token.SHR:
		_, yw, ysg := kindOf(in.Y.Type())
		left := op == token.SHL
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			n := b.N
			if b.P != nil {
				n = fr.p.concretize(b.P.(*Term))
			}
			if ysg && sext(n, yw) < 0 {
				fr.rtPanic("negative shift amount")
			}
			if a.P == nil {
				var r uint64
				if left {
					if n < 64 {
						r = a.N << n
					}
				} else if sg {
					if n > 63 {
						n = 63
					}
					r = uint64(sext(a.N, w) >> n)
				} else if n < 64 {
					r = a.N >> n
				}
				fr.regs[d] = Value{N: r & m}
				return
			}
			t := a.P.(*Term)
			switch {
			case left:
				t = fr.p.tc.Shl(t, n)
			case sg:
				t = fr.p.tc.Ashr(t, n)
			default:
				t = fr.p.tc.Lshr(t, n)
			}
			fr.regs[d] = vTerm(t)
		}
	}
	var s func(fr *Frame, a, b Value)
	var cf func(a, b uint64) bool
	sx := func(f func(a, b int64) bool) func(a, b uint64) bool {
		return func(a, b uint64) bool { return f(sext(a, w), sext(b, w)) }
	}
	switch op {
	case token.EQL:
		s, cf = sym((*TermCtx).Eq), func(a, b uint64) bool { return a == b }
	case token.NEQ:
		s, cf = sym(func(tc *TermCtx, a, b *Term) *Term { return tc.Not(tc.Eq(a, b)) }), func(a, b uint64) bool { return a != b }
	case token.LSS:
		if sg {
			s, cf = sym((*TermCtx).Slt), sx(func(a, b int64) bool { return a < b })
		} else {
			s, cf = sym((*TermCtx).Ult), func(a, b uint64) bool { return a < b }
		}
	case token.LEQ:
		if sg {
			s, cf = sym((*TermCtx).Sle), sx(func(a, b int64) bool { return a <= b })
		} else {
			s, cf = sym((*TermCtx).Ule), func(a, b uint64) bool { return a <= b }
		}
	case token.GTR:
		if sg {
			s, cf = sym(func(tc *TermCtx, a, b *Term) *Term { return tc.Slt(b, a) }), sx(func(a, b int64) bool { return a > b })
		} else {
			s, cf = sym(func(tc *TermCtx, a, b *Term) *Term { return tc.Ult(b, a) }), func(a, b uint64) bool { return a > b }
		}
	case token.GEQ:
		if sg {
			s, cf = sym(func(tc *TermCtx, a, b *Term) *Term { return tc.Sle(b, a) }), sx(func(a, b int64) bool { return a >= b })
		} else {
			s, cf = sym(func(tc *TermCtx, a, b *Term) *Term { return tc.Ule(b, a) }), func(a, b uint64) bool { return a >= b }
		}
	default:
		panic("int binop " + op.String())
	}
	return func(fr *Frame) {
		a, b := fr.get(x), fr.get(y)
		if a.P == nil && b.P == nil {
			if cf(a.N, b.N) {
				fr.regs[d] = Value{N: 1}
			} else {
				fr.regs[d] = Value{}
			}
			return
		}
		s(fr, a, b)
	}
}

func (p *Path) floatBin(op token.Token, a, b Value, w uint8) Value {
	if a.P == nil && b.P == nil {
		x, y := math.Float64frombits(a.N), math.Float64frombits(b.N)
		switch op {
		case token.ADD:
			x += y
		case token.SUB:
			x -= y
		case token.MUL:
			x *= y
		case token.QUO:
			x /= y
		case token.EQL:
			return vBool(x == y)
		case token.NEQ:
			return vBool(x != y)
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
		if w == 32 {
			x = float64(float32(x))
		}
		return vFloat(x)
	}
	// symbolic dyadic arithmetic (exact while |num| < 2^53)
	conv := func(v Value) *SymFloat {
		if v.P != nil {
			return v.P.(*SymFloat)
		}
		f := math.Float64frombits(v.N)
		sh := uint(0)
		for f != math.Trunc(f) && sh < 40 {
			f *= 2
			sh++
		}
		if f != math.Trunc(f) || math.Abs(f) > 1<<52 {
			panic(p.unsupported("symbolic float with non-dyadic constant"))
		}
		return &SymFloat{p.tc.Const(uint64(int64(f)), 64), sh}
	}
	if op == token.QUO && b.P == nil {
		f := math.Float64frombits(b.N)
		fr, exp := math.Frexp(f)
		if fr == 0.5 && exp >= 1 { // power of two
			x := a.P.(*SymFloat)
			return Value{P: &SymFloat{x.num, x.sh + uint(exp-1)}}
		}
	}
	if op == token.QUO {
		// exact quotient only when used through Floor/Ceil; represent as ratio
		x, y := conv(a), conv(b)
		if x.sh == y.sh && y.num.lo >= 1 {
			return Value{P: &SymRatio{x.num, y.num}}
		}
		panic(p.unsupported("symbolic float division"))
	}
	x, y := conv(a), conv(b)
	for x.sh < y.sh {
		x = &SymFloat{p.tc.Shl(x.num, 1), x.sh + 1}
	}
	if op != token.MUL {
		for y.sh < x.sh {
			y = &SymFloat{p.tc.Shl(y.num, 1), y.sh + 1}
		}
	}
	switch op {
	case token.ADD:
		return Value{P: &SymFloat{p.tc.Add(x.num, y.num), x.sh}}
	case token.SUB:
		return Value{P: &SymFloat{p.tc.Sub(x.num, y.num), x.sh}}
	case token.MUL:
		return Value{P: &SymFloat{p.tc.Mul(x.num, y.num), x.sh + y.sh}}
	case token.EQL:
		return vTerm(p.tc.Eq(x.num, y.num))
	case token.NEQ:
		return vTerm(p.tc.Not(p.tc.Eq(x.num, y.num)))
	case token.LSS:
		return vTerm(p.tc.Slt(x.num, y.num))
	case token.LEQ:
		return vTerm(p.tc.Sle(x.num, y.num))
	case token.GTR:
		return vTerm(p.tc.Slt(y.num, x.num))
	case token.GEQ:
		return vTerm(p.tc.Sle(y.num, x.num))
	}
	panic(p.unsupported("symbolic float op " + op.String()))
}

// SymRatio is an exact quotient of two integers, only consumed by Floor/Ceil/conversion.
type SymRatio struct {
	num, den *Term
}

func (c *compiler) convert(d, s int, from, to types.Type) func(fr *Frame) {
	fk, fw, fs := kindOf(from)
	tk, tw, ts := kindOf(to)
	switch {
	case fk == kInt && tk == kInt:
		if fw == tw {
			return func(fr *Frame) { fr.regs[d] = fr.get(s) }
		}
		m := wmask(tw)
		return func(fr *Frame) {
			v := fr.get(s)
			if v.P == nil {
				if fs {
					fr.regs[d] = Value{N: uint64(sext(v.N, fw)) & m}
				} else {
					fr.regs[d] = Value{N: v.N & m}
				}
				return
			}
			t := v.P.(*Term)
			if tw < fw {
				t = fr.p.tc.Extract(t, tw)
			} else if fs {
				t = fr.p.tc.Sext(t, tw)
			} else {
				t = fr.p.tc.Zext(t, tw)
			}
			fr.regs[d] = vTerm(t)
		}
	case fk == kInt && tk == kFloat:
		return func(fr *Frame) {
			v := fr.get(s)
			if v.P != nil {
				t := v.P.(*Term)
				if fw < 64 {
					if fs {
						t = fr.p.tc.Sext(t, 64)
					} else {
						t = fr.p.tc.Zext(t, 64)
					}
				}
				fr.regs[d] = Value{P: &SymFloat{t, 0}}
				return
			}
			var f float64
			if fs {
				f = float64(sext(v.N, fw))
			} else {
				f = float64(v.N)
			}
			if tw == 32 {
				f = float64(float32(f))
			}
			fr.regs[d] = vFloat(f)
		}
	case fk == kFloat && tk == kInt:
		m := wmask(tw)
		return func(fr *Frame) {
			v := fr.get(s)
			if v.P != nil {
				tc := fr.p.tc
				switch f := v.P.(type) {
				case *SymFloat:
					// truncation toward zero
					t := f.num
					if f.sh > 0 {
						t = tc.Sdiv(t, tc.Const(uint64(1)<<f.sh, 64))
					}
					fr.regs[d] = vTerm(tc.Extract(t, tw))
				case *SymRatio:
					fr.regs[d] = vTerm(tc.Extract(tc.Sdiv(f.num, f.den), tw))
				}
				return
			}
			f := math.Float64frombits(v.N)
			if ts {
				fr.regs[d] = Value{N: uint64(int64(f)) & m}
			} else {
				fr.regs[d] = Value{N: uint64(f) & m}
			}
		}
	case fk == kFloat && tk == kFloat:
		return func(fr *Frame) {
			v := fr.get(s)
			if v.P == nil && tw == 32 {
				v = vFloat(float64(float32(math.Float64frombits(v.N))))
			}
			fr.regs[d] = v
		}
	case fk == kString && tk == kSlice:
		if isByteType(to.Underlying().(*types.Slice).Elem()) {
			return func(fr *Frame) { fr.regs[d] = symToSlice(toSym(fr.get(s))) }
		}
		return func(fr *Frame) {
			it := &strIter{s: fr.get(s)}
			var out []Value
			for {
				t := it.next(fr).P.(*StructV)
				if t.F[0].N == 0 {
					break
				}
				out = append(out, t.F[2])
			}
			fr.regs[d] = mkSlice(out)
		}
	case fk == kSlice && tk == kString:
		if isByteType(from.Underlying().(*types.Slice).Elem()) {
			return func(fr *Frame) {
				fr.regs[d] = symToStr(fr.p.bytesOf(fr.get(s)))
			}
		}
		return func(fr *Frame) {
			out := vStr("")
			for _, r := range sliceElems(fr.get(s)) {
				out = catStr(out, fr.runeToStr(r))
			}
			fr.regs[d] = out
		}
	case fk == kInt && tk == kString:
		return func(fr *Frame) {
			v := fr.get(s)
			if v.P != nil && fw != 32 {
				v = Value{N: fr.p.conc1(v)}
			}
			if v.P == nil && fw != 32 {
				fr.regs[d] = vStr(string(rune(sext(v.N, fw))))
				return
			}
			fr.regs[d] = fr.runeToStr(v)
		}
	case fk == kString && tk == kString, fk == kUnsafe, tk == kUnsafe, fk == kPtr && tk == kPtr, fk == tk:
		return func(fr *Frame) { fr.regs[d] = fr.get(s) }
	}
	msg := fmt.Sprintf("convert %s -> %s", from, to)
	return func(fr *Frame) { panic(fr.p.unsupported(msg)) }
}

func (fr *Frame) runeToStr(v Value) Value {
	if v.P == nil {
		return vStr(string(rune(int32(v.N))))
	}
	t := v.P.(*Term)
	tc := fr.p.tc
	if fr.p.branch(tc.Ult(t, tc.Const(0x80, t.w))) {
		return Value{P: &SymStr{b: []byte{0}, t: []*Term{tc.Extract(t, 8)}}}
	}
	return vStr(string(rune(int32(fr.p.concretize(t)))))
}

// strIter ranges over a string.
type strIter struct {
	s Value
	i int
}

func (it *strIter) next(fr *Frame) Value {
	n := strLen(it.s)
	if it.i >= n {
		return vTuple(vBool(false), Value{}, Value{})
	}
	pos := it.i
	if s, ok := concStr(it.s); ok {
		r, sz := utf8.DecodeRuneInString(s[it.i:])
		it.i += sz
		return vTuple(vBool(true), vInt(int64(pos)), Value{N: uint64(uint32(r))})
	}
	r, sz := fr.decodeRune(it.s, it.i)
	it.i += sz
	return vTuple(vBool(true), vInt(int64(pos)), r)
}

// decodeRune decodes one rune of a possibly symbolic string.
func (fr *Frame) decodeRune(s Value, i int) (Value, int) {
	b := fr.p.strAt(s, i)
	tc := fr.p.tc
	if b.P != nil {
		t := b.P.(*Term)
		if fr.p.branch(tc.Ult(t, tc.Const(0x80, 8))) {
			return vTerm(tc.Zext(t, 32)), 1
		}
	} else if b.N < 0x80 {
		return Value{N: b.N}, 1
	}
	f := fr.p.eng.PkgFn("unicode/utf8", "DecodeRuneInString")
	sv := subStr(s, i, strLen(s))
	saved := f.intr
	_ = saved
	r := fr.g.callBody(fr, f, []Value{sv}).P.(*StructV)
	return r.F[0], int(fr.p.conc1(r.F[1]))
}

// callBody runs the interpreted body of fn even when an intrinsic is registered.
func (g *Gor) callBody(caller *Frame, fn *Fn, args []Value) Value {
	if fn.intr == nil {
		return g.Call(caller, fn, args, nil, nil)
	}
	e := fn.eng
	e.mu.Lock()
	b, ok := e.bodyFns[fn]
	if !ok {
		b = &Fn{eng: e, f: fn.f, name: fn.name, recov: -1, pkg: fn.pkg, resT: fn.resT}
		e.bodyFns[fn] = b
	}
	e.mu.Unlock()
	return g.Call(caller, b, args, nil, nil)
}

// ---- equality ----

func (fr *Frame) valueEq(t types.Type, a, b Value) *Term {
	p := fr.p
	tc := p.tc
	k, w, _ := kindOf(t)
	switch k {
	case kBool:
		return tc.Eq(p.boolTerm(a), p.boolTerm(b))
	case kInt:
		if a.P == nil && b.P == nil {
			return tc.Bool(a.N == b.N)
		}
		return tc.Eq(p.term(a, w), p.term(b, w))
	case kFloat:
		return p.boolTerm(p.floatBin(token.EQL, a, b, w))
	case kString:
		return p.strEq(a, b)
	case kPtr, kUnsafe, kChan, kMap, kFunc, kSlice:
		if la, ok := a.P.(*lazyElem); ok {
			a = Value{P: la.arr, N: uint64(la.off) + p.concretize(la.idx)}
		}
		if lb, ok := b.P.(*lazyElem); ok {
			b = Value{P: lb.arr, N: uint64(lb.off) + p.concretize(lb.idx)}
		}
		if k == kFunc || k == kSlice || k == kMap || k == kChan {
			return tc.Bool(a.P == b.P)
		}
		return tc.Bool(a.P == b.P && (a.P == nil || a.N == b.N))
	case kIface:
		if a.P == nil || b.P == nil {
			return tc.Bool(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.t != y.t {
			return tc.fls
		}
		if !types.Comparable(x.t.T) {
			fr.rtPanic("comparing uncomparable type " + x.t.name)
		}
		return fr.valueEq(x.t.T, x.v, y.v)
	case kStruct:
		u := t.Underlying().(*types.Struct)
		x, y := a.P.(*StructV), b.P.(*StructV)
		r := tc.tru
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = tc.BAnd(r, fr.valueEq(u.Field(i).Type(), x.F[i], y.F[i]))
			if r == tc.fls {
				return r
			}
		}
		return r
	case kArray:
		et := t.Underlying().(*types.Array).Elem()
		x, y := a.P.(*StructV), b.P.(*StructV)
		r := tc.tru
		for i := range x.F {
			r = tc.BAnd(r, fr.valueEq(et, x.F[i], y.F[i]))
			if r == tc.fls {
				return r
			}
		}
		return r
	case kBytes:
		x, y := a.P.(*ByteArr), b.P.(*ByteArr)
		r := tc.tru
		for i := range x.b {
			r = tc.BAnd(r, tc.Eq(p.term(p.getByte(x, i), 8), p.term(p.getByte(y, i), 8)))
			if r == tc.fls {
				return r
			}
		}
		return r
	}
	panic(p.unsupported("compare " + t.String()))
}

// ---- maps ----

func newMap(kt types.Type) *MapV {
	return &MapV{idx: map[any]int{}, keyT: kt}
}

type ptrKey struct {
	p any
	n uint64
}

type ifaceKey struct {
	t *TypeInfo
	k any
}

// concKey returns a Go-comparable key for a concrete value; ok=false if symbolic.
func (p *Path) concKey(t types.Type, v Value) (any, bool) {
	k, _, _ := kindOf(t)
	switch k {
	case kBool, kInt, kFloat:
		if v.P != nil {
			return nil, false
		}
		return v.N, true
	case kString:
		s, ok := concStr(v)
		return s, ok
	case kIface:
		if v.P == nil {
			return ifaceKey{}, true
		}
		f := v.P.(*Iface)
		kk, ok := p.concKey(f.t.T, f.v)
		return ifaceKey{f.t, kk}, ok
	case kStruct:
		u := t.Underlying().(*types.Struct)
		var sb strings.Builder
		for i, f := range v.P.(*StructV).F {
			kk, ok := p.concKey(u.Field(i).Type(), f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", kk, kk)
		}
		return sb.String(), true
	case kArray:
		u := t.Underlying().(*types.Array)
		var sb strings.Builder
		for _, f := range v.P.(*StructV).F {
			kk, ok := p.concKey(u.Elem(), f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", kk, kk)
		}
		return sb.String(), true
	case kBytes:
		b := v.P.(*ByteArr)
		if len(b.sym) > 0 || len(b.runs) > 0 {
			return nil, false
		}
		return string(b.b), true
	}
	return ptrKey{v.P, v.N}, true
}

func (p *Path) mapFind(m *MapV, k Value) int {
	ck, ok := p.concKey(m.keyT, k)
	if ok {
		if i, found := m.idx[ck]; found {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	fr := &Frame{p: p, g: p.cur}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if ok {
			if _, c := p.concKey(m.keyT, m.keys[i]); c {
				continue
			}
		}
		if p.branch(fr.valueEq(m.keyT, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (p *Path) mapGet(m *MapV, k Value) (Value, bool) {
	if i := p.mapFind(m, k); i >= 0 {
		return m.vals[i], true
	}
	return Value{}, false
}

func (p *Path) mapSet(m *MapV, k, v Value) {
	if i := p.mapFind(m, k); i >= 0 {
		m.vals[i] = v
		return
	}
	ck, ok := p.concKey(m.keyT, k)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
	m.n++
	if ok {
		m.idx[ck] = len(m.keys) - 1
	} else {
		m.nsym++
	}
}

func (p *Path) mapDelete(m *MapV, k Value) {
	i := p.mapFind(m, k)
	if i < 0 {
		return
	}
	m.live[i] = false
	m.n--
	if ck, ok := p.concKey(m.keyT, m.keys[i]); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
}

type mapIter struct {
	m      *MapV
	i      int
	zk, zv Value
}

func (it *mapIter) next() Value {
	if it.m != nil {
		for it.i < len(it.m.keys) {
			i := it.i
			it.i++
			if it.m.live[i] {
				return vTuple(vBool(true), it.m.keys[i], it.m.vals[i])
			}
		}
	}
	return vTuple(vBool(false), it.zk, it.zv)
}

// ---- calls ----

func (c *compiler) call(cc *ssa.CallCommon, in ssa.Instruction) func(fr *Frame) Value {
	var as []int
	for _, a := range cc.Args {
		as = append(as, c.op(a))
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		m := cc.Method
		return func(fr *Frame) Value {
			v := fr.get(x)
			if v.P == nil {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := v.P.(*Iface)
			fn := f.t.method(m)
			if fn == nil {
				panic(fr.p.unsupported("no method " + m.Name() + " on " + f.t.name))
			}
			var buf [8]Value
			args := append(buf[:0], f.v)
			for _, a := range as {
				args = append(args, fr.get(a))
			}
			return fr.g.Call(fr, fn, args, nil, nil)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc, as)
	}
	if sf := cc.StaticCallee(); sf != nil {
		if _, isC := cc.Value.(*ssa.MakeClosure); !isC {
			fn := c.e.Fn(sf)
			return func(fr *Frame) Value {
				var buf [8]Value
				args := buf[:0]
				for _, a := range as {
					args = append(args, fr.get(a))
				}
				return fr.g.Call(fr, fn, args, nil, nil)
			}
		}
	}
	x := c.op(cc.Value)
	return func(fr *Frame) Value {
		v := fr.get(x)
		if v.P == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		var buf [8]Value
		args := buf[:0]
		for _, a := range as {
			args = append(args, fr.get(a))
		}
		return fr.g.callClosure(fr, v.P.(*Closure), args, nil)
	}
}

func (c *compiler) deferGo(cc *ssa.CallCommon, in ssa.Instruction, isGo bool) func(fr *Frame) {
	var as []int
	for _, a := range cc.Args {
		as = append(as, c.op(a))
	}
	prep := func(fr *Frame) (*Closure, []Value) {
		args := make([]Value, 0, len(as)+1)
		if cc.IsInvoke() {
			panic("invoke")
		}
		for _, a := range as {
			args = append(args, fr.get(a))
		}
		return nil, args
	}
	var get func(fr *Frame) (*Closure, []Value)
	switch {
	case cc.IsInvoke():
		x := c.op(cc.Value)
		m := cc.Method
		get = func(fr *Frame) (*Closure, []Value) {
			v := fr.get(x)
			if v.P == nil {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := v.P.(*Iface)
			args := []Value{f.v}
			for _, a := range as {
				args = append(args, fr.get(a))
			}
			return &Closure{fn: f.t.method(m)}, args
		}
	default:
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			call := c.builtin(b, cc, as)
			nat := b.Name()
			if isGo {
				panic("go builtin")
			}
			if nat == "recover" {
				return func(fr *Frame) {
					fr.defers = append(fr.defers, deferred{builtin: func(fr *Frame) {}})
				}
			}
			return func(fr *Frame) {
				// evaluate arguments now
				vals := make([]Value, len(as))
				for i, a := range as {
					vals[i] = fr.get(a)
				}
				fr.defers = append(fr.defers, deferred{builtin: func(fr *Frame) {
					save := make([]Value, len(as))
					for i, a := range as {
						if a >= 0 {
							save[i] = fr.regs[a]
							fr.regs[a] = vals[i]
						}
					}
					call(fr)
					for i, a := range as {
						if a >= 0 {
							fr.regs[a] = save[i]
						}
					}
				}})
			}
		}
		if sf, ok := cc.Value.(*ssa.Function); ok {
			cl := &Closure{fn: c.e.Fn(sf)}
			get = func(fr *Frame) (*Closure, []Value) {
				_, args := prep(fr)
				return cl, args
			}
		} else {
			x := c.op(cc.Value)
			get = func(fr *Frame) (*Closure, []Value) {
				v := fr.get(x)
				if v.P == nil {
					if isGo {
						fr.rtPanic("go of nil func value")
					}
					return nil, nil
				}
				_, args := prep(fr)
				return v.P.(*Closure), args
			}
		}
	}
	if isGo {
		return func(fr *Frame) {
			cl, args := get(fr)
			fr.p.spawn(fr, cl, args)
		}
	}
	return func(fr *Frame) {
		cl, args := get(fr)
		if cl == nil {
			fr.defers = append(fr.defers, deferred{builtin: func(fr *Frame) {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}})
			return
		}
		fr.defers = append(fr.defers, deferred{fn: cl, args: args})
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, as []int) func(fr *Frame) Value {
	switch b.Name() {
	case "len":
		x := as[0]
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return func(fr *Frame) Value { return vInt(int64(strLen(fr.get(x)))) }
		case *types.Slice:
			return func(fr *Frame) Value { return fr.p.sliceLenV(fr.get(x)) }
		case *types.Map:
			return func(fr *Frame) Value {
				if m, _ := fr.get(x).P.(*MapV); m != nil {
					return vInt(int64(m.n))
				}
				return Value{}
			}
		case *types.Chan:
			return func(fr *Frame) Value {
				if m, _ := fr.get(x).P.(*ChanV); m != nil {
					return vInt(int64(len(m.buf)))
				}
				return Value{}
			}
		case *types.Pointer:
			n := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			return func(fr *Frame) Value { return vInt(n) }
		case *types.Array:
			n := cc.Args[0].Type().Underlying().(*types.Array).Len()
			return func(fr *Frame) Value { return vInt(n) }
		}
	case "cap":
		x := as[0]
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return func(fr *Frame) Value {
				if s, _ := fr.get(x).P.(*SliceV); s != nil {
					return vInt(int64(s.cp))
				}
				return Value{}
			}
		case *types.Chan:
			return func(fr *Frame) Value {
				if m, _ := fr.get(x).P.(*ChanV); m != nil {
					return vInt(int64(m.cap))
				}
				return Value{}
			}
		case *types.Array:
			return func(fr *Frame) Value { return vInt(u.Len()) }
		case *types.Pointer:
			n := u.Elem().Underlying().(*types.Array).Len()
			return func(fr *Frame) Value { return vInt(n) }
		}
	case "append":
		x, y := as[0], as[1]
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		isB := isByteType(st.Elem())
		ag := c.e.aggOf(st.Elem())
		z := zeroValue(st.Elem())
		fromStr := false
		if k, _, _ := kindOf(cc.Args[1].Type()); k == kString {
			fromStr = true
		}
		return func(fr *Frame) Value {
			return fr.doAppend(fr.get(x), fr.get(y), isB, fromStr, ag, z)
		}
	case "copy":
		x, y := as[0], as[1]
		fromStr := false
		if k, _, _ := kindOf(cc.Args[1].Type()); k == kString {
			fromStr = true
		}
		ag := c.e.aggOf(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		return func(fr *Frame) Value {
			src := fr.get(y)
			if fromStr {
				src = symToSlice(toSym(src))
			}
			return fr.doCopy(fr.get(x), src, ag)
		}
	case "delete":
		x, y := as[0], as[1]
		return func(fr *Frame) Value {
			if m, _ := fr.get(x).P.(*MapV); m != nil {
				if fr.p.race != nil {
					fr.raceAccess(lockKey{m, 0}, true)
				}
				fr.p.mapDelete(m, fr.get(y))
			}
			return Value{}
		}
	case "clear":
		x := as[0]
		if mt, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			return func(fr *Frame) Value {
				if m, _ := fr.get(x).P.(*MapV); m != nil {
					*m = *newMap(mt.Key())
				}
				return Value{}
			}
		}
		z := zeroValue(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		return func(fr *Frame) Value {
			if s, _ := fr.get(x).P.(*SliceV); s != nil {
				switch a := s.arr.(type) {
				case *ByteArr:
					for i := 0; i < s.ln; i++ {
						fr.p.setByte(a, s.off+i, Value{})
					}
				case *StructV:
					for i := 0; i < s.ln; i++ {
						a.F[s.off+i] = z
					}
				}
			}
			return Value{}
		}
	case "close":
		x := as[0]
		return func(fr *Frame) Value { fr.chanClose(fr.get(x)); return Value{} }
	case "panic":
		x := as[0]
		return func(fr *Frame) Value { panic(&goPanic{v: fr.get(x), where: fr.where()}) }
	case "recover":
		return func(fr *Frame) Value {
			if fr.pframe != nil && fr.pframe.pan != nil && !fr.pframe.pan.recovered {
				fr.pframe.pan.recovered = true
				return fr.pframe.pan.v
			}
			return Value{}
		}
	case "print", "println":
		return func(fr *Frame) Value { return Value{} }
	case "min", "max":
		k, w, sg := kindOf(cc.Args[0].Type())
		isMin := b.Name() == "min"
		return func(fr *Frame) Value {
			r := fr.get(as[0])
			for _, a := range as[1:] {
				v := fr.get(a)
				var lt *Term
				switch k {
				case kInt:
					if sg {
						lt = fr.p.tc.Slt(fr.p.term(v, w), fr.p.term(r, w))
					} else {
						lt = fr.p.tc.Ult(fr.p.term(v, w), fr.p.term(r, w))
					}
				case kString:
					lt = fr.p.strLess(v, r)
				default:
					lt = fr.p.boolTerm(fr.p.floatBin(token.LSS, v, r, w))
				}
				take := fr.p.branch(lt)
				if take == isMin {
					r = v
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		x := as[0]
		return func(fr *Frame) Value {
			v := fr.get(x)
			if v.P == nil {
				fr.rtPanic("value method called using nil pointer")
			}
			return v
		}
	case "ssa:deferstack":
		return func(fr *Frame) Value { return Value{} }
	case "String": // unsafe.String(ptr, len)
		return func(fr *Frame) Value {
			pt := fr.get(as[0])
			n := int(fr.p.conc1(fr.get(as[1])))
			if n == 0 || pt.P == nil {
				return vStr("")
			}
			return symToStr(fr.p.bytesOf(Value{P: &SliceV{arr: pt.P, off: int(pt.N), ln: n, cp: n}}))
		}
	case "StringData":
		return func(fr *Frame) Value {
			s := toSym(fr.get(as[0]))
			sl := symToSlice(s).P.(*SliceV)
			return Value{P: sl.arr}
		}
	case "SliceData":
		return func(fr *Frame) Value {
			v := fr.get(as[0])
			if v.P == nil {
				return Value{}
			}
			s := v.P.(*SliceV)
			return Value{P: s.arr, N: uint64(s.off)}
		}
	case "Slice":
		return func(fr *Frame) Value {
			pt := fr.get(as[0])
			n := int(fr.p.conc1(fr.get(as[1])))
			if pt.P == nil {
				return Value{}
			}
			return Value{P: &SliceV{arr: pt.P, off: int(pt.N), ln: n, cp: n}}
		}
	}
	name := b.Name()
	return func(fr *Frame) Value { panic(fr.p.unsupported("builtin " + name)) }
}

func (fr *Frame) doAppend(x, y Value, isB, fromStr bool, ag *aggDesc, z Value) Value {
	p := fr.p
	if fromStr {
		if strLen(y) == 0 {
			return x
		}
		y = symToSlice(toSym(y))
	}
	if y.P == nil {
		return x
	}
	ys := y.P.(*SliceV)
	if ys.lnT == nil && ys.ln == 0 {
		return x
	}
	var xs *SliceV
	if x.P == nil {
		xs = &SliceV{}
	} else {
		xs = x.P.(*SliceV)
	}
	if xs.lnT != nil {
		n := int(p.concretize(xs.lnT))
		xs = &SliceV{arr: xs.arr, off: xs.off, ln: n, cp: xs.cp}
	}
	ysym := ys.lnT
	yn := ys.ln
	if ysym != nil {
		// symbolic tail: keep when it is a fill run
		if val, tag, ok := p.fillOf(ys); ok && isB {
			up := ysym.hi
			if b, ok := p.bnd[ysym]; ok && b[1] < up {
				up = b[1]
			}
			if up < 1<<24 {
				n := &ByteArr{b: make([]byte, xs.ln+int(up))}
				if xs.ln > 0 {
					p.copyBytes(n, 0, xs.arr.(*ByteArr), xs.off, xs.ln)
				}
				n.runs = append(n.runs, fillRun{start: xs.ln, n: ysym, val: val, tag: tag})
				tot := p.tc.Add(ysym, p.tc.Const(uint64(xs.ln), 64))
				return Value{P: &SliceV{arr: n, ln: len(n.b), cp: len(n.b), lnT: tot}}
			}
		}
		yn = int(p.concretize(ysym))
	}
	tot := xs.ln + yn
	if tot <= xs.cp {
		if isB {
			p.copyBytes(xs.arr.(*ByteArr), xs.off+xs.ln, ys.arr.(*ByteArr), ys.off, yn)
		} else {
			copyElems(xs.arr.(*StructV), xs.off+xs.ln, ys.arr.(*StructV), ys.off, yn, ag)
		}
		if p.race != nil {
			fr.raceAccess(lockKey{xs.arr, uint64(xs.off + xs.ln)}, true)
		}
		return Value{P: &SliceV{arr: xs.arr, off: xs.off, ln: tot, cp: xs.cp}}
	}
	nc := xs.cp * 2
	if nc < tot {
		nc = tot
	}
	if nc < 8 {
		nc = 8
		if isB {
			nc = 16
		}
	}
	if isB {
		n := &ByteArr{b: make([]byte, nc)}
		if xs.ln > 0 {
			p.copyBytes(n, 0, xs.arr.(*ByteArr), xs.off, xs.ln)
		}
		p.copyBytes(n, xs.ln, ys.arr.(*ByteArr), ys.off, yn)
		return Value{P: &SliceV{arr: n, ln: tot, cp: nc}}
	}
	n := &StructV{F: make([]Value, nc)}
	if xs.ln > 0 {
		copyElems(n, 0, xs.arr.(*StructV), xs.off, xs.ln, ag)
	}
	for i := xs.ln; i < nc; i++ {
		if ag.kind != 0 {
			n.F[i] = ag.clone(z)
		} else {
			n.F[i] = z
		}
	}
	copyElems(n, xs.ln, ys.arr.(*StructV), ys.off, yn, ag)
	return Value{P: &SliceV{arr: n, ln: tot, cp: nc}}
}

func copyElems(dst *StructV, do int, src *StructV, so, n int, ag *aggDesc) {
	if ag.kind == 0 {
		copy(dst.F[do:do+n], src.F[so:so+n])
		return
	}
	tmp := make([]Value, n)
	for i := 0; i < n; i++ {
		tmp[i] = ag.clone(src.F[so+i])
	}
	for i := 0; i < n; i++ {
		if dst.F[do+i].P != nil {
			ag.storeInto(&dst.F[do+i], tmp[i])
		} else {
			dst.F[do+i] = tmp[i]
		}
	}
}

func (p *Path) copyBytes(dst *ByteArr, do int, src *ByteArr, so, n int) {
	if n == 0 {
		return
	}
	if len(src.runs) == 0 && len(src.sym) == 0 && len(dst.runs) == 0 && len(dst.sym) == 0 {
		copy(dst.b[do:do+n], src.b[so:so+n])
		return
	}
	if len(src.runs) > 0 {
		// whole range inside the top run?
		s := &SliceV{arr: src, off: so, ln: n, cp: n}
		if v, tag, ok := p.fillOf(s); ok {
			o := &SymStr{b: make([]byte, n), t: make([]*Term, n)}
			for i := range o.b {
				o.b[i] = v
				o.t[i] = tag
			}
			p.writeBytes(dst, do, o)
			return
		}
	}
	o := p.bytesOf(Value{P: &SliceV{arr: src, off: so, ln: n, cp: n}})
	p.writeBytes(dst, do, o)
}

func (fr *Frame) doCopy(dv, sv Value, ag *aggDesc) Value {
	p := fr.p
	if dv.P == nil || sv.P == nil {
		return Value{}
	}
	d, s := dv.P.(*SliceV), sv.P.(*SliceV)
	if d.lnT == nil && s.lnT == nil {
		n := mini(d.ln, s.ln)
		if n == 0 {
			return Value{}
		}
		switch a := d.arr.(type) {
		case *ByteArr:
			p.copyBytes(a, d.off, s.arr.(*ByteArr), s.off, n)
		case *StructV:
			copyElems(a, d.off, s.arr.(*StructV), s.off, n, ag)
		}
		return vInt(int64(n))
	}
	tc := p.tc
	dl, sl := tc.Const(uint64(d.ln), 64), tc.Const(uint64(s.ln), 64)
	if d.lnT != nil {
		dl = d.lnT
	}
	if s.lnT != nil {
		sl = s.lnT
	}
	n := dl
	if p.branch(tc.Sle(sl, dl)) {
		n = sl
	}
	if n.op == opConst {
		c := int(n.k)
		if c == 0 {
			return Value{}
		}
		p.copyBytes(d.arr.(*ByteArr), d.off, s.arr.(*ByteArr), s.off, c)
		return vInt(int64(c))
	}
	db := d.arr.(*ByteArr)
	if v, tag, ok := p.fillOf(&SliceV{arr: s.arr, off: s.off, ln: s.ln, cp: s.cp, lnT: n}); ok {
		p.wrCheck(db)
		db.runs = append(db.runs, fillRun{start: d.off, n: n, val: v, tag: tag})
		return vTerm(n)
	}
	c := int(p.concretize(n))
	if c > 0 {
		p.copyBytes(db, d.off, s.arr.(*ByteArr), s.off, c)
	}
	return vInt(int64(c))
}
