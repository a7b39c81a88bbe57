package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// digitsOf recognises a string that is the base-b printing of one term.
func digitsOf(s *SymStr, base int) (*Term, bool) {
	n := len(s.b)
	i := 0
	for i < n && s.t[i] == nil && s.b[i] == '0' {
		i++
	}
	if i == n {
		return nil, false
	}
	var a *Term
	for j := i; j < n; j++ {
		t := s.t[j]
		if t == nil || t.op != opDigit || int(t.k>>32) != base || int(t.k>>16&0xffff) != n-1-j {
			return nil, false
		}
		if a == nil {
			a = t.args[0]
		} else if a != t.args[0] {
			return nil, false
		}
	}
	return a, true
}

// fmtUint prints a non-negative symbolic term with exactly n digits.
func (p *Path) fmtDigits(a *Term, base, n int) *SymStr {
	s := &SymStr{b: make([]byte, n), t: make([]*Term, n)}
	for i := 0; i < n; i++ {
		d := p.tc.Digit(a, base, n-1-i, n)
		if d.op == opConst {
			s.b[i] = byte(d.k)
		} else {
			s.t[i] = d
		}
	}
	return s
}

// fmtInt renders v (64-bit) in base.
func (p *Path) fmtInt(v Value, signed bool, base int) Value {
	if v.P == nil {
		if signed {
			return vStr(strconv.FormatInt(int64(v.N), base))
		}
		return vStr(strconv.FormatUint(v.N, base))
	}
	t := v.P.(*Term)
	if t.w < 64 {
		if signed {
			t = p.tc.Sext(t, 64)
		} else {
			t = p.tc.Zext(t, 64)
		}
	}
	if t.op == opConst {
		return vStr(strconv.FormatInt(int64(t.k), base))
	}
	neg := false
	if signed && p.branch(p.tc.Slt(t, p.tc.Const(0, 64))) {
		neg = true
		t = p.tc.Neg(t)
	}
	n := 1
	lim := uint64(base)
	for n < 18 {
		if p.branch(p.tc.Slt(t, p.tc.Const(lim, 64))) {
			break
		}
		lim *= uint64(base)
		n++
	}
	s := symToStr(p.fmtDigits(t, base, n))
	if neg {
		s = catStr(vStr("-"), s)
	}
	return s
}

func (p *Path) parseDigits(s *SymStr, base int) (*Term, bool) {
	a, ok := digitsOf(s, base)
	if !ok {
		return nil, false
	}
	n := len(s.b)
	for n > 0 && s.t[len(s.b)-n] == nil {
		n--
	}
	lim := uint64(1)
	for i := 0; i < n && i < 18; i++ {
		lim *= uint64(base)
	}
	if base == 8 && n > 20 || base == 10 && n > 18 {
		return a, true
	}
	if !p.must(p.tc.BAnd(p.tc.Sle(p.tc.Const(0, 64), a), p.tc.Slt(a, p.tc.Const(lim, 64)))) {
		return nil, false
	}
	return a, true
}

func init() {
	reg("strconv.FormatInt", func(fr *Frame, a []Value) Value {
		return fr.p.fmtInt(a[0], true, int(fr.p.conc1(a[1])))
	})
	reg("strconv.FormatUint", func(fr *Frame, a []Value) Value {
		return fr.p.fmtInt(a[0], false, int(fr.p.conc1(a[1])))
	})
	reg("strconv.Itoa", func(fr *Frame, a []Value) Value { return fr.p.fmtInt(a[0], true, 10) })
	reg("strconv.AppendInt", func(fr *Frame, a []Value) Value {
		s := fr.p.fmtInt(a[1], true, int(fr.p.conc1(a[2])))
		return symToSlice(toSym(catStr(symToStr(fr.p.bytesOf(a[0])), s)))
	})
	parse := func(name string, itoa bool) Intrinsic {
		return func(fr *Frame, a []Value) Value {
			p := fr.p
			base := 10
			if !itoa {
				base = int(p.conc1(a[1]))
			}
			if sv, ok := a[0].P.(*SymStr); ok {
				s := sv
				neg := false
				if len(s.b) > 1 && s.t[0] == nil && s.b[0] == '-' {
					neg = true
					s = &SymStr{s.b[1:], s.t[1:]}
				}
				if t, ok := p.parseDigits(s, base); ok {
					if neg {
						t = p.tc.Neg(t)
					}
					return vTuple(vTerm(t), Value{})
				}
			}
			return fr.g.callBody(fr, fr.fn, a)
		}
	}
	reg("strconv.ParseInt", parse("ParseInt", false))
	reg("strconv.ParseUint", parse("ParseUint", false))
	reg("strconv.Atoi", parse("Atoi", true))
	reg("strconv.Quote", func(fr *Frame, a []Value) Value {
		if s, ok := concStr(a[0]); ok {
			return vStr(strconv.Quote(s))
		}
		return catStr(catStr(vStr("\""), a[0]), vStr("\""))
	})
	reg("strconv.FormatFloat", func(fr *Frame, a []Value) Value {
		return vStr(strconv.FormatFloat(floatArg(fr, a[0]), byte(fr.p.conc1(a[1])), int(int64(fr.p.conc1(a[2]))), int(fr.p.conc1(a[3]))))
	})

	// ---- archive/tar numeric fields ----
	reg("(*archive/tar.formatter).formatOctal", func(fr *Frame, a []Value) Value {
		p := fr.p
		if t, ok := a[2].P.(*Term); ok && a[1].P != nil {
			sl := a[1].P.(*SliceV)
			n := sl.ln - 1
			fits := p.tc.Sle(p.tc.Const(0, 64), t)
			if n < 21 {
				fits = p.tc.BAnd(fits, p.tc.Slt(t, p.tc.Const(1<<uint(3*n), 64)))
			}
			if p.branch(fits) {
				d := p.fmtDigits(t, 8, n)
				d.b = append(d.b, 0)
				d.t = append(d.t, nil)
				p.writeBytes(sl.arr.(*ByteArr), sl.off, d)
				return Value{}
			}
		}
		return fr.g.callBody(fr, fr.fn, a)
	})
	reg("(*archive/tar.parser).parseOctal", func(fr *Frame, a []Value) Value {
		p := fr.p
		if a[1].P != nil {
			s := p.bytesOf(a[1])
			n := len(s.b)
			for n > 0 && s.t[n-1] == nil && (s.b[n-1] == 0 || s.b[n-1] == ' ') {
				n--
			}
			if t, ok := p.parseDigits(&SymStr{s.b[:n], s.t[:n]}, 8); ok {
				return vTerm(t)
			}
		}
		return fr.g.callBody(fr, fr.fn, a)
	})
	reg("(*archive/tar.block).computeChecksum", func(fr *Frame, a []Value) Value {
		p := fr.p
		b := deref(a[0]).P.(*ByteArr)
		if len(b.runs) > 0 {
			p.flattenFor(b, 0, len(b.b))
		}
		var u, sg int64
		for i, c := range b.b {
			if 148 <= i && i < 156 {
				c = ' '
			} else if _, ok := b.sym[i]; ok {
				continue
			}
			u += int64(c)
			sg += int64(int8(c))
		}
		if len(b.sym) == 0 {
			return vTuple(vInt(u), vInt(sg))
		}
		var idx []int
		for i := range b.sym {
			if i < 148 || i >= 156 {
				idx = append(idx, i)
			}
		}
		sort.Ints(idx)
		ut, st := p.tc.Const(uint64(u), 64), p.tc.Const(uint64(sg), 64)
		for _, i := range idx {
			ut = p.tc.Add(ut, p.tc.Zext(b.sym[i], 64))
			st = p.tc.Add(st, p.tc.Sext(b.sym[i], 64))
		}
		return vTuple(vTerm(ut), vTerm(st))
	})

	// ---- fmt ----
	reg("fmt.Sprintf", func(fr *Frame, a []Value) Value {
		s, _ := fr.sprintf(a[0], fr.p.elems(a[1]))
		return s
	})
	reg("fmt.Errorf", func(fr *Frame, a []Value) Value {
		s, ws := fr.sprintf(a[0], fr.p.elems(a[1]))
		e := fr.p.eng
		switch len(ws) {
		case 0:
			t := e.namedType("errors", "errorString")
			return e.ifaceOf(types.NewPointer(t), newBox(Value{P: &StructV{F: []Value{s}}}))
		case 1:
			t := e.namedType("fmt", "wrapError")
			return e.ifaceOf(types.NewPointer(t), newBox(Value{P: &StructV{F: []Value{s, ws[0]}}}))
		}
		t := e.namedType("fmt", "wrapErrors")
		return e.ifaceOf(types.NewPointer(t), newBox(Value{P: &StructV{F: []Value{s, mkSlice(ws)}}}))
	})
	sprint := func(fr *Frame, as []Value, ln bool) Value {
		out := vStr("")
		for i, v := range as {
			if i > 0 && ln {
				out = catStr(out, vStr(" "))
			} else if i > 0 {
				if !isStrIface(v) && !isStrIface(as[i-1]) {
					out = catStr(out, vStr(" "))
				}
			}
			out = catStr(out, fr.p.fmtValue(fr, v, 'v', ""))
		}
		if ln {
			out = catStr(out, vStr("\n"))
		}
		return out
	}
	reg("fmt.Sprint", func(fr *Frame, a []Value) Value { return sprint(fr, fr.p.elems(a[0]), false) })
	reg("fmt.Sprintln", func(fr *Frame, a []Value) Value { return sprint(fr, fr.p.elems(a[0]), true) })
	wr := func(fr *Frame, w, s Value) Value {
		ifc := w.P.(*Iface)
		m := fr.p.eng.methodByName(ifc.t, "Write")
		return fr.g.Call(fr, m, []Value{ifc.v, symToSlice(toSym(s))}, nil, nil)
	}
	reg("fmt.Fprintf", func(fr *Frame, a []Value) Value {
		s, _ := fr.sprintf(a[1], fr.p.elems(a[2]))
		return wr(fr, a[0], s)
	})
	add := func(fr *Frame, to, s Value) Value {
		return symToSlice(toSym(catStr(symToStr(fr.p.bytesOf(to)), s)))
	}
	reg("fmt.Appendf", func(fr *Frame, a []Value) Value {
		s, _ := fr.sprintf(a[1], fr.p.elems(a[2]))
		return add(fr, a[0], s)
	})
	reg("fmt.Append", func(fr *Frame, a []Value) Value { return add(fr, a[0], sprint(fr, fr.p.elems(a[1]), false)) })
	reg("fmt.Appendln", func(fr *Frame, a []Value) Value { return add(fr, a[0], sprint(fr, fr.p.elems(a[1]), true)) })
	reg("fmt.Fprintln", func(fr *Frame, a []Value) Value { return wr(fr, a[0], sprint(fr, fr.p.elems(a[1]), true)) })
	reg("fmt.Fprint", func(fr *Frame, a []Value) Value { return wr(fr, a[0], sprint(fr, fr.p.elems(a[1]), false)) })
	dbg := func(fr *Frame, s Value) Value {
		if traceFlag {
			fmt.Print("[stdout] ", fr.p.showStr(s))
		}
		return vTuple(vInt(int64(strLen(s))), Value{})
	}
	reg("fmt.Printf", func(fr *Frame, a []Value) Value {
		s, _ := fr.sprintf(a[0], fr.p.elems(a[1]))
		return dbg(fr, s)
	})
	reg("fmt.Println", func(fr *Frame, a []Value) Value { return dbg(fr, sprint(fr, fr.p.elems(a[0]), true)) })
	reg("fmt.Print", func(fr *Frame, a []Value) Value { return dbg(fr, sprint(fr, fr.p.elems(a[0]), false)) })
}

func isStrIface(v Value) bool {
	if v.P == nil {
		return false
	}
	return v.P.(*Iface).t.kind == kString
}

// showStr evaluates a possibly symbolic string under the current model.
func (p *Path) showStr(v Value) string {
	s := toSym(v)
	b := make([]byte, len(s.b))
	for i := range b {
		if s.t[i] != nil {
			b[i] = byte(p.ev.Eval(s.t[i]))
		} else {
			b[i] = s.b[i]
		}
	}
	return string(b)
}

func (fr *Frame) sprintf(f Value, args []Value) (Value, []Value) {
	p := fr.p
	format := fr.str(f, "format")
	out := vStr("")
	var ws []Value
	ai := 0
	lit := ""
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			lit += format[i : i+1]
			continue
		}
		i++
		flags := ""
		badIndex := false
		for i < len(format) && strings.IndexByte("+-# 0.123456789*[]", format[i]) >= 0 {
			if format[i] == '*' {
				if ai < len(args) {
					flags += fmt.Sprint(int64(p.conc1(args[ai].P.(*Iface).v)))
					ai++
				}
			} else if format[i] == '[' {
				// An explicit argument number
				j := strings.IndexByte(format[i:], ']')
				n, err := 0, error(nil)
				if j > 0 {
					n, err = strconv.Atoi(format[i+1 : i+j])
				}
				if j < 0 || err != nil || n < 1 || n > len(args) {
					badIndex = true
				} else {
					ai = n - 1
				}
				if j > 0 {
					i += j
				}
			} else {
				flags += string(format[i])
			}
			i++
		}
		if i >= len(format) {
			lit += "%!(NOVERB)"
			break
		}
		verb := format[i]
		if verb == '%' {
			lit += "%"
			continue
		}
		if badIndex {
			lit += "%!" + string(verb) + "(BADINDEX)"
			continue
		}
		if ai >= len(args) {
			lit += "%!" + string(verb) + "(MISSING)"
			continue
		}
		v := args[ai]
		ai++
		if verb == 'w' {
			if v.P != nil {
				ws = append(ws, v)
			}
			verb = 'v'
		}
		out = catStr(catStr(out, vStr(lit)), p.fmtValue(fr, v, verb, flags))
		lit = ""
	}
	return catStr(out, vStr(lit)), ws
}

// fmtValue formats interface value v.
func (p *Path) fmtValue(fr *Frame, v Value, verb byte, flags string) Value {
	if verb == 'T' {
		if v.P == nil {
			return vStr("<nil>")
		}
		return vStr(v.P.(*Iface).t.name)
	}
	if v.P == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return vStr("%!s(<nil>)")
			}
			return vStr("<nil>")
		}
		return vStr("%!" + string(verb) + "(<nil>)")
	}
	ifc := v.P.(*Iface)
	return p.fmtTyped(fr, ifc.t.T, ifc.v, verb, flags, 0)
}

func (p *Path) fmtTyped(fr *Frame, t types.Type, v Value, verb byte, flags string, depth int) Value {
	e := p.eng
	if depth > 8 {
		return vStr("...")
	}
	if (verb == 'v' && !strings.Contains(flags, "#")) || verb == 's' || verb == 'q' || (verb == 'x' && false) {
		ti := e.TypeInfo(t)
		if ti.kind != kInvalid && types.NewMethodSet(t).Len() > 0 {
			for _, mn := range []string{"Error", "String"} {
				m := e.methodByName(ti, mn)
				if m != nil && m.f.Signature.Params().Len() == 0 && m.f.Signature.Results().Len() == 1 {
					if b, ok := m.f.Signature.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.String {
						if _, isP := t.Underlying().(*types.Pointer); isP && v.P == nil {
							return vStr("<nil>")
						}
						r := fr.g.Call(fr, m, []Value{v}, nil, nil)
						if verb == 'q' {
							return fr.p.quote(r)
						}
						return p.pad(r, flags)
					}
				}
			}
		}
	}
	k, w, sg := kindOf(t)
	switch k {
	case kString:
		if verb == 'q' {
			return p.quote(v)
		}
		if verb == 'x' {
			return vStr(fmt.Sprintf("%"+flags+"x", fr.str(v, "%x")))
		}
		return p.pad(v, flags)
	case kBool:
		if p.truth(v) {
			return p.pad(vStr("true"), flags)
		}
		return p.pad(vStr("false"), flags)
	case kInt:
		if v.P == nil {
			var x any
			if sg {
				x = sext(v.N, w)
			} else {
				x = v.N
			}
			if verb == 's' {
				verb = 'd'
			}
			return vStr(fmt.Sprintf("%"+flags+string(verb), x))
		}
		if (verb == 'd' || verb == 'v') && strings.HasPrefix(flags, "0") {
			n, err := strconv.Atoi(flags)
			if err == nil && n > 0 && n < 18 {
				tm := v.P.(*Term)
				if tm.w < 64 {
					if sg {
						tm = p.tc.Sext(tm, 64)
					} else {
						tm = p.tc.Zext(tm, 64)
					}
				}
				lim := uint64(1)
				for i := 0; i < n; i++ {
					lim *= 10
				}
				if p.must(p.tc.BAnd(p.tc.Sle(p.tc.Const(0, 64), tm), p.tc.Slt(tm, p.tc.Const(lim, 64)))) {
					return symToStr(p.fmtDigits(tm, 10, n))
				}
			}
		}
		base := 10
		switch verb {
		case 'x':
			base = 16
		case 'o':
			base = 8
		case 'b':
			base = 2
		case 'c', 'U', 'q':
			return fr.runeToStr(v)
		}
		return p.pad(p.fmtInt(v, sg, base), flags)
	case kFloat:
		if v.P != nil {
			return vStr("<symfloat>")
		}
		return vStr(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(v.N)))
	case kPtr:
		if v.P == nil {
			return vStr("<nil>")
		}
		if depth == 0 {
			if _, ok := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				if s, ok := v.P.(*StructV); ok {
					return catStr(vStr("&"), p.fmtTyped(fr, t.Underlying().(*types.Pointer).Elem(), s.F[v.N], verb, flags, depth+1))
				}
			}
		}
		return vStr("0xc000000000")
	case kSlice, kArray, kBytes:
		var el types.Type
		if s, ok := t.Underlying().(*types.Slice); ok {
			el = s.Elem()
		} else {
			el = t.Underlying().(*types.Array).Elem()
		}
		if isByteType(el) {
			var bs *SymStr
			if k == kBytes {
				bs = p.bytesOf(Value{P: &SliceV{arr: v.P, ln: len(v.P.(*ByteArr).b)}})
			} else {
				bs = p.bytesOf(v)
			}
			switch verb {
			case 's':
				return symToStr(bs)
			case 'x':
				return vStr(fmt.Sprintf("%x", fr.str(symToStr(bs), "")))
			}
			out := vStr("[")
			for i := range bs.b {
				if i > 0 {
					out = catStr(out, vStr(" "))
				}
				out = catStr(out, p.fmtInt(p.strAt(symToStr(&SymStr{bs.b[i : i+1], bs.t[i : i+1]}), 0), false, 10))
			}
			return catStr(out, vStr("]"))
		}
		out := vStr("[")
		var els []Value
		if k == kArray {
			els = v.P.(*StructV).F
		} else {
			els = p.elems(v)
		}
		for i, x := range els {
			if i > 0 {
				out = catStr(out, vStr(" "))
			}
			out = catStr(out, p.fmtTyped(fr, el, x, verb, flags, depth+1))
		}
		return catStr(out, vStr("]"))
	case kStruct:
		out := vStr("{")
		u := t.Underlying().(*types.Struct)
		for i, f := range v.P.(*StructV).F {
			if i > 0 {
				out = catStr(out, vStr(" "))
			}
			if strings.Contains(flags, "+") {
				out = catStr(out, vStr(u.Field(i).Name()+":"))
			}
			out = catStr(out, p.fmtTyped(fr, u.Field(i).Type(), f, verb, flags, depth+1))
		}
		return catStr(out, vStr("}"))
	case kIface:
		return p.fmtValue(fr, v, verb, flags)
	case kMap:
		out := vStr("map[")
		if v.P != nil {
			m := v.P.(*MapV)
			mt := t.Underlying().(*types.Map)
			n := 0
			order := make([]int, 0, len(m.keys))
			for i := range m.keys {
				if m.live[i] {
					order = append(order, i)
				}
			}
			sort.SliceStable(order, func(a, b int) bool {
				x, ok := concStr(m.keys[order[a]])
				y, ok2 := concStr(m.keys[order[b]])
				if ok && ok2 {
					return x < y
				}
				return !ok && !ok2 && m.keys[order[a]].P == nil && m.keys[order[b]].P == nil && int64(m.keys[order[a]].N) < int64(m.keys[order[b]].N)
			})
			for _, i := range order {
				if n > 0 {
					out = catStr(out, vStr(" "))
				}
				n++
				out = catStr(out, p.fmtTyped(fr, mt.Key(), m.keys[i], verb, flags, depth+1))
				out = catStr(out, vStr(":"))
				out = catStr(out, p.fmtTyped(fr, mt.Elem(), m.vals[i], verb, flags, depth+1))
			}
		}
		return catStr(out, vStr("]"))
	}
	if v.P == nil {
		return vStr("<nil>")
	}
	return vStr("<" + t.String() + ">")
}

func (p *Path) quote(v Value) Value {
	if s, ok := concStr(v); ok {
		return vStr(strconv.Quote(s))
	}
	return catStr(catStr(vStr("\""), v), vStr("\""))
}

func (p *Path) pad(v Value, flags string) Value {
	fl := strings.TrimLeft(flags, "+# ")
	left := strings.HasPrefix(fl, "-")
	fl = strings.TrimLeft(fl, "-")
	zero := strings.HasPrefix(fl, "0")
	if i := strings.IndexByte(fl, '.'); i >= 0 {
		if n, err := strconv.Atoi(fl[i+1:]); err == nil && strLen(v) > n {
			v = subStr(v, 0, n)
		}
		fl = fl[:i]
	}
	n, err := strconv.Atoi(fl)
	if err != nil || strLen(v) >= n {
		return v
	}
	ps := strings.Repeat(" ", n-strLen(v))
	if left {
		return catStr(v, vStr(ps))
	}
	if zero {
		ps = strings.Repeat("0", n-strLen(v))
	}
	return catStr(vStr(ps), v)
}

func (p *Path) ratioRound(s *SymRatio, up bool) Value {
	n := s.num
	if up {
		n = p.tc.Add(n, p.tc.Sub(s.den, p.tc.Const(1, 64)))
	}
	if !p.must(p.tc.Sle(p.tc.Const(0, 64), s.num)) {
		panic(p.unsupported("rounding of negative symbolic ratio"))
	}
	return Value{P: &SymFloat{num: p.tc.Sdiv(n, s.den), sh: 0}}
}
