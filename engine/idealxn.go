package main

import "go/types"

// Byte tables behind the ideal cryptography and compression models.

func (p *Path) tabs() []*rope {
	t, _ := p.exts["tabs"].([]*rope)
	return t
}

func (p *Path) tab(v Value) *rope {
	i := int64(p.conc1(v))
	t := p.tabs()
	if i < 0 || i >= int64(len(t)) {
		return nil
	}
	return t[i]
}

func (p *Path) ropeSame(a, b *rope) *Term {
	if a == nil || b == nil {
		return p.tc.fls
	}
	sa, sb := a.size(p), b.size(p)
	eq := p.tc.Eq(sa, sb)
	if eq == p.tc.fls || (eq != p.tc.tru && !p.branch(eq)) {
		return p.tc.fls
	}
	return p.ropePrefix(a, b)
}

func init() {
	X := func(n string, f Intrinsic) { reg("idealx."+n, f) }
	X("NewTab", func(fr *Frame, a []Value) Value {
		p := fr.p
		t := append(p.tabs(), &rope{})
		p.exts["tabs"] = t
		return vInt(int64(len(t) - 1))
	})
	X("Append", func(fr *Frame, a []Value) Value {
		p := fr.p
		r := p.tab(a[0])
		for _, s := range p.sliceToSegs(a[1]) {
			r.add(p, s)
		}
		return Value{}
	})
	X("Same", func(fr *Frame, a []Value) Value {
		p := fr.p
		return vTerm(p.ropeSame(p.tab(a[0]), p.tab(a[1])))
	})
	X("TabLen", func(fr *Frame, a []Value) Value {
		p := fr.p
		r := p.tab(a[0])
		if r == nil {
			return vInt(-1)
		}
		return vTerm(r.size(p))
	})
	X("Fork", func(fr *Frame, a []Value) Value { return vBool(fr.p.truth(a[0])) })
	X("Mask", func(fr *Frame, a []Value) Value {
		p := fr.p
		k := byte(p.conc1(a[1]))
		if a[0].P == nil {
			return Value{}
		}
		segs := p.sliceToSegs(a[0])
		if len(segs) == 1 && segs[0].n != nil && segs[0].n.op != opConst {
			s := segs[0]
			hi := a[0].P.(*SliceV).ln
			arr := &ByteArr{b: make([]byte, hi)}
			r := fillRun{n: s.n, val: s.val ^ k}
			if s.tag != nil {
				r.tag = p.tc.Xor(s.tag, p.tc.Const(uint64(k), 8))
			}
			arr.runs = append(arr.runs, r)
			return Value{P: &SliceV{arr: arr, ln: hi, cp: hi, lnT: s.n}}
		}
		x := p.bytesOf(a[0])
		y := &SymStr{b: make([]byte, len(x.b))}
		if x.t != nil {
			y.t = make([]*Term, len(x.b))
		}
		for i := range x.b {
			y.b[i] = x.b[i] ^ k
			if x.t != nil && x.t[i] != nil {
				y.t[i] = p.tc.Xor(x.t[i], p.tc.Const(uint64(k), 8))
			}
		}
		return symToSlice(y)
	})
	reg("(crypto.Hash).New", func(fr *Frame, a []Value) Value {
		fn := fr.p.eng.PkgFn("idealx", "NewHash")
		v := fr.g.callBody(fr, fn, nil)
		t := types.NewPointer(fr.p.eng.namedType("idealx", "Hash"))
		return fr.p.eng.ifaceOf(t, v)
	})
	reg("(crypto.Hash).Available", func(fr *Frame, a []Value) Value { return vBool(true) })
}
