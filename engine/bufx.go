package main

import "go/types"

// io.ReadAll and (*bytes.Buffer).ReadFrom collect data of symbolic length: the chunks are kept as
// rope segments, so that no read boundary needs a concrete position.

func (p *Path) upper(t *Term) int64 {
	hi := t.hi
	if b, ok := p.bnd[t]; ok && b[1] < hi {
		hi = b[1]
	}
	return hi
}

// collect reads from the io.Reader until EOF (or error), appending to r; it returns the error (nil for EOF).
func (fr *Frame) collect(rd Value, r *rope) (*Term, Value) {
	p := fr.p
	if rd.P == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	ifc := rd.P.(*Iface)
	m := p.eng.methodByName(ifc.t, "Read")
	eof := fr.globalVal("io", "EOF")
	tc := p.tc
	total := tc.Const(0, 64)
	size := 16384
	for {
		buf := Value{P: &SliceV{arr: &ByteArr{b: make([]byte, size)}, ln: size, cp: size}}
		res := fr.g.Call(fr, m, []Value{ifc.v, buf}, nil, nil)
		tv := res.P.(*StructV)
		n := p.term(tv.F[0], 64)
		if n.op != opConst {
			s := *buf.P.(*SliceV)
			s.lnT = n
			buf = Value{P: &s}
		} else {
			if int64(n.k) < 0 {
				panic(&goPanic{v: fr.p.eng.runtimeError("bytes.Buffer: reader returned negative count from Read"), where: fr.where()})
			}
			s := *buf.P.(*SliceV)
			s.ln = int(n.k)
			buf = Value{P: &s}
		}
		for _, sg := range p.sliceToSegs(buf) {
			r.add(p, sg)
		}
		total = tc.Add(total, n)
		if e := tv.F[1]; e.P != nil {
			if fr.sameIface(e, eof) {
				return total, Value{}
			}
			return total, e
		}
		if size < 32768 {
			size *= 2
		}
	}
}

// uniform reports the single value all bytes of a concrete-length segment have.
func uniform(s *seg) (byte, *Term, bool) {
	if s.n != nil {
		return s.val, s.tag, true
	}
	if len(s.b) == 0 {
		return 0, nil, false
	}
	v := s.b[0]
	var t *Term
	if s.t != nil {
		t = s.t[0]
	}
	for i := range s.b {
		if t != nil {
			if s.t[i] != t {
				return 0, nil, false
			}
		} else if s.b[i] != v || (s.t != nil && s.t[i] != nil) {
			return 0, nil, false
		}
	}
	if t != nil {
		v = 0
	}
	return v, t, true
}

// mergeFills joins neighbouring segments of one value when at least one has a symbolic length.
func (p *Path) mergeFills(segs []seg) []seg {
	var out []seg
	for _, s := range segs {
		if len(out) > 0 {
			l := &out[len(out)-1]
			if l.n != nil || s.n != nil {
				lv, lt, ok1 := uniform(l)
				sv, st, ok2 := uniform(&s)
				if ok1 && ok2 && lt == st && (lt != nil || lv == sv) {
					*l = seg{n: p.tc.Add(p.segLen(l), p.segLen(&s)), val: lv, tag: lt}
					continue
				}
			}
		}
		out = append(out, s)
	}
	return out
}

// flatten turns segments into a byte slice value.
func (p *Path) flatten(r *rope) Value {
	tc := p.tc
	var segs []seg
	for i := range r.segs {
		if i < len(r.segs)-1 {
			r.segs[i].fix(p)
		}
		s := r.segs[i]
		if s.n != nil && s.n.op != opConst && p.must(tc.Eq(s.n, tc.Const(0, 64))) {
			continue
		}
		segs = append(segs, s)
	}
	segs = p.mergeFills(segs)
	if len(segs) == 1 && segs[0].n != nil {
		s := segs[0]
		hi := int(p.upper(s.n))
		if hi > 1<<24 {
			panic(p.unsupported("flatten: unbounded length"))
		}
		arr := &ByteArr{b: make([]byte, hi)}
		arr.runs = []fillRun{{n: s.n, val: s.val, tag: s.tag}}
		sl := &SliceV{arr: arr, ln: hi, cp: hi}
		if s.n.op != opConst {
			sl.lnT = s.n
		} else {
			sl.ln = int(s.n.k)
		}
		return Value{P: sl}
	}
	x := &SymStr{}
	for i := range segs {
		s := &segs[i]
		if s.n == nil && s.lim != nil {
			o := len(x.b)
			x.b = append(x.b, s.b...)
			if s.t != nil {
				x.t = append(x.t, s.t...)
			} else {
				x.t = append(x.t, make([]*Term, len(s.b))...)
			}
			v := symToSlice(x)
			sl := *v.P.(*SliceV)
			sl.lnT = tc.Add(s.lim, tc.Const(uint64(o), 64))
			return Value{P: &sl}
		}
		if s.n == nil {
			x.b = append(x.b, s.b...)
			if s.t != nil {
				x.t = append(x.t, s.t...)
			} else {
				x.t = append(x.t, make([]*Term, len(s.b))...)
			}
			continue
		}
		n := int(p.concretize(s.n))
		for k := 0; k < n; k++ {
			x.b = append(x.b, s.val)
			x.t = append(x.t, s.tag)
		}
	}
	return symToSlice(x)
}

func init() {
	reg("io.ReadAll", func(fr *Frame, a []Value) Value {
		r := &rope{}
		_, err := fr.collect(a[0], r)
		v := fr.p.flatten(r)
		if v.P == nil {
			v = bytesToSlice([]byte{})
		}
		return vTuple(v, err)
	})
	reg("(*bytes.Buffer).ReadFrom", func(fr *Frame, a []Value) Value {
		p := fr.p
		t := p.eng.namedType("bytes", "Buffer")
		st := structOf(a[0])
		bi, oi, li := fieldIdx(t, "buf"), fieldIdx(t, "off"), fieldIdx(t, "lastRead")
		r := &rope{}
		off := p.conc1(st.F[oi])
		if b := st.F[bi]; b.P != nil {
			s := *b.P.(*SliceV)
			o := int(off)
			s.off += o
			s.ln -= o
			s.cp -= o
			if s.lnT != nil {
				s.lnT = p.tc.Sub(s.lnT, p.tc.Const(uint64(o), 64))
			}
			for _, sg := range p.sliceToSegs(Value{P: &s}) {
				r.add(p, sg)
			}
		}
		n, err := fr.collect(a[1], r)
		st.F[li] = vInt(0)
		st.F[oi] = vInt(0)
		st.F[bi] = p.flatten(r)
		return vTuple(vTerm(n), err)
	})
}

func init() {
	// a write of symbolic length is appended as a rope
	reg("(*bytes.Buffer).Write", func(fr *Frame, a []Value) Value {
		p := fr.p
		if a[1].P == nil || a[0].P == nil {
			return fr.g.callBody(fr, fr.fn, a)
		}
		w := a[1].P.(*SliceV)
		if w.lnT == nil || w.lnT.op == opConst {
			return fr.g.callBody(fr, fr.fn, a)
		}
		t := p.eng.namedType("bytes", "Buffer")
		st := structOf(a[0])
		bi, oi, li := fieldIdx(t, "buf"), fieldIdx(t, "off"), fieldIdx(t, "lastRead")
		r := &rope{}
		off := p.conc1(st.F[oi])
		if b := st.F[bi]; b.P != nil {
			s := *b.P.(*SliceV)
			o := int(off)
			s.off += o
			s.ln -= o
			s.cp -= o
			if s.lnT != nil {
				s.lnT = p.tc.Sub(s.lnT, p.tc.Const(uint64(o), 64))
			}
			for _, sg := range p.sliceToSegs(Value{P: &s}) {
				r.add(p, sg)
			}
		}
		for _, sg := range p.sliceToSegs(a[1]) {
			r.add(p, sg)
		}
		st.F[li] = vInt(0)
		st.F[oi] = vInt(0)
		st.F[bi] = p.flatten(r)
		return vTuple(vTerm(w.lnT), Value{})
	})
}

func (fr *Frame) sameIface(a, b Value) bool {
	if a.P == nil || b.P == nil {
		return a.P == b.P
	}
	x, y := a.P.(*Iface), b.P.(*Iface)
	if x.t != y.t || !types.Comparable(x.t.T) {
		return false
	}
	return fr.p.branch(fr.valueEq(x.t.T, x.v, y.v))
}
