package main

// archive/tar.tryReadFull with a symbolic length (the padding after a member): reading from a
// file advances by the whole length when that much is there, without a case split on zero.
func init() {
	reg("archive/tar.tryReadFull", func(fr *Frame, a []Value) Value {
		p := fr.p
		_, lt := sliceLen(a[1])
		if lt != nil && a[0].P != nil {
			if ifc, ok := a[0].P.(*Iface); ok && ifc.t.T.String() == "*os.File" {
				if h := fr.handle(ifc.v); h != nil && h.n != nil && !h.n.dir && readable(h.flag) && !h.closed {
					end := p.tc.Add(h.pos, lt)
					if p.must(p.tc.Sle(end, h.n.data.size(p))) {
						h.pos = end
						return vTuple(vTerm(lt), Value{})
					}
				}
			}
		}
		return fr.g.callBody(fr, fr.fn, a)
	})
}

// time.Time.String of a symbolic time: archive/tar formats times into the explanation of why a
// header does not fit a format; the text is a placeholder so that its digits need no case split.
func init() {
	reg("(time.Time).String", func(fr *Frame, a []Value) Value {
		if s, ok := a[0].P.(*StructV); ok && len(s.F) >= 2 {
			if _, sym := s.F[0].P.(*Term); sym {
				return vStr("<time>")
			}
			if _, sym := s.F[1].P.(*Term); sym {
				return vStr("<time>")
			}
		}
		return fr.g.callBody(fr, fr.fn, a)
	})
}
