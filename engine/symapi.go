package main

import (
	"fmt"
	"go/types"
	"strings"
)

const symPkg = "github.com/pojntfx/stfs/internal/verifh/sym"

type obsItem struct {
	label string
	vals  []obsVal
}

type obsVal struct {
	t types.Type
	v Value
	s *SymStr // snapshot for strings and byte slices
}

var tierFlag = 0

func (p *Path) intInput(label string, lo, hi int64) Value {
	if lo == hi {
		p.inputs = append(p.inputs, inputVar{label: label, conc: lo, isC: true})
		return vInt(lo)
	}
	// choose a width that holds the range, biased by lo
	span := uint64(hi - lo)
	w := uint8(1)
	for w < 63 && span>>w != 0 {
		w++
	}
	v := p.newVar(label, w)
	t := p.tc.Zext(v, 64)
	if span != wmask(w) {
		p.assume(p.tc.Ule(v, p.tc.Const(span, w)))
		p.refine(t, 0, int64(span))
	}
	t = p.tc.Add(t, p.tc.Const(uint64(lo), 64))
	p.refine(t, lo, hi)
	p.inputs = append(p.inputs, inputVar{label: label, t: t})
	return vTerm(t)
}

func (p *Path) byteInput(label, alphabet string) Value {
	v := p.newVar(label, 8)
	if alphabet != "" {
		var c *Term = p.tc.fls
		for i := 0; i < len(alphabet); i++ {
			c = p.tc.BOr(c, p.tc.Eq(v, p.tc.Const(uint64(alphabet[i]), 8)))
		}
		p.assume(c)
	}
	p.inputs = append(p.inputs, inputVar{label: label, t: v})
	return vTerm(v)
}

func (p *Path) evalObs() string {
	var sb strings.Builder
	for _, o := range p.obsV {
		sb.WriteString(o.label)
		for _, v := range o.vals {
			sb.WriteByte(' ')
			sb.WriteString(p.evalObsVal(v))
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func (p *Path) evalObsVal(o obsVal) string {
	if o.s != nil {
		return fmt.Sprintf("%q", p.showStr(Value{P: o.s}))
	}
	if o.t == nil {
		return "nil"
	}
	k, w, sg := kindOf(o.t)
	n := o.v.N
	if t, ok := o.v.P.(*Term); ok {
		n = p.ev.Eval(t)
	}
	switch k {
	case kBool:
		return fmt.Sprint(n != 0)
	case kInt:
		if sg {
			return fmt.Sprint(sext(n, w))
		}
		return fmt.Sprint(n)
	}
	return "?"
}

func init() {
	S := func(n string, f Intrinsic) { reg(symPkg+"."+n, f) }
	S("Int", func(fr *Frame, a []Value) Value {
		return fr.p.intInput(fr.str(a[0], ""), int64(fr.p.conc1(a[1])), int64(fr.p.conc1(a[2])))
	})
	S("Bool", func(fr *Frame, a []Value) Value {
		v := fr.p.intInput(fr.str(a[0], ""), 0, 1)
		return vTerm(fr.p.tc.Eq(fr.p.term(v, 64), fr.p.tc.Const(1, 64)))
	})
	S("Choice", func(fr *Frame, a []Value) Value {
		n := int64(fr.p.conc1(a[1]))
		v := fr.p.intInput(fr.str(a[0], ""), 0, n-1)
		return Value{N: fr.p.conc1(v)}
	})
	S("Byte", func(fr *Frame, a []Value) Value {
		return fr.p.byteInput(fr.str(a[0], ""), fr.str(a[1], ""))
	})
	S("Str", func(fr *Frame, a []Value) Value {
		n := int(fr.p.conc1(a[1]))
		s := &SymStr{b: make([]byte, n), t: make([]*Term, n)}
		lb := fr.str(a[0], "")
		for i := 0; i < n; i++ {
			c := fr.p.byteInput(fmt.Sprintf("%s.%d", lb, i), fr.str(a[2], ""))
			if c.P != nil {
				s.t[i] = c.P.(*Term)
			} else {
				s.b[i] = byte(c.N)
			}
		}
		return symToStr(s)
	})
	S("Assume", func(fr *Frame, a []Value) Value { fr.p.assume(fr.p.boolTerm(a[0])); return Value{} })
	S("Assert", func(fr *Frame, a []Value) Value {
		c := fr.p.boolTerm(a[0])
		lb := fr.str(a[1], "")
		msg := ""
		if c != fr.p.tc.tru {
			msg = fr.p.showStr(a[2])
		}
		fr.p.assert(c, lb, msg, fr.p.curFinding)
		return Value{}
	})
	S("AssertKnown", func(fr *Frame, a []Value) Value {
		p := fr.p
		c, in := p.boolTerm(a[0]), p.boolTerm(a[1])
		lb := fr.str(a[2], "")
		msg := ""
		if c != p.tc.tru {
			msg = p.showStr(a[3])
		}
		if in != p.tc.tru {
			p.assert(p.tc.BOr(c, in), lb, msg, p.curFinding)
		}
		if in != p.tc.fls {
			p.assert(p.tc.BOr(c, p.tc.Not(in)), lb, msg, fr.str(a[4], ""))
		}
		return Value{}
	})
	S("Known", func(fr *Frame, a []Value) Value {
		fr.p.curFinding = fr.str(a[0], "")
		return Value{}
	})
	S("Stop", func(fr *Frame, a []Value) Value { panic(pathAbort{"exit", ""}) })
	S("Reach", func(fr *Frame, a []Value) Value { fr.p.reach[fr.str(a[0], "")] = true; return Value{} })
	S("Observe", func(fr *Frame, a []Value) Value {
		p := fr.p
		o := obsItem{label: fr.str(a[0], "")}
		for _, v := range p.elems(a[1]) {
			if v.P == nil {
				o.vals = append(o.vals, obsVal{})
				continue
			}
			ifc := v.P.(*Iface)
			ov := obsVal{t: ifc.t.T, v: ifc.v}
			switch ifc.t.kind {
			case kString:
				ov.s = toSym(ifc.v)
			case kSlice:
				if s, ok := ifc.v.P.(*SliceV); ok {
					if _, isB := s.arr.(*ByteArr); isB {
						ov.s = p.bytesOf(ifc.v)
					}
				} else {
					ov.s = &SymStr{}
				}
			}
			o.vals = append(o.vals, ov)
		}
		p.obsV = append(p.obsV, o)
		return Value{}
	})
	S("Concrete", func(fr *Frame, a []Value) Value { return Value{N: fr.p.conc1(a[0])} })
	S("Fork", func(fr *Frame, a []Value) Value { return vBool(fr.p.truth(a[0])) })
	S("Must", func(fr *Frame, a []Value) Value { return vBool(fr.p.must(fr.p.boolTerm(a[0]))) })
	S("Native", func(fr *Frame, a []Value) Value { return vBool(false) })
	S("Tier", func(fr *Frame, a []Value) Value {
		fr.p.inputs = append(fr.p.inputs, inputVar{label: "tier", conc: int64(tierFlag), isC: true})
		return vInt(int64(tierFlag))
	})
	S("HangIsBug", func(fr *Frame, a []Value) Value { fr.p.hangIsBug = true; return Value{} })
	S("Fill", func(fr *Frame, a []Value) Value {
		p := fr.p
		if a[0].P == nil && a[1].P == nil {
			b := make([]byte, int(a[0].N))
			for i := range b {
				b[i] = byte(a[1].N)
			}
			return bytesToSlice(b)
		}
		n := p.term(a[0], 64)
		hi := n.hi
		if b, ok := p.bnd[n]; ok && b[1] < hi {
			hi = b[1]
		}
		if hi > 1<<24 {
			panic(p.unsupported("Fill: unbounded length"))
		}
		arr := &ByteArr{b: make([]byte, int(hi))}
		r := fillRun{n: n}
		if a[1].P != nil {
			r.tag = a[1].P.(*Term)
		} else {
			r.val = byte(a[1].N)
		}
		arr.runs = append(arr.runs, r)
		sl := &SliceV{arr: arr, ln: int(hi), cp: int(hi)}
		if n.op != opConst {
			sl.lnT = n
		} else {
			sl.ln = int(n.k)
		}
		return Value{P: sl}
	})
	S("Dir", func(fr *Frame, a []Value) Value {
		p := fr.p
		n, _ := p.exts["dirn"].(int)
		p.exts["dirn"] = n + 1
		d := fmt.Sprintf("/scratch%d", n)
		p.vfs.mkdirAll(d)
		return vStr(d)
	})
	S("Settle", func(fr *Frame, a []Value) Value { fr.p.yieldAll(fr.g); return Value{} })
	S("Log", func(fr *Frame, a []Value) Value {
		if traceFlag {
			s, _ := fr.sprintf(a[0], fr.p.elems(a[1]))
			fmt.Println("[log]", fr.p.showStr(s))
		}
		return Value{}
	})
	// Explore turns on interleaving exploration with the given preemption bound and race detection.
	S("Explore", func(fr *Frame, a []Value) Value {
		p := fr.p
		p.conc = true
		p.everConc = true
		p.preempt = int(int64(p.conc1(a[0])))
		if p.race == nil {
			p.startRace()
		}
		return Value{}
	})
	S("EndExplore", func(fr *Frame, a []Value) Value {
		p := fr.p
		p.conc = false
		p.race = nil
		return Value{}
	})
	S("Yield", func(fr *Frame, a []Value) Value {
		p := fr.p
		p.schedPoint(fr.g)
		if p.conc && fr.g.client >= 0 {
			p.inputs = append(p.inputs, inputVar{label: "@yield", conc: int64(fr.g.client), isC: true})
		}
		return Value{}
	})
	// Turn lets another goroutine go on as long as turns are left, independently of preemptions.
	S("Turn", func(fr *Frame, a []Value) Value {
		p := fr.p
		if p.conc && p.turns > 0 {
			o := p.preempt
			p.preempt = 1
			p.schedPoint(fr.g)
			if p.preempt == 0 {
				p.turns--
			}
			p.preempt = o
		}
		if p.conc && fr.g.client >= 0 {
			p.inputs = append(p.inputs, inputVar{label: "@yield", conc: int64(fr.g.client), isC: true})
		}
		return Value{}
	})
	S("Turns", func(fr *Frame, a []Value) Value {
		fr.p.turns = int(int64(fr.p.conc1(a[0])))
		return Value{}
	})
	S("Client", func(fr *Frame, a []Value) Value {
		fr.g.client = int(int64(fr.p.conc1(a[0])))
		return Value{}
	})
	// Cached and Store share the results of concrete computations between paths.
	S("Cached", func(fr *Frame, a []Value) Value {
		p := fr.p
		k := fr.str(a[0], "Cached")
		if s, ok := p.w.run.cache.Load(k); ok {
			return vTuple(vStr(s.(string)), vBool(true))
		}
		p.exts["cached:"+k] = [2]int{p.pos, len(p.inputs)}
		return vTuple(vStr(""), vBool(false))
	})
	S("Store", func(fr *Frame, a []Value) Value {
		p := fr.p
		k := fr.str(a[0], "Store")
		if v, ok := concStr(a[1]); ok && p.exts["cached:"+k] == [2]int{p.pos, len(p.inputs)} {
			p.w.run.cache.Store(k, v)
		}
		return Value{}
	})
	S("Stamp", func(fr *Frame, a []Value) Value {
		n, _ := fr.p.exts["stamp"].(int)
		fr.p.exts["stamp"] = n + 1
		return vInt(int64(n + 1))
	})
	S("Snap", func(fr *Frame, a []Value) Value {
		p := fr.p
		f := p.vfs.file(fr.str(a[0], ""))
		snaps, _ := p.exts["snaps"].([]*rope)
		if f == nil {
			snaps = append(snaps, &rope{})
		} else {
			snaps = append(snaps, f.data.clone())
		}
		p.exts["snaps"] = snaps
		return vInt(int64(len(snaps) - 1))
	})
	S("SnapLen", func(fr *Frame, a []Value) Value {
		snaps, _ := fr.p.exts["snaps"].([]*rope)
		return vTerm(snaps[fr.p.conc1(a[0])].size(fr.p))
	})
	// Prefix reports whether snapshot a is a prefix of snapshot b.
	S("Prefix", func(fr *Frame, a []Value) Value {
		snaps, _ := fr.p.exts["snaps"].([]*rope)
		return vTerm(fr.p.ropePrefix(snaps[fr.p.conc1(a[0])], snaps[fr.p.conc1(a[1])]))
	})
	S("Contains", func(fr *Frame, a []Value) Value {
		snaps, _ := fr.p.exts["snaps"].([]*rope)
		return vTerm(fr.p.ropeContains(snaps[fr.p.conc1(a[0])], toSym(a[1])))
	})
}
