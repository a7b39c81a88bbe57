package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	opConst Op = iota
	opVar
	opLin // sum of monomials, constant in k
	opMul // product of >=2 atoms (args sorted)
	opUdiv
	opUrem
	opSdiv
	opSrem
	opShl
	opLshr
	opAshr
	opAnd
	opOr
	opXor
	opExtract // low k bits of a (k==w)
	opZext
	opSext
	opIte
	opDigit // '0' + (a / base^i) % base ; k = base<<32 | i<<16 | n
	// bool
	opTrue
	opFalse
	opBVar
	opEq
	opUlt
	opUle
	opSlt
	opSle
	opBAnd
	opBOr
	opBNot
)

type Mono struct {
	c uint64
	t *Term
}

// Term is a hash-consed bit-vector (w>0) or boolean (w==0) expression.
type Term struct {
	op     Op
	w      uint8
	id     uint32
	k      uint64
	args   []*Term
	lin    []Mono
	lo, hi int64 // w<64: unsigned value range; w==64: signed value range
	name   string
	hash   uint64
	neg    *Term
	sv     *Term // the single variable the term depends on (nil: none or many)
	mv     bool  // depends on several variables
}

type TermCtx struct {
	tab  map[uint64][]*Term
	next uint32
	tru  *Term
	fls  *Term
	vars []*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[uint64][]*Term{}}
	c.tru = c.mk(&Term{op: opTrue})
	c.fls = c.mk(&Term{op: opFalse})
	c.tru.neg = c.fls
	c.fls.neg = c.tru
	return c
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ (h >> 32)
}

func (c *TermCtx) mk(t *Term) *Term {
	h := mix(uint64(t.op), uint64(t.w))
	h = mix(h, t.k)
	for _, a := range t.args {
		h = mix(h, uint64(a.id)+7)
	}
	for _, m := range t.lin {
		h = mix(h, m.c)
		h = mix(h, uint64(m.t.id)+13)
	}
	for i := 0; i < len(t.name); i++ {
		h = mix(h, uint64(t.name[i]))
	}
	for _, o := range c.tab[h] {
		if o.op == t.op && o.w == t.w && o.k == t.k && len(o.args) == len(t.args) && len(o.lin) == len(t.lin) && o.name == t.name {
			same := true
			for i := range o.args {
				if o.args[i] != t.args[i] {
					same = false
					break
				}
			}
			for i := range o.lin {
				if !same || o.lin[i] != t.lin[i] {
					same = false
					break
				}
			}
			if same {
				return o
			}
		}
	}
	t.hash = h
	t.id = c.next
	c.next++
	if t.op == opVar || t.op == opBVar {
		t.sv = t
	} else {
		dep := func(a *Term) {
			if a.mv {
				t.mv = true
			} else if a.sv != nil {
				if t.sv == nil {
					t.sv = a.sv
				} else if t.sv != a.sv {
					t.mv = true
				}
			}
		}
		for _, a := range t.args {
			dep(a)
		}
		for _, m := range t.lin {
			dep(m.t)
		}
		if t.mv {
			t.sv = nil
		}
	}
	c.rangeOf(t)
	c.tab[h] = append(c.tab[h], t)
	return t
}

func wmask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func fullRange(w uint8) (int64, int64) {
	if w == 64 {
		return math.MinInt64, math.MaxInt64
	}
	return 0, int64(wmask(w))
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, !((s > a) == (b > 0))
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	p := a * b
	if p/b != a {
		return 0, false
	}
	return p, true
}

func addOK(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

func (c *TermCtx) rangeOf(t *Term) {
	if t.w == 0 {
		return
	}
	t.lo, t.hi = fullRange(t.w)
	set := func(lo, hi int64) {
		fl, fh := fullRange(t.w)
		if lo >= fl && hi <= fh && lo <= hi {
			t.lo, t.hi = lo, hi
		}
	}
	switch t.op {
	case opConst:
		if t.w == 64 {
			t.lo, t.hi = int64(t.k), int64(t.k)
		} else {
			t.lo, t.hi = int64(t.k), int64(t.k)
		}
	case opLin:
		if t.w == 64 {
			if lo, hi, ok := linRange(int64(t.k), t.lin, nil); ok {
				set(lo, hi)
			}
			break
		}
		lo, hi := int64(t.k), int64(t.k)
		if t.w < 64 {
			// treat coefficient as signed in w bits
			lo = int64(t.k)
			hi = lo
		}
		ok := true
		for _, m := range t.lin {
			cf := sext(m.c, t.w)
			a, ok1 := mulOv(cf, m.t.lo)
			b, ok2 := mulOv(cf, m.t.hi)
			if !ok1 || !ok2 {
				ok = false
				break
			}
			if a > b {
				a, b = b, a
			}
			lo, ok1 = addOK(lo, a)
			hi, ok2 = addOK(hi, b)
			if !ok1 || !ok2 {
				ok = false
				break
			}
		}
		if ok {
			if t.w < 64 {
				// try both signed interpretations of the constant
				fl, fh := fullRange(t.w)
				if lo >= fl && hi <= fh {
					t.lo, t.hi = lo, hi
				} else {
					d := int64(1) << t.w
					if lo-d >= fl && hi-d <= fh {
						t.lo, t.hi = lo-d, hi-d
					}
				}
			} else {
				set(lo, hi)
			}
		}
	case opMul:
		lo, hi := t.args[0].lo, t.args[0].hi
		ok := true
		for _, a := range t.args[1:] {
			var cand [4]int64
			var o [4]bool
			cand[0], o[0] = mulOv(lo, a.lo)
			cand[1], o[1] = mulOv(lo, a.hi)
			cand[2], o[2] = mulOv(hi, a.lo)
			cand[3], o[3] = mulOv(hi, a.hi)
			if !(o[0] && o[1] && o[2] && o[3]) {
				ok = false
				break
			}
			lo, hi = cand[0], cand[0]
			for _, x := range cand {
				if x < lo {
					lo = x
				}
				if x > hi {
					hi = x
				}
			}
		}
		if ok {
			set(lo, hi)
		}
	case opUdiv, opSdiv:
		a, b := t.args[0], t.args[1]
		if t.op == opSdiv && t.w < 64 && (a.hi >= int64(1)<<(t.w-1) || b.hi >= int64(1)<<(t.w-1)) {
			break
		}
		if a.lo >= 0 && b.lo >= 1 {
			set(a.lo/b.hi, a.hi/b.lo)
		}
	case opUrem, opSrem:
		a, b := t.args[0], t.args[1]
		if t.op == opSrem && t.w < 64 && (a.hi >= int64(1)<<(t.w-1) || b.hi >= int64(1)<<(t.w-1)) {
			break
		}
		if a.lo >= 0 && b.lo >= 1 {
			h := b.hi - 1
			if a.hi < h {
				h = a.hi
			}
			set(0, h)
		}
	case opLshr:
		a := t.args[0]
		if a.lo >= 0 && t.k < 64 {
			set(a.lo>>t.k, a.hi>>t.k)
		}
	case opAshr:
		a := t.args[0]
		if t.w == 64 && t.k < 64 {
			set(a.lo>>t.k, a.hi>>t.k)
		}
	case opAnd:
		a, b := t.args[0], t.args[1]
		h := int64(-1)
		if a.lo >= 0 {
			h = a.hi
		}
		if b.lo >= 0 && (h < 0 || b.hi < h) {
			h = b.hi
		}
		if h >= 0 {
			set(0, h)
		}
	case opOr, opXor:
		a, b := t.args[0], t.args[1]
		if a.lo >= 0 && b.lo >= 0 {
			m := uint64(a.hi | b.hi)
			set(0, int64(uint64(1)<<bits.Len64(m)-1))
		}
	case opExtract:
		a := t.args[0]
		if a.lo >= 0 && uint64(a.hi) <= wmask(t.w) {
			set(a.lo, a.hi)
		}
	case opZext:
		a := t.args[0]
		set(a.lo, a.hi)
	case opSext:
		a := t.args[0]
		if a.w < 64 && a.hi < int64(1)<<(a.w-1) {
			set(a.lo, a.hi)
		} else if t.w == 64 {
			set(-(int64(1) << (a.w - 1)), int64(1)<<(a.w-1)-1)
		}
	case opIte:
		a, b := t.args[1], t.args[2]
		lo, hi := a.lo, a.hi
		if b.lo < lo {
			lo = b.lo
		}
		if b.hi > hi {
			hi = b.hi
		}
		set(lo, hi)
	case opDigit:
		base := t.k >> 32
		if base <= 10 {
			set('0', '0'+int64(base)-1)
		}
	}
}

// plainRange is the interval of a linear form over its atoms' intervals.
func plainRange(k int64, m []Mono, get func(*Term) (int64, int64)) (int64, int64, bool) {
	lo, hi := k, k
	for _, x := range m {
		l, h := x.t.lo, x.t.hi
		if get != nil {
			l, h = get(x.t)
		}
		a, ok1 := mulOv(int64(x.c), l)
		b, ok2 := mulOv(int64(x.c), h)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if a > b {
			a, b = b, a
		}
		lo, ok1 = addOK(lo, a)
		hi, ok2 = addOK(hi, b)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// divOf recognises q = floor(a/d) for a constant d.
func divOf(t *Term) (a *Term, d int64, ok bool) {
	switch t.op {
	case opAshr:
		if t.w == 64 && t.k < 40 {
			return t.args[0], 1 << t.k, true
		}
	case opLshr:
		if t.w == 64 && t.k < 40 && t.args[0].lo >= 0 {
			return t.args[0], 1 << t.k, true
		}
	case opUdiv:
		if b := t.args[1]; t.w == 64 && b.op == opConst && int64(b.k) > 0 && t.args[0].lo >= 0 {
			return t.args[0], int64(b.k), true
		}
	}
	return nil, 0, false
}

// linRange bounds a 64-bit linear form, replacing c*floor(a/d) by (c/d)*(a - rem) with
// 0 <= rem < d where that is tighter (rounding up and down cancels against its argument).
func linRange(k int64, m []Mono, get func(*Term) (int64, int64)) (int64, int64, bool) {
	lo, hi, ok := plainRange(k, m, get)
	if !ok {
		return 0, 0, false
	}
	any := false
	for _, x := range m {
		if _, d, is := divOf(x.t); is && int64(x.c)%d == 0 {
			any = true
			break
		}
	}
	if !any {
		return lo, hi, true
	}
	var elo, ehi int64 // accumulated remainder part
	cur := m
	ck := k
	width := hi - lo
	for round := 0; round < 12; round++ {
		done := true
		for i, x := range cur {
			a, d, is := divOf(x.t)
			if !is || int64(x.c)%d != 0 || a.lo < -(1<<55) || a.hi > 1<<55 {
				continue
			}
			f := int64(x.c) / d
			if f > 1<<30 || f < -(1<<30) {
				continue
			}
			// c*q = f*a - f*rem
			nm := map[*Term]int64{}
			for j, y := range cur {
				if j != i {
					nm[y.t] += int64(y.c)
				}
			}
			nk := ck
			if a.op == opLin {
				nk += f * int64(a.k)
				for _, y := range a.lin {
					nm[y.t] += f * int64(y.c)
				}
			} else {
				nm[a] += f
			}
			r0, r1 := int64(0), -f*(d-1)
			if r0 > r1 {
				r0, r1 = r1, r0
			}
			ms := make([]Mono, 0, len(nm))
			for t, c := range nm {
				if c != 0 {
					ms = append(ms, Mono{uint64(c), t})
				}
			}
			l, h, ok := plainRange(nk, ms, get)
			if !ok {
				continue
			}
			l += elo + r0
			h += ehi + r1
			if l > lo {
				lo = l
			}
			if h < hi {
				hi = h
			}
			if h-l < width {
				width = h - l
				cur, ck = ms, nk
				elo += r0
				ehi += r1
				done = false
				break
			}
		}
		if done {
			break
		}
	}
	return lo, hi, lo <= hi
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *TermCtx) Const(v uint64, w uint8) *Term {
	return c.mk(&Term{op: opConst, w: w, k: v & wmask(w)})
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

// Var creates (or finds) a bit-vector variable of width w.
func (c *TermCtx) Var(name string, w uint8) *Term {
	n := c.next
	t := c.mk(&Term{op: opVar, w: w, name: name})
	if t.id == n {
		c.vars = append(c.vars, t)
	}
	return t
}

func (c *TermCtx) linOf(t *Term) (k uint64, m []Mono) {
	switch t.op {
	case opConst:
		return t.k, nil
	case opLin:
		return t.k, t.lin
	}
	return 0, []Mono{{1, t}}
}

func (c *TermCtx) fromLin(k uint64, m []Mono, w uint8) *Term {
	k &= wmask(w)
	if len(m) == 0 {
		return c.Const(k, w)
	}
	if k == 0 && len(m) == 1 && m[0].c == 1 {
		return m[0].t
	}
	return c.mk(&Term{op: opLin, w: w, k: k, lin: m})
}

func mergeLin(a, b []Mono, cb uint64, w uint8) []Mono {
	out := make([]Mono, 0, len(a)+len(b))
	mask := wmask(w)
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i].t.id < b[j].t.id) {
			out = append(out, a[i])
			i++
		} else if i >= len(a) || b[j].t.id < a[i].t.id {
			cc := (b[j].c * cb) & mask
			if cc != 0 {
				out = append(out, Mono{cc, b[j].t})
			}
			j++
		} else {
			cc := (a[i].c + b[j].c*cb) & mask
			if cc != 0 {
				out = append(out, Mono{cc, a[i].t})
			}
			i++
			j++
		}
	}
	return out
}

func (c *TermCtx) Add(a, b *Term) *Term {
	ka, ma := c.linOf(a)
	kb, mb := c.linOf(b)
	return c.fromLin(ka+kb, mergeLin(ma, mb, 1, a.w), a.w)
}

func (c *TermCtx) Sub(a, b *Term) *Term {
	ka, ma := c.linOf(a)
	kb, mb := c.linOf(b)
	return c.fromLin(ka-kb, mergeLin(ma, mb, ^uint64(0), a.w), a.w)
}

func (c *TermCtx) Neg(a *Term) *Term { return c.Sub(c.Const(0, a.w), a) }

func (c *TermCtx) scale(a *Term, f uint64) *Term {
	ka, ma := c.linOf(a)
	return c.fromLin(ka*f, mergeLin(nil, ma, f, a.w), a.w)
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.op == opConst {
		return c.scale(b, a.k)
	}
	if b.op == opConst {
		return c.scale(a, b.k)
	}
	ka, ma := c.linOf(a)
	kb, mb := c.linOf(b)
	if len(ma)*len(mb) > 36 {
		x, y := a, b
		if x.id > y.id {
			x, y = y, x
		}
		return c.mk(&Term{op: opMul, w: a.w, args: []*Term{x, y}})
	}
	res := c.fromLin(ka*kb, mergeLin(mergeLin(nil, mb, ka, a.w), ma, kb, a.w), a.w)
	for _, x := range ma {
		for _, y := range mb {
			res = c.Add(res, c.scale(c.mulAtoms(x.t, y.t), x.c*y.c))
		}
	}
	return res
}

func (c *TermCtx) mulAtoms(a, b *Term) *Term {
	var fs []*Term
	if a.op == opMul {
		fs = append(fs, a.args...)
	} else {
		fs = append(fs, a)
	}
	if b.op == opMul {
		fs = append(fs, b.args...)
	} else {
		fs = append(fs, b)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return c.mk(&Term{op: opMul, w: a.w, args: fs})
}

// divExact splits a = d*q + r with coefficients of q exact multiples; r keeps the
// residual monomials and the constant residue in [0,d).
func (c *TermCtx) splitDiv(a *Term, d int64) (q, r *Term) {
	k, m := c.linOf(a)
	var mq, mr []Mono
	for _, x := range m {
		cf := sext(x.c, a.w)
		qq := cf / d
		rr := cf % d
		if rr < 0 {
			rr += d
			qq--
		}
		if qq != 0 {
			mq = append(mq, Mono{uint64(qq) & wmask(a.w), x.t})
		}
		if rr != 0 {
			mr = append(mr, Mono{uint64(rr) & wmask(a.w), x.t})
		}
	}
	kk := sext(k, a.w)
	kq := kk / d
	kr := kk % d
	if kr < 0 {
		kr += d
		kq--
	}
	return c.fromLin(uint64(kq), mq, a.w), c.fromLin(uint64(kr), mr, a.w)
}

// floorDiv64 canonicalises floor(a/d) for 64-bit a with known non-overflowing range, d>0.
func (c *TermCtx) floorDiv64(a *Term, d int64) *Term {
	if d == 1 {
		return a
	}
	if a.op == opConst {
		v := int64(a.k)
		q := v / d
		if v%d < 0 {
			q--
		}
		return c.Const(uint64(q), 64)
	}
	fl := func(v int64) int64 {
		q := v / d
		if v%d != 0 && v < 0 {
			q--
		}
		return q
	}
	if fl(a.lo) == fl(a.hi) {
		return c.Const(uint64(fl(a.lo)), 64)
	}
	full := a.lo == math.MinInt64 || a.hi == math.MaxInt64
	if !full {
		k, m := c.linOf(a)
		_ = k
		// negative leading coefficient: floor(-Y/d) = -floor((Y+d-1)/d)
		if len(m) > 0 && int64(m[0].c) < 0 && a.lo > math.MinInt64+d {
			y := c.Neg(a)
			y2 := c.Add(y, c.Const(uint64(d-1), 64))
			if y2.lo > math.MinInt64/2 && y2.hi < math.MaxInt64/2 {
				return c.Neg(c.floorDiv64(y2, d))
			}
		}
		q, r := c.splitDiv(a, d)
		// only valid if q*d + r does not overflow piecewise: ranges must be known
		if (q.op != opConst || q.k != 0) && r.lo > math.MinInt64 && r.hi < math.MaxInt64 && q.lo > math.MinInt64 && q.hi < math.MaxInt64 {
			return c.Add(q, c.floorDiv64(r, d))
		}
	}
	if d&(d-1) == 0 {
		sh := uint64(bits.TrailingZeros64(uint64(d)))
		if a.op == opAshr { // (x>>s1)>>s2
			return c.floorDiv64(a.args[0], d<<a.k)
		}
		return c.mk(&Term{op: opAshr, w: 64, k: sh, args: []*Term{a}})
	}
	if a.lo >= 0 {
		return c.mk(&Term{op: opUdiv, w: 64, args: []*Term{a, c.Const(uint64(d), 64)}})
	}
	// general: floor = (a - ((a mod d + d) mod d))/d ; use sdiv with adjustment
	q := c.mk(&Term{op: opSdiv, w: 64, args: []*Term{a, c.Const(uint64(d), 64)}})
	rem := c.Sub(a, c.scale(q, uint64(d)))
	return c.Ite(c.Slt(rem, c.Const(0, 64)), c.Add(q, c.Const(^uint64(0), 64)), q)
}

func (c *TermCtx) Sdiv(a, b *Term) *Term {
	if a.op == opConst && b.op == opConst && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, a.w)
		if y == -1 {
			return c.Const(uint64(-x), a.w)
		}
		return c.Const(uint64(x/y), a.w)
	}
	if a.w == 64 && b.op == opConst && int64(b.k) > 0 && a.lo >= 0 {
		return c.floorDiv64(a, int64(b.k))
	}
	if a.w == 64 && a.lo >= 0 && b.lo >= 1 {
		return c.Udiv(a, b)
	}
	if a.w < 64 && a.hi < int64(1)<<(a.w-1) && b.hi < int64(1)<<(a.w-1) && b.lo >= 1 {
		return c.Udiv(a, b)
	}
	return c.mk(&Term{op: opSdiv, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Srem(a, b *Term) *Term {
	if a.op == opConst && b.op == opConst && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, a.w)
		if y == -1 {
			return c.Const(0, a.w)
		}
		return c.Const(uint64(x%y), a.w)
	}
	// Go: a - b*(a/b)
	return c.Sub(a, c.Mul(b, c.Sdiv(a, b)))
}

func (c *TermCtx) Udiv(a, b *Term) *Term {
	if a.op == opConst && b.op == opConst && b.k != 0 {
		return c.Const(a.k/b.k, a.w)
	}
	if a.w == 64 && b.op == opConst && int64(b.k) > 0 && a.lo >= 0 {
		return c.floorDiv64(a, int64(b.k))
	}
	if a.w < 64 && b.op == opConst && b.k > 0 {
		if uint64(a.lo)/b.k == uint64(a.hi)/b.k {
			return c.Const(uint64(a.lo)/b.k, a.w)
		}
	}
	// (b*q + r)/b with symbolic b: split monomials containing b
	if a.w == 64 && a.lo >= 0 && b.lo >= 1 && b.op != opConst && b.op != opLin {
		k, m := c.linOf(a)
		var rest []Mono
		q := c.Const(0, 64)
		for _, x := range m {
			if x.t == b {
				q = c.Add(q, c.Const(x.c, 64))
				continue
			}
			if x.t.op == opMul {
				idx := -1
				for i, f := range x.t.args {
					if f == b {
						idx = i
						break
					}
				}
				if idx >= 0 {
					var fs []*Term
					fs = append(fs, x.t.args[:idx]...)
					fs = append(fs, x.t.args[idx+1:]...)
					p := fs[0]
					for _, f := range fs[1:] {
						p = c.mulAtoms(p, f)
					}
					q = c.Add(q, c.scale(p, x.c))
					continue
				}
			}
			rest = append(rest, x)
		}
		if q.op != opConst || q.k != 0 {
			r := c.fromLin(k, rest, 64)
			if r.lo >= 0 && q.lo > math.MinInt64 && q.hi < math.MaxInt64 && r.hi < math.MaxInt64 {
				return c.Add(q, c.Udiv(r, b))
			}
		}
		if a.hi < b.lo {
			return c.Const(0, 64)
		}
	}
	return c.mk(&Term{op: opUdiv, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Urem(a, b *Term) *Term {
	if a.op == opConst && b.op == opConst && b.k != 0 {
		return c.Const(a.k%b.k, a.w)
	}
	if a.w == 64 && a.lo >= 0 && b.lo >= 1 {
		return c.Sub(a, c.Mul(b, c.Udiv(a, b)))
	}
	if a.w < 64 && b.op == opConst && b.k > 0 && uint64(a.hi) < b.k {
		return a
	}
	return c.mk(&Term{op: opUrem, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Shl(a *Term, n uint64) *Term {
	if n >= uint64(a.w) {
		return c.Const(0, a.w)
	}
	return c.scale(a, uint64(1)<<n)
}

func (c *TermCtx) ShlT(a, n *Term) *Term {
	if n.op == opConst {
		return c.Shl(a, n.k)
	}
	return c.mk(&Term{op: opShl, w: a.w, args: []*Term{a, n}})
}

func (c *TermCtx) Lshr(a *Term, n uint64) *Term {
	if n == 0 {
		return a
	}
	if n >= uint64(a.w) {
		return c.Const(0, a.w)
	}
	if a.op == opConst {
		return c.Const(a.k>>n, a.w)
	}
	if a.w == 64 && a.lo >= 0 && n < 63 {
		return c.floorDiv64(a, int64(1)<<n)
	}
	if a.w < 64 && uint64(a.hi)>>n == uint64(a.lo)>>n {
		return c.Const(uint64(a.hi)>>n, a.w)
	}
	return c.mk(&Term{op: opLshr, w: a.w, k: n, args: []*Term{a}})
}

func (c *TermCtx) Ashr(a *Term, n uint64) *Term {
	if n == 0 {
		return a
	}
	if n >= uint64(a.w) {
		n = uint64(a.w) - 1
	}
	if a.op == opConst {
		return c.Const(uint64(sext(a.k, a.w)>>n), a.w)
	}
	if a.w == 64 && n < 62 {
		return c.floorDiv64(a, int64(1)<<n)
	}
	if a.w < 64 && a.hi < int64(1)<<(a.w-1) {
		return c.Lshr(a, n)
	}
	return c.mk(&Term{op: opAshr, w: a.w, k: n, args: []*Term{a}})
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.op == opConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == opConst {
		if a.op == opConst {
			return c.Const(a.k&b.k, a.w)
		}
		if b.k == 0 {
			return b
		}
		if b.k == wmask(a.w) {
			return a
		}
		if a.lo >= 0 && (b.k+1)&b.k == 0 && uint64(a.hi) <= b.k {
			return a
		}
		if a.lo >= 0 && b.k&(uint64(1)<<bits.Len64(uint64(a.hi))-1) == 0 {
			return c.Const(0, a.w)
		}
		if a.w == 64 && (b.k+1)&b.k == 0 && b.k < 1<<62 && a.lo > math.MinInt64 && a.hi < math.MaxInt64 {
			d := int64(b.k + 1)
			return c.Sub(a, c.scale(c.floorDiv64(a, d), uint64(d)))
		}
		// and with high mask: clear low bits
		if a.w == 64 && (^b.k+1)&(^b.k) == 0 && ^b.k < 1<<62 && a.lo > math.MinInt64 && a.hi < math.MaxInt64 {
			d := int64(^b.k + 1)
			return c.scale(c.floorDiv64(a, d), uint64(d))
		}
		if a.op == opAnd && a.args[1].op == opConst {
			return c.And(a.args[0], c.Const(a.args[1].k&b.k, a.w))
		}
		if a.op == opOr {
			x := c.And(a.args[0], b)
			y := c.And(a.args[1], b)
			if x.op == opConst || y.op == opConst || a.args[1].op == opConst {
				return c.Or(x, y)
			}
		}
		if a.op == opZext {
			in := a.args[0]
			return c.Zext(c.And(in, c.Const(b.k, in.w)), a.w)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: opAnd, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.op == opConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == opConst {
		if a.op == opConst {
			return c.Const(a.k|b.k, a.w)
		}
		if b.k == 0 {
			return a
		}
		if b.k == wmask(a.w) {
			return b
		}
		if a.op == opOr && a.args[1].op == opConst {
			return c.Or(a.args[0], c.Const(a.args[1].k|b.k, a.w))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if a.op == opConst {
		a, b = b, a
	}
	// disjoint bits -> addition is canonical, keep Or for simplicity
	return c.mk(&Term{op: opOr, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Xor(a, b *Term) *Term {
	if a.op == opConst {
		a, b = b, a
	}
	if a == b {
		return c.Const(0, a.w)
	}
	if b.op == opConst {
		if a.op == opConst {
			return c.Const(a.k^b.k, a.w)
		}
		if b.k == 0 {
			return a
		}
		if b.k == wmask(a.w) { // not
			return c.Sub(c.Const(wmask(a.w), a.w), a)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: opXor, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) AndNot(a, b *Term) *Term {
	return c.And(a, c.Xor(b, c.Const(wmask(b.w), b.w)))
}

func (c *TermCtx) Extract(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == opConst {
		return c.Const(a.k, w)
	}
	switch a.op {
	case opZext, opSext:
		in := a.args[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return c.Extract(in, w)
		}
		if a.op == opZext {
			return c.Zext(in, w)
		}
		return c.Sext(in, w)
	case opExtract:
		return c.Extract(a.args[0], w)
	case opAnd:
		return c.And(c.Extract(a.args[0], w), c.Extract(a.args[1], w))
	case opOr:
		return c.Or(c.Extract(a.args[0], w), c.Extract(a.args[1], w))
	case opLin:
		// push through when every atom is an extension of something <= w
		ok := true
		for _, m := range a.lin {
			if !((m.t.op == opZext || m.t.op == opSext) && m.t.args[0].w <= w) {
				ok = false
			}
		}
		if ok {
			r := c.Const(a.k, w)
			for _, m := range a.lin {
				r = c.Add(r, c.scale(c.Extract(m.t, w), m.c))
			}
			return r
		}
	case opIte:
		if a.args[1].op == opConst || a.args[2].op == opConst {
			return c.Ite(a.args[0], c.Extract(a.args[1], w), c.Extract(a.args[2], w))
		}
	}
	return c.mk(&Term{op: opExtract, w: w, args: []*Term{a}})
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == opConst {
		return c.Const(a.k, w)
	}
	if a.op == opZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == opExtract {
		in := a.args[0]
		if in.w == w && in.lo >= 0 && uint64(in.hi) <= wmask(a.w) {
			return in
		}
	}
	if a.op == opLin && a.lo >= 0 {
		// distribute when no wrap is possible in the narrow width
		k := sext(a.k, a.w)
		lo, hi := k, k
		for _, m := range a.lin {
			cf := sext(m.c, a.w)
			x, y := cf*m.t.lo, cf*m.t.hi
			if x > y {
				x, y = y, x
			}
			lo += x
			hi += y
		}
		if a.w <= 32 && lo >= 0 && hi <= int64(wmask(a.w)) {
			r := c.Const(uint64(k), w)
			for _, m := range a.lin {
				r = c.Add(r, c.scale(c.Zext(m.t, w), uint64(sext(m.c, a.w))))
			}
			return r
		}
	}
	if a.op == opIte && a.args[1].op == opConst && a.args[2].op == opConst {
		return c.Ite(a.args[0], c.Zext(a.args[1], w), c.Zext(a.args[2], w))
	}
	return c.mk(&Term{op: opZext, w: w, args: []*Term{a}})
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == opConst {
		return c.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.hi < int64(1)<<(a.w-1) {
		return c.Zext(a, w)
	}
	return c.mk(&Term{op: opSext, w: w, args: []*Term{a}})
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond == c.tru || a == b {
		return a
	}
	if cond == c.fls {
		return b
	}
	if a.w == 0 {
		return c.BOr(c.BAnd(cond, a), c.BAnd(c.Not(cond), b))
	}
	return c.mk(&Term{op: opIte, w: a.w, args: []*Term{cond, a, b}})
}

// Digit is the ASCII digit i (0 = least significant) of a in base, when printed with n digits.
func (c *TermCtx) Digit(a *Term, base, i, n int) *Term {
	if a.op == opConst {
		v := a.k
		for ; i > 0; i-- {
			v /= uint64(base)
		}
		return c.Const(uint64("0123456789abcdefghijklmnopqrstuvwxyz"[v%uint64(base)]), 8)
	}
	return c.mk(&Term{op: opDigit, w: 8, k: uint64(base)<<32 | uint64(i)<<16 | uint64(n), args: []*Term{a}})
}

// ---- booleans ----

func (c *TermCtx) Not(a *Term) *Term {
	if a.neg != nil {
		return a.neg
	}
	var r *Term
	switch a.op {
	case opTrue:
		r = c.fls
	case opFalse:
		r = c.tru
	case opBNot:
		r = a.args[0]
	case opUlt:
		r = c.Ule(a.args[1], a.args[0])
	case opUle:
		r = c.Ult(a.args[1], a.args[0])
	case opSlt:
		r = c.Sle(a.args[1], a.args[0])
	case opSle:
		r = c.Slt(a.args[1], a.args[0])
	default:
		r = c.mk(&Term{op: opBNot, args: []*Term{a}})
	}
	a.neg = r
	if r.neg == nil {
		r.neg = a
	}
	return r
}

func (c *TermCtx) BAnd(a, b *Term) *Term {
	if a == c.fls || b == c.fls {
		return c.fls
	}
	if a == c.tru {
		return b
	}
	if b == c.tru || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.fls
	}
	var as []*Term
	add := func(t *Term) {
		if t.op == opBAnd {
			as = append(as, t.args...)
		} else {
			as = append(as, t)
		}
	}
	add(a)
	add(b)
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	out := as[:0]
	for i, t := range as {
		if i > 0 && t == as[i-1] {
			continue
		}
		out = append(out, t)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: opBAnd, args: out})
}

func (c *TermCtx) BOr(a, b *Term) *Term {
	if a == c.tru || b == c.tru {
		return c.tru
	}
	if a == c.fls {
		return b
	}
	if b == c.fls || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.tru
	}
	var as []*Term
	add := func(t *Term) {
		if t.op == opBOr {
			as = append(as, t.args...)
		} else {
			as = append(as, t)
		}
	}
	add(a)
	add(b)
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	out := as[:0]
	for i, t := range as {
		if i > 0 && t == as[i-1] {
			continue
		}
		out = append(out, t)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: opBOr, args: out})
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.w == 0 {
		if a == c.tru {
			return b
		}
		if b == c.tru {
			return a
		}
		if a == c.fls {
			return c.Not(b)
		}
		if b == c.fls {
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Term{op: opEq, args: []*Term{a, b}})
	}
	if a.op == opConst && b.op == opConst {
		return c.Bool(a.k == b.k)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.fls
	}
	if a.op == opLin || b.op == opLin {
		d := c.Sub(a, b)
		if d.op == opConst {
			return c.Bool(d.k == 0)
		}
		if d.lo > 0 || d.hi < 0 {
			return c.fls
		}
		k, m := c.linOf(d)
		if len(m) == 1 && (m[0].c == 1 || m[0].c == wmask(a.w)) {
			kk := (-k) & wmask(a.w)
			if m[0].c != 1 {
				kk = k
			}
			return c.Eq(m[0].t, c.Const(kk, a.w))
		}
		// canonical sign
		if len(m) > 0 && sext(m[0].c, a.w) < 0 {
			d = c.Neg(d)
		}
		return c.mk(&Term{op: opEq, args: []*Term{d, c.Const(0, a.w)}})
	}
	if a.op == opConst {
		a, b = b, a
	}
	if b.op == opConst {
		switch a.op {
		case opZext:
			if b.k > wmask(a.args[0].w) {
				return c.fls
			}
			return c.Eq(a.args[0], c.Const(b.k, a.args[0].w))
		case opIte:
			if a.args[1].op == opConst || a.args[2].op == opConst {
				x, y := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
				return c.BOr(c.BAnd(a.args[0], x), c.BAnd(c.Not(a.args[0]), y))
			}
		}
	} else {
		if a.op == opZext && b.op == opZext && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(&Term{op: opEq, args: []*Term{a, b}})
}

func (c *TermCtx) cmpPrep(a, b *Term) (*Term, *Term, bool) {
	// for 64-bit with known ranges, move everything to canonical difference form
	if a.w != 64 {
		return a, b, false
	}
	if a.op != opLin && b.op != opLin {
		return a, b, false
	}
	if lo, ok := addOK(a.lo, -b.hi); b.hi == math.MinInt64 || !ok || lo == math.MinInt64 {
		return a, b, false
	}
	if hi, ok := addOK(a.hi, -b.lo); b.lo == math.MinInt64 || !ok || hi == math.MaxInt64 {
		return a, b, false
	}
	d := c.Sub(a, b)
	k, m := c.linOf(d)
	// constant on the right; atoms left
	kk := int64(k)
	if kk == math.MinInt64 {
		return a, b, false
	}
	l := c.fromLin(0, m, 64)
	if l.lo == math.MinInt64 || l.hi == math.MaxInt64 {
		return a, b, false
	}
	return l, c.Const(uint64(-kk), 64), true
}

// Slt is signed less-than.
func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.w == 64 {
		if a.hi < b.lo {
			return c.tru
		}
		if a.lo >= b.hi {
			return c.fls
		}
		if l, r, ok := c.cmpPrep(a, b); ok {
			a, b = l, r
			if a.hi < b.lo {
				return c.tru
			}
			if a.lo >= b.hi {
				return c.fls
			}
			// a < const  => a <= const-1 (canonical Sle)
			return c.mkSle(a, c.Const(b.k-1, 64))
		}
		if b.op == opConst {
			return c.mkSle(a, c.Const(b.k-1, 64))
		}
		return c.mk(&Term{op: opSlt, args: []*Term{a, b}})
	}
	half := int64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return c.Ult(a, b)
	}
	if a.op == opConst && b.op == opConst {
		return c.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	return c.mk(&Term{op: opSlt, args: []*Term{a, b}})
}

func (c *TermCtx) mkSle(a, b *Term) *Term {
	// a lin without const, b const. normalise sign: if leading coef negative: -a >= -b
	k, m := c.linOf(a)
	_ = k
	if b.op == opConst && len(m) > 0 && int64(m[0].c) < 0 && a.lo > math.MinInt64+1 {
		// a <= b  <=> -b <= -a
		na := c.Neg(a)
		nb := c.Const(-b.k, 64)
		if len(m) == 1 && na.op != opLin {
			return c.mk(&Term{op: opSle, args: []*Term{nb, na}})
		}
		return c.mk(&Term{op: opSle, args: []*Term{nb, na}})
	}
	return c.mk(&Term{op: opSle, args: []*Term{a, b}})
}

// Sle is signed less-or-equal.
func (c *TermCtx) Sle(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.w == 64 {
		if a.hi <= b.lo {
			return c.tru
		}
		if a.lo > b.hi {
			return c.fls
		}
		if l, r, ok := c.cmpPrep(a, b); ok {
			a, b = l, r
			if a.hi <= b.lo {
				return c.tru
			}
			if a.lo > b.hi {
				return c.fls
			}
		}
		return c.mkSle(a, b)
	}
	half := int64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return c.Ule(a, b)
	}
	if a.op == opConst && b.op == opConst {
		return c.Bool(sext(a.k, a.w) <= sext(b.k, b.w))
	}
	return c.mk(&Term{op: opSle, args: []*Term{a, b}})
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.w == 64 {
		if a.lo >= 0 && b.lo >= 0 {
			return c.Slt(a, b)
		}
		if a.op == opConst && b.op == opConst {
			return c.Bool(a.k < b.k)
		}
		// a possibly negative, b nonneg const: a>=0 && a<b
		if b.lo >= 0 {
			return c.BAnd(c.Sle(c.Const(0, 64), a), c.Slt(a, b))
		}
		return c.mk(&Term{op: opUlt, args: []*Term{a, b}})
	}
	if a.hi < b.lo {
		return c.tru
	}
	if a.lo >= b.hi {
		return c.fls
	}
	if a.op == opZext && b.op == opConst {
		if b.k > wmask(a.args[0].w) {
			return c.tru
		}
		return c.Ult(a.args[0], c.Const(b.k, a.args[0].w))
	}
	if b.op == opZext && a.op == opConst {
		if a.k >= wmask(b.args[0].w) {
			return c.fls
		}
		return c.Ult(c.Const(a.k, b.args[0].w), b.args[0])
	}
	if b.op == opConst && b.k > 0 {
		return c.Ule(a, c.Const(b.k-1, b.w))
	}
	return c.mk(&Term{op: opUlt, args: []*Term{a, b}})
}

func (c *TermCtx) Ule(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.w == 64 {
		if a.lo >= 0 && b.lo >= 0 {
			return c.Sle(a, b)
		}
		if a.op == opConst && b.op == opConst {
			return c.Bool(a.k <= b.k)
		}
		if b.lo >= 0 {
			return c.BAnd(c.Sle(c.Const(0, 64), a), c.Sle(a, b))
		}
		return c.mk(&Term{op: opUle, args: []*Term{a, b}})
	}
	if a.hi <= b.lo {
		return c.tru
	}
	if a.lo > b.hi {
		return c.fls
	}
	if a.op == opZext && b.op == opConst && b.k <= wmask(a.args[0].w) {
		return c.Ule(a.args[0], c.Const(b.k, a.args[0].w))
	}
	if b.op == opZext && a.op == opConst && a.k <= wmask(b.args[0].w) {
		return c.Ule(c.Const(a.k, b.args[0].w), b.args[0])
	}
	// range edges -> equality
	if b.op == opConst && int64(b.k) == a.lo {
		return c.Eq(a, b)
	}
	if a.op == opConst && int64(a.k) == b.hi {
		return c.Eq(a, b)
	}
	return c.mk(&Term{op: opUle, args: []*Term{a, b}})
}

// ---- evaluation under a model ----

type Model map[string]uint64

type Evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func NewEval(m Model) *Evaluator { return &Evaluator{m: m, memo: map[*Term]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.op {
	case opConst:
		return t.k
	case opTrue:
		return 1
	case opFalse:
		return 0
	case opVar, opBVar:
		return e.m[t.name] & maskOrBool(t.w)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval(t)
	e.memo[t] = v
	return v
}

func maskOrBool(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return wmask(w)
}

func (e *Evaluator) eval(t *Term) uint64 {
	m := wmask(t.w)
	a := func(i int) uint64 { return e.Eval(t.args[i]) }
	switch t.op {
	case opLin:
		s := t.k
		for _, x := range t.lin {
			s += x.c * e.Eval(x.t)
		}
		return s & m
	case opMul:
		p := uint64(1)
		for i := range t.args {
			p *= a(i)
		}
		return p & m
	case opUdiv:
		d := a(1)
		if d == 0 {
			return m
		}
		return a(0) / d
	case opUrem:
		d := a(1)
		if d == 0 {
			return a(0)
		}
		return a(0) % d
	case opSdiv:
		x, y := sext(a(0), t.w), sext(a(1), t.w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case opSrem:
		x, y := sext(a(0), t.w), sext(a(1), t.w)
		if y == 0 {
			return uint64(x) & m
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case opShl:
		n := a(1)
		if n >= uint64(t.w) {
			return 0
		}
		return (a(0) << n) & m
	case opLshr:
		return a(0) >> t.k
	case opAshr:
		return uint64(sext(a(0), t.w)>>t.k) & m
	case opAnd:
		return a(0) & a(1)
	case opOr:
		return a(0) | a(1)
	case opXor:
		return a(0) ^ a(1)
	case opExtract:
		return a(0) & m
	case opZext:
		return a(0)
	case opSext:
		return uint64(sext(a(0), t.args[0].w)) & m
	case opIte:
		if a(0) != 0 {
			return a(1)
		}
		return a(2)
	case opDigit:
		v := a(0)
		base := t.k >> 32
		i := (t.k >> 16) & 0xffff
		for ; i > 0; i-- {
			v /= base
		}
		return '0' + v%base
	case opEq:
		return b2u(a(0) == a(1))
	case opUlt:
		return b2u(a(0) < a(1))
	case opUle:
		return b2u(a(0) <= a(1))
	case opSlt:
		w := t.args[0].w
		return b2u(sext(a(0), w) < sext(a(1), w))
	case opSle:
		w := t.args[0].w
		return b2u(sext(a(0), w) <= sext(a(1), w))
	case opBAnd:
		for i := range t.args {
			if a(i) == 0 {
				return 0
			}
		}
		return 1
	case opBOr:
		for i := range t.args {
			if a(i) != 0 {
				return 1
			}
		}
		return 0
	case opBNot:
		return 1 - a(0)
	}
	panic(fmt.Sprintf("eval: op %d", t.op))
}

// ---- printing (debug) ----

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

var opNames = map[Op]string{opMul: "*", opUdiv: "/u", opUrem: "%u", opSdiv: "/s", opSrem: "%s", opShl: "<<", opAnd: "&", opOr: "|", opXor: "^", opIte: "ite", opEq: "=", opUlt: "<u", opUle: "<=u", opSlt: "<", opSle: "<=", opBAnd: "and", opBOr: "or", opBNot: "not", opZext: "zext", opSext: "sext", opExtract: "ext", opLshr: ">>u", opAshr: ">>", opDigit: "digit"}

func (t *Term) str(sb *strings.Builder, d int) {
	if d > 12 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case opConst:
		fmt.Fprintf(sb, "%d", sext(t.k, t.w))
	case opTrue:
		sb.WriteString("true")
	case opFalse:
		sb.WriteString("false")
	case opVar, opBVar:
		sb.WriteString(t.name)
	case opLin:
		sb.WriteString("(+")
		if t.k != 0 {
			fmt.Fprintf(sb, " %d", sext(t.k, t.w))
		}
		for _, m := range t.lin {
			fmt.Fprintf(sb, " %d*", sext(m.c, t.w))
			m.t.str(sb, d+1)
		}
		sb.WriteString(")")
	default:
		fmt.Fprintf(sb, "(%s", opNames[t.op])
		if t.op == opLshr || t.op == opAshr || t.op == opExtract || t.op == opZext || t.op == opSext {
			fmt.Fprintf(sb, ":%d/%d", t.w, t.k)
		}
		if t.op == opDigit {
			fmt.Fprintf(sb, ":%d", (t.k>>16)&0xffff)
		}
		for _, a := range t.args {
			sb.WriteString(" ")
			a.str(sb, d+1)
		}
		sb.WriteString(")")
	}
}
