package main

import (
	"fmt"
	"go/types"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

// seg is a run of file bytes: either explicit cells or a fill of symbolic length.
type seg struct {
	b   []byte
	t   []*Term // nil or same length as b
	n   *Term   // fill length (64-bit); nil for explicit cells
	val byte
	tag *Term
	lim *Term // explicit cells of which only the first lim (symbolic, lo <= lim < len(b)) exist
	lo  int
}

type rope struct {
	segs []seg
}

func (r *rope) clone() *rope { return &rope{segs: append([]seg(nil), r.segs...)} }

func (p *Path) segLen(s *seg) *Term {
	if s.n != nil {
		return s.n
	}
	if s.lim != nil {
		return s.lim
	}
	return p.tc.Const(uint64(len(s.b)), 64)
}

// fix makes the extent of a cut-off segment concrete.
func (s *seg) fix(p *Path) {
	if s.lim == nil {
		return
	}
	o := int(p.concretize(s.lim))
	s.b = s.b[:o:o]
	if s.t != nil {
		s.t = s.t[:o:o]
	}
	s.lim = nil
}

// cut truncates explicit cells at a symbolic offset: inside a run of equal bytes the rest is a fill
// of symbolic length, elsewhere the extent of a small stretch of cells stays symbolic.
func (r *rope) cut(p *Path, i int, off *Term) {
	tc := p.tc
	s := r.segs[i]
	type part struct {
		u, v int
		fill bool
	}
	var parts []part
	for k := 0; k < len(s.b); {
		j := k + 1
		if s.t == nil || s.t[k] == nil {
			for j < len(s.b) && s.b[j] == s.b[k] && (s.t == nil || s.t[j] == nil) {
				j++
			}
		}
		if j-k >= 48 {
			parts = append(parts, part{k, j, true})
		} else if n := len(parts); n > 0 && !parts[n-1].fill && j-parts[n-1].u <= 512 {
			parts[n-1].v = j
		} else {
			parts = append(parts, part{k, j, false})
		}
		k = j
	}
	lo, hi := 0, len(parts)
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if p.branch(tc.Slt(off, tc.Const(uint64(parts[m].u), 64))) {
			hi = m
		} else {
			lo = m
		}
	}
	x := parts[lo]
	ns := append([]seg(nil), r.segs[:i]...)
	head := seg{b: s.b[:x.u:x.u]}
	if s.t != nil {
		head.t = s.t[:x.u:x.u]
	}
	if x.u > 0 {
		ns = append(ns, head)
	}
	n := tc.Sub(off, tc.Const(uint64(x.u), 64))
	if x.fill {
		ns = append(ns, seg{n: n, val: s.b[x.u]})
	} else {
		t := seg{b: s.b[x.u:x.v:x.v], lim: n}
		if s.t != nil {
			t.t = s.t[x.u:x.v:x.v]
		}
		ns = append(ns, t)
	}
	r.segs = ns
}

func (r *rope) size(p *Path) *Term {
	n := p.tc.Const(0, 64)
	for i := range r.segs {
		n = p.tc.Add(n, p.segLen(&r.segs[i]))
	}
	return n
}

// split makes pos a segment boundary and returns the index of the segment starting there.
func (r *rope) split(p *Path, pos *Term) int {
	tc := p.tc
	start := tc.Const(0, 64)
	for i := range r.segs {
		if start == pos {
			return i
		}
		s := r.segs[i]
		end := tc.Add(start, p.segLen(&s))
		if end == pos {
			return i + 1
		}
		if s.lim != nil {
			s.fix(p)
			r.segs[i] = s
			end = tc.Add(start, p.segLen(&s))
			if end == pos {
				return i + 1
			}
		}
		off := tc.Sub(pos, start)
		// is pos inside [start,end)?
		if p.branch(tc.Slt(pos, end)) {
			if off.op != opConst && p.branch(tc.Eq(off, tc.Const(0, 64))) {
				return i
			}
			var a, b seg
			if s.n != nil {
				a, b = s, s
				a.n = off
				b.n = tc.Sub(s.n, off)
			} else {
				o := int(p.concretize(off))
				a.b, b.b = s.b[:o:o], s.b[o:]
				if s.t != nil {
					a.t, b.t = s.t[:o:o], s.t[o:]
				}
			}
			var ns []seg
			ns = append(ns, r.segs[:i]...)
			ns = append(ns, a, b)
			ns = append(ns, r.segs[i+1:]...)
			r.segs = ns
			return i + 1
		}
		start = end
	}
	return len(r.segs)
}

func (r *rope) add(p *Path, s seg) {
	if s.lim != nil {
		r.segs = append(r.segs, s)
		return
	}
	if s.n == nil && len(s.b) == 0 {
		return
	}
	if s.n != nil && s.n.op == opConst {
		if s.n.k == 0 {
			return
		}
		if s.n.k <= 4096 {
			// materialise short fills
			b := make([]byte, s.n.k)
			var t []*Term
			if s.tag != nil {
				t = make([]*Term, len(b))
				for i := range t {
					t[i] = s.tag
				}
			} else {
				for i := range b {
					b[i] = s.val
				}
			}
			s = seg{b: b, t: t}
		}
	}
	if len(r.segs) > 0 {
		l := &r.segs[len(r.segs)-1]
		if l.n != nil && s.n != nil && l.val == s.val && l.tag == s.tag {
			ns := *l
			ns.n = p.tc.Add(l.n, s.n)
			r.segs[len(r.segs)-1] = ns
			return
		}
		if l.n == nil && s.n == nil && l.lim == nil && s.lim == nil {
			ns := seg{b: append(append(make([]byte, 0, len(l.b)+len(s.b)), l.b...), s.b...)}
			if l.t != nil || s.t != nil {
				ns.t = make([]*Term, len(ns.b))
				copy(ns.t, l.t)
				copy(ns.t[len(l.b):], s.t)
			}
			if len(ns.b) <= 65536 {
				r.segs[len(r.segs)-1] = ns
				return
			}
		}
	}
	r.segs = append(r.segs, s)
}

// fromSlice converts a byte slice into segments.
func (p *Path) sliceToSegs(v Value) []seg {
	if v.P == nil {
		return nil
	}
	s := v.P.(*SliceV)
	a := s.arr.(*ByteArr)
	if len(a.runs) > 0 || s.lnT != nil {
		if s.lnT == nil && s.ln == 0 {
			return nil
		}
		if val, tag, ok := p.fillOf(s); ok {
			n := p.tc.Const(uint64(s.ln), 64)
			if s.lnT != nil {
				n = s.lnT
			}
			return []seg{{n: n, val: val, tag: tag}}
		}
	}
	var lim *Term
	if s.lnT != nil && s.lnT.op != opConst && len(a.runs) == 0 && a.src == nil {
		if _, hi := p.rng(s.lnT, 4); hi <= 4096 && int(hi) <= s.cp {
			lim = s.lnT
			v = Value{P: &SliceV{arr: a, off: s.off, ln: int(hi), cp: s.cp}}
		}
	}
	x := p.bytesOf(v)
	sym := false
	for _, t := range x.t {
		if t != nil {
			sym = true
			break
		}
	}
	if !sym {
		x.t = nil
	}
	return []seg{{b: x.b, t: x.t, lim: lim}}
}

func (p *Path) segsLen(ss []seg) *Term {
	n := p.tc.Const(0, 64)
	for i := range ss {
		n = p.tc.Add(n, p.segLen(&ss[i]))
	}
	return n
}

// write stores segments at pos (pos may lie past the end: zero-filled gap).
func (r *rope) write(p *Path, pos *Term, ss []seg) {
	tc := p.tc
	sz := r.size(p)
	if pos == sz {
		for _, s := range ss {
			r.add(p, s)
		}
		return
	}
	if p.branch(tc.Slt(sz, pos)) {
		gap := tc.Sub(pos, sz)
		r.add(p, seg{n: gap})
		for _, s := range ss {
			r.add(p, s)
		}
		return
	}
	n := p.segsLen(ss)
	i := r.split(p, pos)
	end := tc.Add(pos, n)
	j := len(r.segs)
	if end != sz && p.branch(tc.Slt(end, sz)) {
		j = r.split(p, end)
	}
	old := r.segs
	r.segs = append([]seg(nil), old[:i]...)
	for _, s := range ss {
		r.add(p, s)
	}
	for _, s := range old[j:] {
		r.add(p, s)
	}
}

func (r *rope) truncate(p *Path, n *Term) {
	sz := r.size(p)
	if n == sz {
		return
	}
	if p.branch(p.tc.Slt(sz, n)) {
		r.add(p, seg{n: p.tc.Sub(n, sz)})
		return
	}
	if n.op != opConst {
		start := p.tc.Const(0, 64)
		for i := range r.segs {
			s := &r.segs[i]
			end := p.tc.Add(start, p.segLen(s))
			if s.n == nil && s.lim == nil && start.op == opConst && p.branch(p.tc.Slt(n, end)) {
				r.cut(p, i, p.tc.Sub(n, start))
				return
			}
			if s.n != nil || s.lim != nil {
				break
			}
			start = end
		}
	}
	i := r.split(p, n)
	r.segs = r.segs[:i:i]
}

// readInto reads from pos into dst and returns the count (possibly short at segment borders of
// symbolic length).
func (r *rope) readInto(p *Path, pos *Term, dst Value) *Term {
	tc := p.tc
	zero := tc.Const(0, 64)
	if dst.P == nil {
		return zero
	}
	d := dst.P.(*SliceV)
	da := d.arr.(*ByteArr)
	// locate
	start := zero
	i := 0
	var off *Term
	for ; i < len(r.segs); i++ {
		end := tc.Add(start, p.segLen(&r.segs[i]))
		if p.branch(tc.Slt(pos, end)) {
			off = tc.Sub(pos, start)
			break
		}
		start = end
	}
	if i == len(r.segs) {
		return zero
	}
	if da.src != nil {
		l := int(p.concretize(da.lo)) + d.off
		c := *d
		c.arr, c.off, c.cp = da.src.arr, da.src.off+l, d.cp-l
		if c.ln > c.cp {
			c.ln = c.cp
		}
		if c.lnT != nil {
			c.ln, c.lnT = int(p.concretize(c.lnT)), nil
		}
		return r.readInto(p, pos, Value{P: &c})
	}
	dlen := tc.Const(uint64(d.ln), 64)
	if d.lnT != nil {
		dlen = d.lnT
	}
	done := zero // total read
	doff := d.off
	for ; i < len(r.segs); i++ {
		s := &r.segs[i]
		rest := tc.Sub(dlen, done)
		if rest.op == opConst && rest.k == 0 {
			break
		}
		if s.lim != nil {
			o := int(p.concretize(off))
			m := len(s.b) - o
			if rest.op == opConst && int64(m) > int64(rest.k) {
				m = int(rest.k)
			}
			avail := tc.Sub(s.lim, tc.Const(uint64(o), 64))
			whole := rest.op == opConst && p.branch(tc.Sle(rest, avail))
			if !whole && done != zero {
				return done
			}
			x := &SymStr{b: append([]byte(nil), s.b[o:o+m]...), t: make([]*Term, m)}
			if s.t != nil {
				copy(x.t, s.t[o:o+m])
			}
			if whole {
				p.writeBytes(da, doff, x)
				return tc.Add(done, rest)
			}
			if len(da.runs) > 0 || rest.op != opConst {
				ns := r.segs[i]
				ns.fix(p)
				r.segs[i] = ns
				return r.readInto(p, pos, dst)
			}
			old := p.bytesOf(Value{P: &SliceV{arr: da, off: doff, ln: m, cp: m}})
			for k := 0; k < m; k++ {
				a, b := x.t[k], old.t[k]
				if a == nil {
					a = tc.Const(uint64(x.b[k]), 8)
				}
				if b == nil {
					b = tc.Const(uint64(old.b[k]), 8)
				}
				if a == b {
					continue
				}
				x.b[k] = 0
				x.t[k] = tc.Ite(tc.Slt(tc.Const(uint64(k), 64), avail), a, b)
			}
			p.writeBytes(da, doff, x)
			p.refine(avail, 1, int64(m))
			return avail
		}
		if s.n == nil {
			o := int(p.concretize(off))
			m := len(s.b) - o
			if rest.op == opConst {
				if int64(m) > int64(rest.k) {
					m = int(rest.k)
				}
			} else if !p.branch(tc.Sle(tc.Const(uint64(m), 64), rest)) {
				m = int(p.concretize(rest))
			}
			x := &SymStr{b: s.b[o : o+m]}
			if s.t != nil {
				x.t = s.t[o : o+m]
			}
			p.writeBytes(da, doff, x)
			doff += m
			done = tc.Add(done, tc.Const(uint64(m), 64))
			if o+m < len(s.b) {
				break
			}
			off = zero
			continue
		}
		avail := tc.Sub(s.n, off)
		n := rest
		full := true
		if p.branch(tc.Slt(avail, rest)) {
			n = avail
			full = false
		}
		if n.op == opConst {
			m := int(n.k)
			x := &SymStr{b: make([]byte, m)}
			if s.tag != nil {
				x.t = make([]*Term, m)
				for k := range x.t {
					x.t[k] = s.tag
				}
			} else if s.val != 0 {
				for k := range x.b {
					x.b[k] = s.val
				}
			}
			p.writeBytes(da, doff, x)
			doff += m
			done = tc.Add(done, n)
		} else {
			// a symbolic-length run is returned by a read of its own (short reads at its borders)
			if done != zero {
				return done
			}
			p.wrCheck(da)
			da.runs = append(da.runs, fillRun{start: doff, n: n, val: s.val, tag: s.tag})
			done = tc.Add(done, n)
			if done.op == opConst {
				full = true
			}
			return done
		}
		if full {
			break
		}
		off = zero
	}
	return done
}

// ropeEq: a and b have equal bytes over their whole length (lengths must be equal too).
func (p *Path) ropePrefix(a, b *rope) *Term {
	tc := p.tc
	x, y := a.clone(), b.clone()
	for i := range x.segs {
		x.segs[i].fix(p)
	}
	for i := range y.segs {
		y.segs[i].fix(p)
	}
	res := tc.tru
	for len(x.segs) > 0 {
		sx := x.segs[0]
		lx := p.segLen(&sx)
		if lx.op != opConst || lx.k > 0 {
			if lx.op != opConst && p.branch(tc.Eq(lx, tc.Const(0, 64))) {
				x.segs = x.segs[1:]
				continue
			}
		} else {
			x.segs = x.segs[1:]
			continue
		}
		if len(y.segs) == 0 {
			return tc.fls
		}
		sy := y.segs[0]
		ly := p.segLen(&sy)
		if ly.op != opConst && p.branch(tc.Eq(ly, tc.Const(0, 64))) {
			y.segs = y.segs[1:]
			continue
		}
		if ly.op == opConst && ly.k == 0 {
			y.segs = y.segs[1:]
			continue
		}
		// cut both to the common length
		var n *Term
		if lx == ly {
			n = lx
		} else if p.branch(tc.Slt(lx, ly)) {
			n = lx
			y.split(p, n)
			sy = y.segs[0]
		} else {
			n = ly
			if !p.branch(tc.Eq(lx, ly)) {
				x.split(p, n)
				sx = x.segs[0]
			}
		}
		x.segs = x.segs[1:]
		y.segs = y.segs[1:]
		if sx.n != nil && sy.n != nil {
			vx, vy := tc.Const(uint64(sx.val), 8), tc.Const(uint64(sy.val), 8)
			if sx.tag != nil {
				vx = sx.tag
			}
			if sy.tag != nil {
				vy = sy.tag
			}
			res = tc.BAnd(res, tc.Eq(vx, vy))
			continue
		}
		m := int(p.concretize(n))
		cx, cy := p.segCells(&sx, m), p.segCells(&sy, m)
		res = tc.BAnd(res, p.strEq(Value{P: cx}, Value{P: cy}))
		if res == tc.fls {
			return res
		}
	}
	return res
}

func (p *Path) segCells(s *seg, m int) *SymStr {
	x := &SymStr{b: make([]byte, m), t: make([]*Term, m)}
	if s.n == nil {
		copy(x.b, s.b)
		copy(x.t, s.t)
		return x
	}
	for i := 0; i < m; i++ {
		x.b[i] = s.val
		x.t[i] = s.tag
	}
	return x
}

// cellSet is the set of values of a byte cell which this path allows, as far as it is easily known.
func (p *Path) cellSet(b byte, t *Term, memo map[*Term]*[4]uint64) [4]uint64 {
	var r [4]uint64
	if t == nil {
		r[b>>6] |= 1 << (b & 63)
		return r
	}
	if m := memo[t]; m != nil {
		return *m
	}
	if t.sv == nil || t.sv.w > 8 {
		r = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	} else {
		d := p.domain(t.sv)
		e := Evaluator{m: Model{}, memo: map[*Term]uint64{}}
		for x := uint64(0); x <= wmask(t.sv.w); x++ {
			if d[x>>6]>>(x&63)&1 != 0 {
				e.m[t.sv.name] = x
				clear(e.memo)
				v := e.Eval(t) & 255
				r[v>>6] |= 1 << (v & 63)
			}
		}
	}
	memo[t] = &r
	return r
}

// ropeContains is the condition that the byte string occurs in explicit cells of the rope.
func (p *Path) ropeContains(r *rope, s *SymStr) *Term {
	res := p.tc.fls
	memo := map[*Term]*[4]uint64{}
	sets := make([][4]uint64, len(s.b))
	for j := range s.b {
		sets[j] = p.cellSet(s.b[j], s.t[j], memo)
	}
	for i := range r.segs {
		r.segs[i].fix(p)
		sg := &r.segs[i]
		if sg.n != nil {
			if sg.tag == nil && len(s.b) > 0 {
				// a fill can only contain a constant string
				all := true
				for j := range s.b {
					if s.t[j] != nil || s.b[j] != sg.val {
						all = false
					}
				}
				if all {
					res = p.tc.BOr(res, p.tc.Sle(p.tc.Const(uint64(len(s.b)), 64), sg.n))
				}
			}
			continue
		}
		x := &SymStr{b: sg.b, t: sg.t}
		if x.t == nil {
			x.t = make([]*Term, len(x.b))
		}
	pos:
		for o := 0; o+len(s.b) <= len(x.b); o++ {
			// only positions whose cells can be equal
			for j := range s.b {
				if x.t[o+j] == nil {
					if c := x.b[o+j]; sets[j][c>>6]>>(c&63)&1 == 0 {
						continue pos
					}
					continue
				}
				y := p.cellSet(0, x.t[o+j], memo)
				if y[0]&sets[j][0]|y[1]&sets[j][1]|y[2]&sets[j][2]|y[3]&sets[j][3] == 0 {
					continue pos
				}
			}
			eq := p.tc.tru
			for j := range s.b {
				eq = p.tc.BAnd(eq, p.tc.Eq(p.symCell(x, o+j), p.symCell(s, j)))
			}
			if res = p.tc.BOr(res, eq); res == p.tc.tru {
				return res
			}
		}
	}
	return res
}

// ---- file system ----

type vnode struct {
	dir   bool
	data  *rope
	mode  uint32
	mtime int64
	kids  map[string]*vnode
	name  string
	link  string
	null  bool // /dev/null
}

type VFS struct {
	root *vnode
	tmpN int
}

func newVFS() *VFS {
	v := &VFS{root: &vnode{dir: true, kids: map[string]*vnode{}, mode: 0755, name: "/"}}
	v.mkdirAll("/tmp")
	v.mkdirAll("/dev")
	v.root.kids["dev"].kids["null"] = &vnode{data: &rope{}, mode: 0666, name: "null", null: true}
	return v
}

func (v *VFS) mkdirAll(d string) {
	n := v.root
	for _, c := range strings.Split(strings.Trim(path.Clean(d), "/"), "/") {
		if c == "" {
			continue
		}
		k := n.kids[c]
		if k == nil {
			k = &vnode{dir: true, kids: map[string]*vnode{}, mode: 0755, name: c}
			n.kids[c] = k
		}
		n = k
	}
}

func absPath(s string) string {
	if !strings.HasPrefix(s, "/") {
		s = "/cwd/" + s
	}
	return path.Clean(s)
}

func (v *VFS) lookup(s string) (*vnode, syscall.Errno) {
	if s == "" {
		return nil, syscall.ENOENT
	}
	n := v.root
	for _, c := range strings.Split(strings.Trim(absPath(s), "/"), "/") {
		if c == "" {
			continue
		}
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		n = n.kids[c]
		if n == nil {
			return nil, syscall.ENOENT
		}
	}
	return n, 0
}

func (v *VFS) parent(s string) (*vnode, string, syscall.Errno) {
	a := absPath(s)
	n, e := v.lookup(path.Dir(a))
	if e != 0 {
		return nil, "", e
	}
	if !n.dir {
		return nil, "", syscall.ENOTDIR
	}
	return n, path.Base(a), 0
}

func (v *VFS) file(s string) *vnode {
	n, e := v.lookup(s)
	if e != 0 || n.dir {
		return nil
	}
	return n
}

// vhandle is an open file.
type vhandle struct {
	n      *vnode
	name   string
	pos    *Term
	flag   int
	closed bool
	dirPos int
}

func (fr *Frame) errno(op, pth string, e syscall.Errno) Value {
	eng := fr.p.eng
	pe := eng.namedType("io/fs", "PathError")
	ptr, s := eng.alloc(pe)
	s.F[0] = vStr(op)
	s.F[1] = vStr(pth)
	s.F[2] = eng.ifaceOf(eng.namedType("syscall", "Errno"), vUint(uint64(e)))
	return eng.ifaceOf(types.NewPointer(pe), ptr)
}

func (fr *Frame) pathErr(op, pth string, inner Value) Value {
	eng := fr.p.eng
	pe := eng.namedType("io/fs", "PathError")
	ptr, s := eng.alloc(pe)
	s.F[0] = vStr(op)
	s.F[1] = vStr(pth)
	s.F[2] = inner
	return eng.ifaceOf(types.NewPointer(pe), ptr)
}

func (fr *Frame) globalVal(pkg, name string) Value {
	sp := fr.p.eng.ld.SSA[pkg]
	if sp == nil {
		return Value{}
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return Value{}
	}
	return fr.p.globalBox(fr.p.eng.Glob(g)).F[0]
}

func (fr *Frame) newFile(h *vhandle) Value {
	eng := fr.p.eng
	ft := eng.namedType("os", "File")
	ptr, s := eng.alloc(ft)
	inner := &StructV{F: []Value{zeroValue(eng.namedType("os", "file"))}}
	s.F[0] = Value{P: inner}
	hs, _ := fr.p.exts["files"].(map[any]*vhandle)
	if hs == nil {
		hs = map[any]*vhandle{}
		fr.p.exts["files"] = hs
	}
	hs[inner] = h
	return ptr
}

func (fr *Frame) handle(v Value) *vhandle {
	if v.P == nil {
		return nil
	}
	hs, _ := fr.p.exts["files"].(map[any]*vhandle)
	s := structOf(v)
	return hs[s.F[0].P]
}

func (fr *Frame) fileInfo(n *vnode, name string) Value {
	p := fr.p
	eng := p.eng
	t := eng.namedType("os", "fileStat")
	ptr, s := eng.alloc(t)
	s.F[fieldIdx(t, "name")] = vStr(path.Base(absPath(name)))
	m := uint64(n.mode)
	if n.dir {
		m |= uint64(fs.ModeDir)
		s.F[fieldIdx(t, "size")] = vInt(4096)
	} else {
		s.F[fieldIdx(t, "size")] = vTerm(n.data.size(p))
	}
	if n.null {
		m |= uint64(fs.ModeDevice | fs.ModeCharDevice)
	}
	s.F[fieldIdx(t, "mode")] = vUint(m)
	s.F[fieldIdx(t, "modTime")] = p.mkTime(n.mtime, 0)
	si := fieldIdx(t, "sys")
	st := s.F[si].P.(*StructV)
	stt := eng.namedType("syscall", "Stat_t")
	um := uint64(n.mode & 0777)
	if n.dir {
		um |= syscall.S_IFDIR
	} else if n.null {
		um |= syscall.S_IFCHR
	} else {
		um |= syscall.S_IFREG
	}
	st.F[fieldIdx(stt, "Mode")] = vUint(um)
	st.F[fieldIdx(stt, "Nlink")] = vUint(1)
	return eng.ifaceOf(types.NewPointer(t), ptr)
}

// open implements os.OpenFile.
func (fr *Frame) open(name string, flag int, perm uint32) (Value, Value) {
	p := fr.p
	v := p.vfs
	fail := func(e syscall.Errno) (Value, Value) { return Value{}, fr.errno("open", name, e) }
	n, e := v.lookup(name)
	if e != 0 && e != syscall.ENOENT {
		return fail(e)
	}
	if n == nil {
		if flag&syscall.O_CREAT == 0 {
			return fail(syscall.ENOENT)
		}
		d, b, e := v.parent(name)
		if e != 0 {
			return fail(e)
		}
		n = &vnode{data: &rope{}, mode: perm & 0777 &^ 022, name: b}
		p.clock++
		n.mtime = p.clock
		d.kids[b] = n
	} else {
		if flag&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			return fail(syscall.EEXIST)
		}
		if n.dir && flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			return fail(syscall.EISDIR)
		}
		if flag&syscall.O_TRUNC != 0 && !n.dir {
			n.data = &rope{}
		}
	}
	return fr.newFile(&vhandle{n: n, name: name, pos: p.tc.Const(0, 64), flag: flag}), Value{}
}

func readable(flag int) bool { return flag&3 == syscall.O_RDONLY || flag&3 == syscall.O_RDWR }
func writable(flag int) bool { return flag&3 == syscall.O_WRONLY || flag&3 == syscall.O_RDWR }

func init() {
	reg("os.Open", func(fr *Frame, a []Value) Value {
		f, e := fr.open(fr.str(a[0], "path"), 0, 0)
		return vTuple(f, e)
	})
	reg("os.Create", func(fr *Frame, a []Value) Value {
		f, e := fr.open(fr.str(a[0], "path"), syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC, 0666)
		return vTuple(f, e)
	})
	reg("os.OpenFile", func(fr *Frame, a []Value) Value {
		f, e := fr.open(fr.str(a[0], "path"), int(fr.p.conc1(a[1])), uint32(fr.p.conc1(a[2])))
		return vTuple(f, e)
	})
	// The only system calls are the ones of pkg/mtio, on drives which are no tapes
	reg("syscall.Syscall", func(fr *Frame, a []Value) Value {
		return vTuple(vUint(^uint64(0)), vUint(0), vUint(uint64(syscall.ENOTTY)))
	})
	reg("os.NewFile", func(fr *Frame, a []Value) Value { return Value{} })
	stat := func(op string) Intrinsic {
		return func(fr *Frame, a []Value) Value {
			s := fr.str(a[0], "path")
			n, e := fr.p.vfs.lookup(s)
			if e != 0 {
				return vTuple(Value{}, fr.errno(op, s, e))
			}
			return vTuple(fr.fileInfo(n, s), Value{})
		}
	}
	reg("os.Stat", stat("stat"))
	reg("os.Lstat", stat("lstat"))
	reg("os.Mkdir", func(fr *Frame, a []Value) Value {
		s := fr.str(a[0], "path")
		if n, _ := fr.p.vfs.lookup(s); n != nil {
			return fr.errno("mkdir", s, syscall.EEXIST)
		}
		d, b, e := fr.p.vfs.parent(s)
		if e != 0 {
			return fr.errno("mkdir", s, e)
		}
		d.kids[b] = &vnode{dir: true, kids: map[string]*vnode{}, mode: uint32(fr.p.conc1(a[1])) & 0777, name: b}
		return Value{}
	})
	reg("os.MkdirAll", func(fr *Frame, a []Value) Value {
		s := fr.str(a[0], "path")
		n := fr.p.vfs.root
		for _, c := range strings.Split(strings.Trim(absPath(s), "/"), "/") {
			if c == "" {
				continue
			}
			if !n.dir {
				return fr.errno("mkdir", s, syscall.ENOTDIR)
			}
			k := n.kids[c]
			if k == nil {
				k = &vnode{dir: true, kids: map[string]*vnode{}, mode: 0755, name: c}
				n.kids[c] = k
			}
			n = k
		}
		if !n.dir {
			return fr.errno("mkdir", s, syscall.ENOTDIR)
		}
		return Value{}
	})
	remove := func(fr *Frame, s string, all bool) Value {
		n, e := fr.p.vfs.lookup(s)
		if e != 0 {
			if all {
				return Value{}
			}
			return fr.errno("remove", s, e)
		}
		if !all && n.dir && len(n.kids) > 0 {
			return fr.errno("remove", s, syscall.ENOTEMPTY)
		}
		d, b, _ := fr.p.vfs.parent(s)
		delete(d.kids, b)
		return Value{}
	}
	reg("os.Remove", func(fr *Frame, a []Value) Value { return remove(fr, fr.str(a[0], ""), false) })
	reg("os.RemoveAll", func(fr *Frame, a []Value) Value { return remove(fr, fr.str(a[0], ""), true) })
	reg("os.Rename", func(fr *Frame, a []Value) Value {
		o, n := fr.str(a[0], ""), fr.str(a[1], "")
		nd, e := fr.p.vfs.lookup(o)
		if e != 0 {
			return fr.errno("rename", o, e)
		}
		d2, b2, e := fr.p.vfs.parent(n)
		if e != 0 {
			return fr.errno("rename", n, e)
		}
		d1, b1, _ := fr.p.vfs.parent(o)
		delete(d1.kids, b1)
		d2.kids[b2] = nd
		return Value{}
	})
	reg("os.Truncate", func(fr *Frame, a []Value) Value {
		s := fr.str(a[0], "")
		n, e := fr.p.vfs.lookup(s)
		if e != 0 {
			return fr.errno("truncate", s, e)
		}
		n.data.truncate(fr.p, fr.p.term(a[1], 64))
		return Value{}
	})
	reg("os.Chmod", retZero)
	reg("os.Chown", retZero)
	reg("os.Chtimes", retZero)
	reg("os.TempDir", func(fr *Frame, a []Value) Value { return vStr("/tmp") })
	reg("os.Getwd", func(fr *Frame, a []Value) Value { return vTuple(vStr("/cwd"), Value{}) })
	reg("os.UserHomeDir", func(fr *Frame, a []Value) Value { return vTuple(vStr("/root"), Value{}) })
	tmp := func(fr *Frame, dir, pat string) string {
		if dir == "" {
			dir = "/tmp"
		}
		fr.p.vfs.tmpN++
		s := fmt.Sprintf("%08d", fr.p.vfs.tmpN)
		if i := strings.LastIndexByte(pat, '*'); i >= 0 {
			return path.Join(dir, pat[:i]+s+pat[i+1:])
		}
		return path.Join(dir, pat+s)
	}
	reg("os.CreateTemp", func(fr *Frame, a []Value) Value {
		f, e := fr.open(tmp(fr, fr.str(a[0], ""), fr.str(a[1], "")), syscall.O_RDWR|syscall.O_CREAT|syscall.O_EXCL, 0600)
		return vTuple(f, e)
	})
	mkt := func(fr *Frame, a []Value) Value {
		d, pat := fr.str(a[0], ""), fr.str(a[1], "")
		n := tmp(fr, d, pat)
		pd, b, e := fr.p.vfs.parent(n)
		if e != 0 {
			return vTuple(vStr(""), fr.errno("mkdir", n, e))
		}
		pd.kids[b] = &vnode{dir: true, kids: map[string]*vnode{}, mode: 0700, name: b}
		return vTuple(vStr(n), Value{})
	}
	reg("os.MkdirTemp", mkt)
	reg("os.ReadFile", func(fr *Frame, a []Value) Value {
		s := fr.str(a[0], "")
		n, e := fr.p.vfs.lookup(s)
		if e != 0 {
			return vTuple(Value{}, fr.errno("open", s, e))
		}
		if n.dir {
			return vTuple(Value{}, fr.errno("read", s, syscall.EISDIR))
		}
		out := &SymStr{}
		for i := range n.data.segs {
			sg := &n.data.segs[i]
			m := len(sg.b)
			if sg.n != nil {
				m = int(fr.p.concretize(sg.n))
			}
			c := fr.p.segCells(sg, m)
			out.b = append(out.b, c.b...)
			out.t = append(out.t, c.t...)
		}
		return vTuple(symToSlice(out), Value{})
	})
	reg("os.WriteFile", func(fr *Frame, a []Value) Value {
		f, e := fr.open(fr.str(a[0], ""), syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, uint32(fr.p.conc1(a[2])))
		if e.P != nil {
			return e
		}
		h := fr.handle(f)
		h.n.data.write(fr.p, h.pos, fr.p.sliceToSegs(a[1]))
		return Value{}
	})
	reg("path/filepath.EvalSymlinks", func(fr *Frame, a []Value) Value { return vTuple(a[0], Value{}) })

	type meth func(fr *Frame, h *vhandle, a []Value) Value
	M := func(name string, op string, nres int, f meth) {
		reg("(*os.File)."+name, func(fr *Frame, a []Value) Value {
			ret := func(e Value) Value {
				switch nres {
				case 0:
					return e
				}
				r := fr.zeroResult().P.(*StructV)
				r.F[len(r.F)-1] = e
				return Value{P: r}
			}
			if a[0].P == nil {
				return ret(fr.globalVal("io/fs", "ErrInvalid"))
			}
			h := fr.handle(a[0])
			if h == nil {
				return ret(fr.globalVal("io/fs", "ErrInvalid"))
			}
			if h.closed {
				if name == "Close" {
					return ret(fr.pathErr("close", h.name, fr.globalVal("io/fs", "ErrClosed")))
				}
				return ret(fr.pathErr(op, h.name, fr.globalVal("io/fs", "ErrClosed")))
			}
			return f(fr, h, a)
		})
	}
	eofV := func(fr *Frame) Value { return fr.globalVal("io", "EOF") }
	M("Close", "close", 0, func(fr *Frame, h *vhandle, a []Value) Value { h.closed = true; return Value{} })
	M("Sync", "sync", 0, func(fr *Frame, h *vhandle, a []Value) Value { return Value{} })
	M("Chmod", "chmod", 0, func(fr *Frame, h *vhandle, a []Value) Value { return Value{} })
	M("Chown", "chown", 0, func(fr *Frame, h *vhandle, a []Value) Value { return Value{} })
	M("Stat", "stat", 2, func(fr *Frame, h *vhandle, a []Value) Value {
		return vTuple(fr.fileInfo(h.n, h.name), Value{})
	})
	M("Read", "read", 2, func(fr *Frame, h *vhandle, a []Value) Value {
		p := fr.p
		if h.n.dir {
			return vTuple(vInt(0), fr.errno("read", h.name, syscall.EISDIR))
		}
		if !readable(h.flag) {
			return vTuple(vInt(0), fr.errno("read", h.name, syscall.EBADF))
		}
		l, lt := sliceLen(a[1])
		if l == 0 && lt == nil {
			return vTuple(vInt(0), Value{})
		}
		if lt != nil && p.branch(p.tc.Eq(lt, p.tc.Const(0, 64))) {
			return vTuple(vInt(0), Value{})
		}
		n := h.n.data.readInto(p, h.pos, a[1])
		if p.branch(p.tc.Eq(n, p.tc.Const(0, 64))) {
			return vTuple(vInt(0), eofV(fr))
		}
		h.pos = p.tc.Add(h.pos, n)
		return vTuple(vTerm(n), Value{})
	})
	M("ReadAt", "read", 2, func(fr *Frame, h *vhandle, a []Value) Value {
		p := fr.p
		off := p.term(a[2], 64)
		if p.branch(p.tc.Slt(off, p.tc.Const(0, 64))) {
			return vTuple(vInt(0), fr.pathErr("readat", h.name, fr.errV("negative offset")))
		}
		if !readable(h.flag) {
			return vTuple(vInt(0), fr.errno("read", h.name, syscall.EBADF))
		}
		dst := a[1]
		if dst.P == nil {
			return vTuple(vInt(0), Value{})
		}
		sl := *dst.P.(*SliceV)
		want := p.term(p.sliceLenV(dst), 64)
		tot := p.tc.Const(0, 64)
		for {
			if p.branch(p.tc.Sle(want, tot)) {
				return vTuple(vTerm(tot), Value{})
			}
			if tot.op != opConst {
				// continue at a concrete offset only
				tot = p.tc.Const(p.concretize(tot), 64)
			}
			s2 := sl
			s2.off += int(tot.k)
			s2.ln -= int(tot.k)
			s2.cp -= int(tot.k)
			if s2.lnT != nil {
				s2.lnT = p.tc.Sub(s2.lnT, tot)
			}
			n := h.n.data.readInto(p, p.tc.Add(off, tot), Value{P: &s2})
			if p.branch(p.tc.Eq(n, p.tc.Const(0, 64))) {
				return vTuple(vTerm(tot), eofV(fr))
			}
			tot = p.tc.Add(tot, n)
		}
	})
	wrt := func(fr *Frame, h *vhandle, b Value) Value {
		p := fr.p
		if !writable(h.flag) {
			return vTuple(vInt(0), fr.errno("write", h.name, syscall.EBADF))
		}
		ss := p.sliceToSegs(b)
		n := p.segsLen(ss)
		if h.n.null {
			return vTuple(vTerm(n), Value{})
		}
		if h.flag&syscall.O_APPEND != 0 {
			h.pos = h.n.data.size(p)
		}
		h.n.data.write(p, h.pos, ss)
		h.pos = p.tc.Add(h.pos, n)
		return vTuple(vTerm(n), Value{})
	}
	M("Write", "write", 2, func(fr *Frame, h *vhandle, a []Value) Value { return wrt(fr, h, a[1]) })
	M("WriteString", "write", 2, func(fr *Frame, h *vhandle, a []Value) Value { return wrt(fr, h, symToSlice(toSym(a[1]))) })
	M("WriteAt", "write", 2, func(fr *Frame, h *vhandle, a []Value) Value {
		p := fr.p
		if h.flag&syscall.O_APPEND != 0 {
			return vTuple(vInt(0), fr.errV("os: invalid use of WriteAt on file opened with O_APPEND"))
		}
		off := p.term(a[2], 64)
		if p.branch(p.tc.Slt(off, p.tc.Const(0, 64))) {
			return vTuple(vInt(0), fr.pathErr("writeat", h.name, fr.errV("negative offset")))
		}
		if !writable(h.flag) {
			return vTuple(vInt(0), fr.errno("write", h.name, syscall.EBADF))
		}
		ss := p.sliceToSegs(a[1])
		n := p.segsLen(ss)
		if n.op == opConst && n.k == 0 {
			return vTuple(vInt(0), Value{})
		}
		h.n.data.write(p, off, ss)
		return vTuple(vTerm(n), Value{})
	})
	M("Seek", "seek", 2, func(fr *Frame, h *vhandle, a []Value) Value {
		p := fr.p
		off := p.term(a[1], 64)
		var base *Term
		switch p.conc1(a[2]) {
		case 0:
			base = p.tc.Const(0, 64)
		case 1:
			base = h.pos
		case 2:
			base = h.n.data.size(p)
		default:
			return vTuple(vInt(0), fr.errno("seek", h.name, syscall.EINVAL))
		}
		np := p.tc.Add(base, off)
		if p.branch(p.tc.Slt(np, p.tc.Const(0, 64))) {
			return vTuple(vInt(0), fr.errno("seek", h.name, syscall.EINVAL))
		}
		h.pos = np
		return vTuple(vTerm(np), Value{})
	})
	M("Truncate", "truncate", 0, func(fr *Frame, h *vhandle, a []Value) Value {
		p := fr.p
		n := p.term(a[1], 64)
		if p.branch(p.tc.Slt(n, p.tc.Const(0, 64))) || !writable(h.flag) {
			return fr.errno("truncate", h.name, syscall.EINVAL)
		}
		h.n.data.truncate(p, n)
		return Value{}
	})
	reg("(*os.File).readFrom", func(fr *Frame, a []Value) Value { return vTuple(vInt(0), vBool(false), Value{}) })
	reg("(*os.File).writeTo", func(fr *Frame, a []Value) Value { return vTuple(vInt(0), vBool(false), Value{}) })
	reg("(*os.File).Name", func(fr *Frame, a []Value) Value {
		fr.nilChk(a[0])
		if h := fr.handle(a[0]); h != nil {
			return vStr(h.name)
		}
		return vStr("")
	})
	reg("(*os.File).Fd", func(fr *Frame, a []Value) Value { return vInt(9) })
	reg("(*os.File).checkValid", func(fr *Frame, a []Value) Value {
		if a[0].P == nil {
			return fr.globalVal("io/fs", "ErrInvalid")
		}
		return Value{}
	})
	M("Readdir", "readdir", 2, func(fr *Frame, h *vhandle, a []Value) Value {
		var ns []string
		for k := range h.n.kids {
			ns = append(ns, k)
		}
		sort.Strings(ns)
		var out []Value
		for _, k := range ns {
			out = append(out, fr.fileInfo(h.n.kids[k], k))
		}
		return vTuple(mkSlice(out), Value{})
	})
	M("Readdirnames", "readdir", 2, func(fr *Frame, h *vhandle, a []Value) Value {
		var ns []string
		for k := range h.n.kids {
			ns = append(ns, k)
		}
		sort.Strings(ns)
		var out []Value
		for _, k := range ns {
			out = append(out, vStr(k))
		}
		return vTuple(mkSlice(out), Value{})
	})
}
