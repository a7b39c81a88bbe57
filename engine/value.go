package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Value is the engine's representation of one Go value.
//
//	ints, bools:  P==nil: N holds the (zero-extended) bits; P=*Term: symbolic
//	floats:       P==nil: N = IEEE bits of a float64; P=*SymFloat: symbolic dyadic
//	string:       P = string | *SymStr (nil means "")
//	pointer:      P = container (*StructV, *ByteArr), N = index in it; P==nil: nil
//	slice:        P = *SliceV (nil: nil slice)
//	map/chan/func/interface: P = *MapV / *ChanV / *Closure / *Iface (nil: nil)
//	struct, array: P = *StructV (fields/elements) or *ByteArr ([N]byte)
//	tuple:        P = *StructV
type Value struct {
	N uint64
	P any
}

type StructV struct {
	F []Value
}

// ByteArr is a byte array: concrete bytes plus sparse symbolic cells, plus fill overlays
// (later overlays shadow earlier contents).
type ByteArr struct {
	b    []byte
	sym  map[int]*Term
	runs []fillRun
	view bool    // read-only copy of a suffix: writes cannot be tracked
	src  *SliceV // suffix of src that starts at lo (contents are not available)
	lo   *Term
}

// fillRun marks bytes [start, start+n) as having one constant value; n is symbolic.
type fillRun struct {
	start int
	n     *Term // 64-bit
	val   byte
	tag   *Term   // optional: symbolic byte value
	cells *SymStr // patch layer: explicit cells (n is their constant count)
}

type SliceV struct {
	arr  any // *StructV or *ByteArr
	off  int
	ln   int
	cp   int
	lnT  *Term // symbolic length (64-bit), nil if concrete; ln then is an upper bound
	offT *Term // symbolic extra offset
}

type SymStr struct {
	b []byte
	t []*Term // same length; nil entries are concrete
}

type SymFloat struct {
	num *Term // signed 64-bit
	sh  uint  // value = num / 2^sh
}

type MapV struct {
	keys  []Value
	vals  []Value
	idx   map[any]int // concrete keys -> position
	live  []bool
	n     int
	nsym  int // number of symbolic keys
	keyT  types.Type
	id    int
	kmode uint8
}

type Closure struct {
	fn   *Fn
	bind []Value
	nat  func(fr *Frame, args []Value) Value
	name string
}

type Iface struct {
	t *TypeInfo
	v Value
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
}

// TypeInfo canonicalises a type.
type TypeInfo struct {
	T       types.Type
	id      int
	name    string
	methods map[string]*Fn
	impl    map[*TypeInfo]bool
	eng     *Engine
	kind    vkind
	bits    uint8
	signed  bool
}

type vkind uint8

const (
	kInvalid vkind = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kBytes // byte array
	kTuple
	kUnsafe
	kComplex
)

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func kindOf(t types.Type) (k vkind, bits uint8, signed bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kBool, 0, false
		case types.Int, types.Int64, types.UntypedInt:
			return kInt, 64, true
		case types.Int32, types.UntypedRune:
			return kInt, 32, true
		case types.Int16:
			return kInt, 16, true
		case types.Int8:
			return kInt, 8, true
		case types.Uint, types.Uint64, types.Uintptr:
			return kInt, 64, false
		case types.Uint32:
			return kInt, 32, false
		case types.Uint16:
			return kInt, 16, false
		case types.Uint8:
			return kInt, 8, false
		case types.Float64, types.UntypedFloat:
			return kFloat, 64, true
		case types.Float32:
			return kFloat, 32, true
		case types.String, types.UntypedString:
			return kString, 0, false
		case types.UnsafePointer:
			return kUnsafe, 0, false
		case types.Complex128, types.Complex64, types.UntypedComplex:
			return kComplex, 0, false
		case types.UntypedNil:
			return kPtr, 0, false
		}
	case *types.Pointer:
		return kPtr, 0, false
	case *types.Slice:
		return kSlice, 0, false
	case *types.Map:
		return kMap, 0, false
	case *types.Chan:
		return kChan, 0, false
	case *types.Signature:
		return kFunc, 0, false
	case *types.Interface:
		return kIface, 0, false
	case *types.Struct:
		return kStruct, 0, false
	case *types.Array:
		if isByteType(u.Elem()) {
			return kBytes, 0, false
		}
		return kArray, 0, false
	case *types.Tuple:
		return kTuple, 0, false
	}
	return kInvalid, 0, false
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Value{P: ""}
		}
		return Value{}
	case *types.Struct:
		s := &StructV{F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = zeroValue(u.Field(i).Type())
		}
		return Value{P: s}
	case *types.Array:
		if isByteType(u.Elem()) {
			return Value{P: &ByteArr{b: make([]byte, u.Len())}}
		}
		s := &StructV{F: make([]Value, u.Len())}
		for i := range s.F {
			s.F[i] = zeroValue(u.Elem())
		}
		return Value{P: s}
	case *types.Tuple:
		s := &StructV{F: make([]Value, u.Len())}
		for i := range s.F {
			s.F[i] = zeroValue(u.At(i).Type())
		}
		return Value{P: s}
	}
	return Value{}
}

func cloneBytes(a *ByteArr) *ByteArr {
	n := &ByteArr{b: append([]byte(nil), a.b...)}
	if len(a.sym) > 0 {
		n.sym = make(map[int]*Term, len(a.sym))
		for k, v := range a.sym {
			n.sym[k] = v
		}
	}
	n.runs = append([]fillRun(nil), a.runs...)
	return n
}

// cloneAgg deep-copies a struct/array value k. isAgg tells whether v's P is an aggregate by value
// (and not a reference): decided by static type, precomputed as agg descriptor.
type aggDesc struct {
	kind   uint8 // 0 scalar, 1 struct, 2 array, 3 bytes
	fields []*aggDesc
	elem   *aggDesc
	any    bool // any nested aggregate field
}

func (e *Engine) aggOf(t types.Type) *aggDesc {
	ti := e.TypeInfo(t)
	e.aggMu.Lock()
	if d, ok := e.aggs[ti]; ok {
		e.aggMu.Unlock()
		return d
	}
	e.aggMu.Unlock()
	d := &aggDesc{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		d.kind = 1
		for i := 0; i < u.NumFields(); i++ {
			f := e.aggOf(u.Field(i).Type())
			if f.kind != 0 {
				d.any = true
			}
			d.fields = append(d.fields, f)
		}
	case *types.Array:
		if isByteType(u.Elem()) {
			d.kind = 3
		} else {
			d.kind = 2
			d.elem = e.aggOf(u.Elem())
			d.any = d.elem.kind != 0
		}
	}
	e.aggMu.Lock()
	e.aggs[ti] = d
	e.aggMu.Unlock()
	return d
}

func (d *aggDesc) clone(v Value) Value {
	switch d.kind {
	case 0:
		return v
	case 3:
		return Value{P: cloneBytes(v.P.(*ByteArr))}
	}
	s := v.P.(*StructV)
	n := &StructV{F: make([]Value, len(s.F))}
	copy(n.F, s.F)
	if d.any {
		for i := range n.F {
			var f *aggDesc
			if d.kind == 1 {
				f = d.fields[i]
			} else {
				f = d.elem
			}
			if f.kind != 0 {
				n.F[i] = f.clone(s.F[i])
			}
		}
	}
	return Value{P: n}
}

// storeInto copies v into the aggregate already living at *dst, preserving inner identity.
func (d *aggDesc) storeInto(dst *Value, v Value) {
	switch d.kind {
	case 0:
		*dst = v
		return
	case 3:
		a, b := dst.P.(*ByteArr), v.P.(*ByteArr)
		if a == b {
			return
		}
		copy(a.b, b.b)
		a.sym = nil
		if len(b.sym) > 0 {
			a.sym = make(map[int]*Term, len(b.sym))
			for k, t := range b.sym {
				a.sym[k] = t
			}
		}
		a.runs = append(a.runs[:0], b.runs...)
		return
	}
	a, b := dst.P.(*StructV), v.P.(*StructV)
	if a == b {
		return
	}
	for i := range a.F {
		var f *aggDesc
		if d.kind == 1 {
			f = d.fields[i]
		} else {
			f = d.elem
		}
		if f.kind == 0 {
			a.F[i] = b.F[i]
		} else {
			f.storeInto(&a.F[i], b.F[i])
		}
	}
}

// ---- helpers ----

func vInt(n int64) Value   { return Value{N: uint64(n)} }
func vUint(n uint64) Value { return Value{N: n} }
func vBool(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func vStr(s string) Value { return Value{P: s} }
func vFloat(f float64) Value {
	return Value{N: math.Float64bits(f)}
}
func vTerm(t *Term) Value {
	switch t.op {
	case opConst:
		return Value{N: t.k}
	case opTrue:
		return Value{N: 1}
	case opFalse:
		return Value{}
	}
	return Value{P: t}
}
func vPtr(box *StructV) Value { return Value{P: box} }

func vTuple(vs ...Value) Value { return Value{P: &StructV{F: vs}} }

func newBox(v Value) Value { return Value{P: &StructV{F: []Value{v}}} }

// term converts an integer value to a term of width w.
func (p *Path) term(v Value, w uint8) *Term {
	if v.P != nil {
		t := v.P.(*Term)
		if t.w != w {
			panic(p.unsupported(fmt.Sprintf("width mismatch %d vs %d", t.w, w)))
		}
		return t
	}
	return p.tc.Const(v.N, w)
}

func (p *Path) boolTerm(v Value) *Term {
	if v.P != nil {
		return v.P.(*Term)
	}
	return p.tc.Bool(v.N != 0)
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.P))
}

func concStr(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (p *Path) strAt(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		if s.t[i] != nil {
			return Value{P: s.t[i]}
		}
		return Value{N: uint64(s.b[i])}
	}
	panic("strAt")
}

func mkStr(b []byte, t []*Term) Value {
	for _, x := range t {
		if x != nil {
			return Value{P: &SymStr{b, t}}
		}
	}
	return Value{P: string(b)}
}

func subStr(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return Value{P: ""}
	case string:
		return Value{P: s[lo:hi]}
	case *SymStr:
		return mkStr(s.b[lo:hi:hi], s.t[lo:hi:hi])
	}
	panic("subStr")
}

func catStr(a, b Value) Value {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return Value{P: x + y}
		}
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	x, y := toSym(a), toSym(b)
	n := &SymStr{}
	n.b = append(append(make([]byte, 0, len(x.b)+len(y.b)), x.b...), y.b...)
	n.t = append(append(make([]*Term, 0, len(x.b)+len(y.b)), x.t...), y.t...)
	return Value{P: n}
}

func toSym(v Value) *SymStr {
	switch s := v.P.(type) {
	case nil:
		return &SymStr{}
	case string:
		return &SymStr{b: []byte(s), t: make([]*Term, len(s))}
	case *SymStr:
		return s
	}
	panic(fmt.Sprintf("toSym %T", v.P))
}

// strEq returns the boolean term a == b.
func (p *Path) strEq(a, b Value) *Term {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return p.tc.Bool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return p.tc.fls
	}
	x, y := toSym(a), toSym(b)
	r := p.tc.tru
	for i := range x.b {
		if x.t[i] == nil && y.t[i] == nil {
			if x.b[i] != y.b[i] {
				return p.tc.fls
			}
			continue
		}
		r = p.tc.BAnd(r, p.tc.Eq(p.symCell(x, i), p.symCell(y, i)))
		if r == p.tc.fls {
			return r
		}
	}
	return r
}

func (p *Path) symCell(s *SymStr, i int) *Term {
	if s.t[i] != nil {
		return s.t[i]
	}
	return p.tc.Const(uint64(s.b[i]), 8)
}

// strLess returns a < b lexicographically.
func (p *Path) strLess(a, b Value) *Term {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return p.tc.Bool(x < y)
		}
	}
	x, y := toSym(a), toSym(b)
	n := len(x.b)
	if len(y.b) < n {
		n = len(y.b)
	}
	r := p.tc.Bool(len(x.b) < len(y.b))
	for i := n - 1; i >= 0; i-- {
		cx, cy := p.symCell(x, i), p.symCell(y, i)
		r = p.tc.BOr(p.tc.Ult(cx, cy), p.tc.BAnd(p.tc.Eq(cx, cy), r))
	}
	return r
}

// ---- byte arrays ----

func (a *ByteArr) setSym(i int, t *Term) {
	if t == nil {
		if a.sym != nil {
			delete(a.sym, i)
		}
		return
	}
	if a.sym == nil {
		a.sym = map[int]*Term{}
	}
	a.sym[i] = t
}

// getByte reads one cell; the length of symbolic overlays is decided (forked) as needed.
func (p *Path) getByte(a *ByteArr, i int) Value {
	for k := len(a.runs) - 1; k >= 0; k-- {
		r := &a.runs[k]
		if i < r.start {
			continue
		}
		if r.cells != nil {
			if j := i - r.start; j < len(r.cells.b) {
				if r.cells.t != nil && r.cells.t[j] != nil {
					return Value{P: r.cells.t[j]}
				}
				return Value{N: uint64(r.cells.b[j])}
			}
			continue
		}
		// in run iff i - start < n
		if p.branch(p.tc.Slt(p.tc.Const(uint64(i-r.start), 64), r.n)) {
			if r.tag != nil {
				return Value{P: r.tag}
			}
			return Value{N: uint64(r.val)}
		}
	}
	if a.sym != nil {
		if t, ok := a.sym[i]; ok {
			return Value{P: t}
		}
	}
	return Value{N: uint64(a.b[i])}
}

func (p *Path) wrCheck(a *ByteArr) {
	if a.view {
		panic(p.unsupported("write through a symbolic-offset suffix"))
	}
}

func (p *Path) setByte(a *ByteArr, i int, v Value) {
	p.wrCheck(a)
	if len(a.runs) > 0 {
		c := &SymStr{b: []byte{byte(v.N)}}
		if v.P != nil {
			c.b[0] = 0
			c.t = []*Term{v.P.(*Term)}
		}
		p.patch(a, i, c)
		return
	}
	if v.P != nil {
		a.setSym(i, v.P.(*Term))
	} else {
		a.b[i] = byte(v.N)
		if a.sym != nil {
			delete(a.sym, i)
		}
	}
}

// patch overlays explicit cells at off.
func (p *Path) patch(a *ByteArr, off int, s *SymStr) {
	if len(s.b) == 0 {
		return
	}
	hi := off + len(s.b)
	// drop layers that are certainly covered
	var rest []fillRun
	for _, r := range a.runs {
		if r.start >= off {
			up := r.n.hi
			if b, ok := p.bnd[r.n]; ok && b[1] < up {
				up = b[1]
			}
			if up <= int64(hi-r.start) {
				continue
			}
		}
		rest = append(rest, r)
	}
	if len(rest) == 0 {
		a.runs = nil
		p.writeBytes(a, off, s)
		return
	}
	// extend an adjacent patch on top
	l := &rest[len(rest)-1]
	if l.cells != nil && off >= l.start && off <= l.start+len(l.cells.b) {
		m := maxi(l.start+len(l.cells.b), hi) - l.start
		c := &SymStr{b: make([]byte, m), t: make([]*Term, m)}
		copy(c.b, l.cells.b)
		copy(c.t, l.cells.t)
		copy(c.b[off-l.start:], s.b)
		for i := range s.b {
			c.t[off-l.start+i] = nil
			if s.t != nil {
				c.t[off-l.start+i] = s.t[i]
			}
		}
		*l = fillRun{start: l.start, n: p.tc.Const(uint64(m), 64), cells: c}
		a.runs = rest
		return
	}
	c := &SymStr{b: append([]byte(nil), s.b...)}
	if s.t != nil {
		c.t = append([]*Term(nil), s.t...)
	}
	a.runs = append(rest, fillRun{start: off, n: p.tc.Const(uint64(len(c.b)), 64), cells: c})
	if len(a.runs) > 24 {
		p.flattenAll(a)
	}
}

// flattenAll resolves all overlays.
func (p *Path) flattenAll(a *ByteArr) {
	x := p.bytesOf(Value{P: &SliceV{arr: a, ln: len(a.b), cp: len(a.b)}})
	a.runs = nil
	a.sym = nil
	copy(a.b, x.b)
	for i, t := range x.t {
		if t != nil {
			a.setSym(i, t)
		}
	}
}

// flattenFor resolves overlays touching [lo,hi).
func (p *Path) flattenFor(a *ByteArr, lo, hi int) {
	if len(a.runs) > 0 {
		p.flattenAll(a)
	}
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// bytesOf reads the concrete-length byte slice s as a symbolic string.
func (p *Path) bytesOf(v Value) *SymStr {
	if v.P == nil {
		return &SymStr{}
	}
	s := v.P.(*SliceV)
	n := s.ln
	if s.lnT != nil {
		n = int(p.concretize(s.lnT))
	}
	a := s.arr.(*ByteArr)
	out := &SymStr{b: make([]byte, n), t: make([]*Term, n)}
	if len(a.runs) == 0 {
		copy(out.b, a.b[s.off:s.off+n])
		if len(a.sym) > 0 {
			if len(a.sym) < n {
				for k, t := range a.sym {
					if k >= s.off && k < s.off+n {
						out.t[k-s.off] = t
					}
				}
			} else {
				for i := 0; i < n; i++ {
					out.t[i] = a.sym[s.off+i]
				}
			}
		}
		return out
	}
	for i := 0; i < n; i++ {
		c := p.getByte(a, s.off+i)
		if c.P != nil {
			out.t[i] = c.P.(*Term)
		} else {
			out.b[i] = byte(c.N)
		}
	}
	return out
}

func symToSlice(s *SymStr) Value {
	a := &ByteArr{b: append([]byte(nil), s.b...)}
	for i, t := range s.t {
		if t != nil {
			a.setSym(i, t)
		}
	}
	return Value{P: &SliceV{arr: a, ln: len(a.b), cp: len(a.b)}}
}

func bytesToSlice(b []byte) Value {
	a := &ByteArr{b: b}
	return Value{P: &SliceV{arr: a, ln: len(b), cp: len(b)}}
}

func symToStr(s *SymStr) Value {
	return mkStr(s.b, s.t)
}

// writeBytes stores the cells of s into array a at offset off.
func (p *Path) writeBytes(a *ByteArr, off int, s *SymStr) {
	if len(s.b) == 0 {
		return
	}
	p.wrCheck(a)
	if len(a.runs) > 0 {
		p.patch(a, off, s)
		return
	}
	copy(a.b[off:], s.b)
	if len(a.sym) > 0 || s.t != nil {
		for i := range s.b {
			var t *Term
			if s.t != nil {
				t = s.t[i]
			}
			if t != nil {
				a.setSym(off+i, t)
			} else if a.sym != nil {
				delete(a.sym, off+i)
			}
		}
	}
}

func sliceLen(v Value) (int, *Term) {
	if v.P == nil {
		return 0, nil
	}
	s := v.P.(*SliceV)
	return s.ln, s.lnT
}

func (p *Path) sliceLenV(v Value) Value {
	if v.P == nil {
		return Value{}
	}
	s := v.P.(*SliceV)
	if s.lnT != nil {
		return vTerm(s.lnT)
	}
	return vInt(int64(s.ln))
}

func mkSlice(elems []Value) Value {
	a := &StructV{F: elems}
	return Value{P: &SliceV{arr: a, ln: len(elems), cp: len(elems)}}
}

// elems returns the element values of a non-byte slice.
func sliceElems(v Value) []Value {
	if v.P == nil {
		return nil
	}
	s := v.P.(*SliceV)
	return s.arr.(*StructV).F[s.off : s.off+s.ln]
}

var _ = ssa.BuilderMode(0)
