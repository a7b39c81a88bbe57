package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// encoding/json, modelled on the engine's values: types drive the encoding as reflection does.

type jsonField struct {
	name string
	idx  int
	omit bool
	t    types.Type
}

func jsonFields(u *types.Struct) []jsonField {
	var out []jsonField
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if !f.Exported() || f.Embedded() {
			continue
		}
		tag := ""
		if raw := u.Tag(i); raw != "" {
			tag = structTag(raw, "json")
		}
		if tag == "-" {
			continue
		}
		jf := jsonField{name: f.Name(), idx: i, t: f.Type()}
		parts := strings.Split(tag, ",")
		if parts[0] != "" {
			jf.name = parts[0]
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				jf.omit = true
			}
		}
		out = append(out, jf)
	}
	return out
}

func structTag(raw, key string) string {
	for raw != "" {
		raw = strings.TrimLeft(raw, " ")
		i := strings.IndexByte(raw, ':')
		if i < 0 || i+1 >= len(raw) || raw[i+1] != '"' {
			return ""
		}
		k := raw[:i]
		raw = raw[i+2:]
		j := strings.IndexByte(raw, '"')
		if j < 0 {
			return ""
		}
		v := raw[:j]
		raw = raw[j+1:]
		if k == key {
			return v
		}
	}
	return ""
}

// jsonStr quotes a string; symbolic bytes must be plain printable ASCII (the path forks otherwise).
func (fr *Frame) jsonStr(v Value) Value {
	p := fr.p
	if s, ok := concStr(v); ok {
		b, _ := json.Marshal(s)
		return vStr(string(b))
	}
	s := toSym(v)
	out := vStr("\"")
	flushed := 0
	lit := func(hi int) {
		if hi > flushed {
			out = catStr(out, symToStr(&SymStr{s.b[flushed:hi], s.t[flushed:hi]}))
		}
		flushed = hi
	}
	for i := range s.b {
		if s.t[i] == nil {
			c := s.b[i]
			if c < 0x80 {
				b, _ := json.Marshal(string(c))
				q := string(b[1 : len(b)-1])
				if q == string(c) {
					continue
				}
				lit(i)
				flushed = i + 1
				out = catStr(out, vStr(q))
				continue
			}
			// concrete multi-byte runs pass unchanged (valid UTF-8 assumed by jsonUTF below)
			continue
		}
		t := s.t[i]
		special := false
		for _, c := range []byte{'"', '\\', '<', '>', '&'} {
			if p.branch(p.tc.Eq(t, p.tc.Const(uint64(c), 8))) {
				lit(i)
				flushed = i + 1
				b, _ := json.Marshal(string(c))
				out = catStr(out, vStr(string(b[1:len(b)-1])))
				special = true
				break
			}
		}
		if special {
			continue
		}
		if p.branch(p.tc.Ult(t, p.tc.Const(0x20, 8))) {
			c := byte(p.concretize(t))
			lit(i)
			flushed = i + 1
			b, _ := json.Marshal(string(rune(c)))
			out = catStr(out, vStr(string(b[1:len(b)-1])))
			continue
		}
		if p.branch(p.tc.Ule(p.tc.Const(0x80, 8), t)) {
			panic(p.unsupported("json: symbolic non-ASCII byte"))
		}
	}
	lit(len(s.b))
	return catStr(out, vStr("\""))
}

func (fr *Frame) jsonEmpty(t types.Type, v Value) bool {
	p := fr.p
	switch k, w, _ := kindOf(t); k {
	case kBool:
		return !p.truth(v)
	case kInt:
		if v.P == nil {
			return v.N == 0
		}
		return p.branch(p.tc.Eq(p.term(v, w), p.tc.Const(0, w)))
	case kString:
		return strLen(v) == 0
	case kSlice:
		n, _ := sliceLen(v)
		return n == 0
	case kMap:
		if v.P == nil {
			return true
		}
		return v.P.(*MapV).n == 0
	case kPtr, kIface:
		return v.P == nil
	}
	return false
}

// jsonEnc returns the encoding and an error value.
func (fr *Frame) jsonEnc(t types.Type, v Value) (Value, Value) {
	p := fr.p
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		ti := p.eng.TypeInfo(t)
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if mf := p.eng.methodByName(ti, m); mf != nil {
				r := fr.g.Call(fr, mf, []Value{v}, nil, nil).P.(*StructV)
				if r.F[1].P != nil {
					return Value{}, r.F[1]
				}
				if m == "MarshalText" {
					return fr.jsonStr(symToStr(p.bytesOf(r.F[0]))), Value{}
				}
				return symToStr(p.bytesOf(r.F[0])), Value{}
			}
		}
	}
	k, w, sg := kindOf(t)
	switch k {
	case kBool:
		if p.truth(v) {
			return vStr("true"), Value{}
		}
		return vStr("false"), Value{}
	case kInt:
		if v.P == nil && sg {
			return p.fmtInt(vInt(sext(v.N, w)), true, 10), Value{}
		}
		return p.fmtInt(v, sg, 10), Value{}
	case kString:
		return fr.jsonStr(v), Value{}
	case kPtr:
		if v.P == nil {
			return vStr("null"), Value{}
		}
		return fr.jsonEnc(t.Underlying().(*types.Pointer).Elem(), *deref(v))
	case kIface:
		if v.P == nil {
			return vStr("null"), Value{}
		}
		i := v.P.(*Iface)
		return fr.jsonEnc(i.t.T, i.v)
	case kSlice:
		if v.P == nil {
			return vStr("null"), Value{}
		}
		et := t.Underlying().(*types.Slice).Elem()
		if isByteType(et) {
			s := p.bytesOf(v)
			b := make([]byte, len(s.b))
			for i := range b {
				b[i] = byte(p.concretize(p.symCell(s, i)))
			}
			return vStr("\"" + base64.StdEncoding.EncodeToString(b) + "\""), Value{}
		}
		out := vStr("[")
		for i, e := range p.elems(v) {
			if i > 0 {
				out = catStr(out, vStr(","))
			}
			s, err := fr.jsonEnc(et, e)
			if err.P != nil {
				return s, err
			}
			out = catStr(out, s)
		}
		return catStr(out, vStr("]")), Value{}
	case kMap:
		if v.P == nil {
			return vStr("null"), Value{}
		}
		m := v.P.(*MapV)
		mt := t.Underlying().(*types.Map)
		type kv struct{ k, v Value }
		var l []kv
		for i, key := range m.keys {
			if m.live[i] {
				l = append(l, kv{key, m.vals[i]})
			}
		}
		sort.SliceStable(l, func(i, j int) bool {
			a, ok1 := concStr(l[i].k)
			b, ok2 := concStr(l[j].k)
			if ok1 && ok2 {
				return a < b
			}
			return p.branch(p.strLess(l[i].k, l[j].k))
		})
		out := vStr("{")
		for i, e := range l {
			if i > 0 {
				out = catStr(out, vStr(","))
			}
			s, err := fr.jsonEnc(mt.Elem(), e.v)
			if err.P != nil {
				return s, err
			}
			out = catStr(out, catStr(catStr(fr.jsonStr(e.k), vStr(":")), s))
		}
		return catStr(out, vStr("}")), Value{}
	case kStruct:
		u := t.Underlying().(*types.Struct)
		out := vStr("{")
		first := true
		s := v.P.(*StructV)
		for _, f := range jsonFields(u) {
			if f.omit && fr.jsonEmpty(f.t, s.F[f.idx]) {
				continue
			}
			e, err := fr.jsonEnc(f.t, s.F[f.idx])
			if err.P != nil {
				return e, err
			}
			if !first {
				out = catStr(out, vStr(","))
			}
			first = false
			out = catStr(out, catStr(vStr("\""+f.name+"\":"), e))
		}
		return catStr(out, vStr("}")), Value{}
	}
	panic(p.unsupported(fmt.Sprintf("json.Marshal of %s", t)))
}

// ---- decoding ----

type jsonDec struct {
	fr  *Frame
	s   *SymStr
	pos int
}

type jsonErr struct{ msg string }

func (d *jsonDec) fail(msg string) { panic(jsonErr{msg}) }

// is reports whether the byte at pos is c (forking when symbolic).
func (d *jsonDec) is(i int, c byte) bool {
	if i >= len(d.s.b) {
		return false
	}
	if d.s.t[i] == nil {
		return d.s.b[i] == c
	}
	p := d.fr.p
	return p.branch(p.tc.Eq(d.s.t[i], p.tc.Const(uint64(c), 8)))
}

func (d *jsonDec) ws() {
	for d.pos < len(d.s.b) && (d.is(d.pos, ' ') || d.is(d.pos, '\n') || d.is(d.pos, '\t') || d.is(d.pos, '\r')) {
		d.pos++
	}
}

func (d *jsonDec) next(c byte) bool {
	d.ws()
	if d.is(d.pos, c) {
		d.pos++
		return true
	}
	return false
}

func (d *jsonDec) expect(c byte) {
	if !d.next(c) {
		if d.pos >= len(d.s.b) {
			d.fail("unexpected end of JSON input")
		}
		d.fail(fmt.Sprintf("invalid character looking for %q", c))
	}
}

func (d *jsonDec) str() Value {
	d.expect('"')
	out := &SymStr{}
	p := d.fr.p
	for {
		if d.pos >= len(d.s.b) {
			d.fail("unexpected end of JSON input")
		}
		if d.is(d.pos, '"') {
			d.pos++
			return symToStr(out)
		}
		if d.is(d.pos, '\\') {
			d.pos++
			if d.pos >= len(d.s.b) {
				d.fail("unexpected end of JSON input")
			}
			c := byte(p.concretize(p.symCell(d.s, d.pos)))
			d.pos++
			n := 0
			if c == 'u' {
				n = 4
			}
			if d.pos+n > len(d.s.b) {
				d.fail("unexpected end of JSON input")
			}
			esc := `"\` + string(c)
			for i := 0; i < n; i++ {
				esc += string(byte(p.concretize(p.symCell(d.s, d.pos))))
				d.pos++
			}
			var s string
			if err := json.Unmarshal([]byte(esc+`"`), &s); err != nil {
				d.fail("invalid character in string escape code")
			}
			for i := 0; i < len(s); i++ {
				out.b = append(out.b, s[i])
				out.t = append(out.t, nil)
			}
			continue
		}
		t := d.s.t[d.pos]
		if t == nil {
			if d.s.b[d.pos] < 0x20 {
				d.fail("invalid character in string literal")
			}
		} else if p.branch(p.tc.Ult(t, p.tc.Const(0x20, 8))) {
			d.fail("invalid character in string literal")
		} else if p.branch(p.tc.Ule(p.tc.Const(0x80, 8), t)) {
			panic(p.unsupported("json: symbolic non-ASCII byte"))
		}
		out.b = append(out.b, d.s.b[d.pos])
		out.t = append(out.t, t)
		d.pos++
	}
}

func (d *jsonDec) lit(s string) bool {
	for i := 0; i < len(s); i++ {
		if !d.is(d.pos+i, s[i]) {
			if i > 0 {
				d.fail("invalid character in literal")
			}
			return false
		}
	}
	d.pos += len(s)
	return true
}

// num returns the raw text of a number.
func (d *jsonDec) num() *SymStr {
	st := d.pos
	if d.is(d.pos, '-') {
		d.pos++
	}
	p := d.fr.p
	for d.pos < len(d.s.b) {
		t := d.s.t[d.pos]
		if t == nil {
			c := d.s.b[d.pos]
			if c < '0' || c > '9' {
				if c == '.' || c == 'e' || c == 'E' {
					panic(p.unsupported("json: fractional number"))
				}
				break
			}
		} else if t.op != opDigit {
			if !p.branch(p.tc.BAnd(p.tc.Ule(p.tc.Const('0', 8), t), p.tc.Ule(t, p.tc.Const('9', 8)))) {
				break
			}
		}
		d.pos++
	}
	if d.pos == st {
		d.fail("invalid character looking for beginning of value")
	}
	return &SymStr{d.s.b[st:d.pos], d.s.t[st:d.pos]}
}

// skip reads over any value and returns its raw range.
func (d *jsonDec) skip() (int, int) {
	d.ws()
	st := d.pos
	switch {
	case d.is(d.pos, '"'):
		d.str()
	case d.is(d.pos, '{'):
		d.pos++
		if !d.next('}') {
			for {
				d.str()
				d.expect(':')
				d.skip()
				if d.next(',') {
					continue
				}
				d.expect('}')
				break
			}
		}
	case d.is(d.pos, '['):
		d.pos++
		if !d.next(']') {
			for {
				d.skip()
				if d.next(',') {
					continue
				}
				d.expect(']')
				break
			}
		}
	case d.lit("null"), d.lit("true"), d.lit("false"):
	default:
		d.num()
	}
	return st, d.pos
}

func (d *jsonDec) dec(t types.Type, dst *Value, ptr Value) {
	fr, p := d.fr, d.fr.p
	d.ws()
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		ti := p.eng.TypeInfo(types.NewPointer(t))
		if mf := p.eng.methodByName(ti, "UnmarshalJSON"); mf != nil {
			st, en := d.skip()
			r := fr.g.Call(fr, mf, []Value{ptr, symToSlice(&SymStr{d.s.b[st:en:en], d.s.t[st:en:en]})}, nil, nil)
			if r.P != nil {
				panic(r)
			}
			return
		}
	}
	if d.lit("null") {
		switch k, _, _ := kindOf(t); k {
		case kPtr, kIface, kMap, kSlice:
			*dst = Value{}
		}
		return
	}
	typeErr := func(what string) { d.fail("json: cannot unmarshal " + what + " into Go value of type " + t.String()) }
	k, w, sg := kindOf(t)
	peek := func(c byte) bool { return d.is(d.pos, c) }
	switch k {
	case kBool:
		if d.lit("true") {
			*dst = vBool(true)
		} else if d.lit("false") {
			*dst = vBool(false)
		} else {
			d.skip()
			typeErr("value")
		}
	case kString:
		if !peek('"') {
			d.skip()
			typeErr("value")
		}
		*dst = d.str()
	case kInt:
		if peek('"') || peek('{') || peek('[') || peek('t') || peek('f') {
			d.skip()
			typeErr("value")
		}
		s := d.num()
		fn := p.eng.PkgFn("strconv", "ParseInt")
		if !sg {
			fn = p.eng.PkgFn("strconv", "ParseUint")
		}
		r := fr.g.Call(fr, fn, []Value{symToStr(s), vInt(10), vInt(int64(w))}, nil, nil).P.(*StructV)
		if r.F[1].P != nil {
			typeErr("number")
		}
		v := r.F[0]
		if w < 64 {
			if tt, ok := v.P.(*Term); ok {
				v = vTerm(p.tc.Extract(tt, w))
			} else {
				v.N &= wmask(w)
			}
		}
		*dst = v
	case kMap:
		if !peek('{') {
			d.skip()
			typeErr("value")
		}
		mt := t.Underlying().(*types.Map)
		if dst.P == nil {
			*dst = Value{P: newMap(mt.Key())}
		}
		m := dst.P.(*MapV)
		d.pos++
		if d.next('}') {
			return
		}
		for {
			key := d.str()
			d.expect(':')
			box := newBox(zeroValue(mt.Elem()))
			d.dec(mt.Elem(), deref(box), box)
			p.mapSet(m, key, *deref(box))
			if d.next(',') {
				continue
			}
			d.expect('}')
			return
		}
	case kStruct:
		if !peek('{') {
			d.skip()
			typeErr("value")
		}
		fs := jsonFields(t.Underlying().(*types.Struct))
		s := dst.P.(*StructV)
		d.pos++
		if d.next('}') {
			return
		}
		for {
			d.ws()
			key := fr.str(d.str(), "json key")
			d.expect(':')
			var f *jsonField
			for i := range fs {
				if fs[i].name == key {
					f = &fs[i]
				}
			}
			if f == nil {
				for i := range fs {
					if strings.EqualFold(fs[i].name, key) {
						f = &fs[i]
						break
					}
				}
			}
			if f == nil {
				d.skip()
			} else {
				d.dec(f.t, &s.F[f.idx], Value{P: s, N: uint64(f.idx)})
			}
			if d.next(',') {
				continue
			}
			d.expect('}')
			return
		}
	case kPtr:
		et := t.Underlying().(*types.Pointer).Elem()
		if dst.P == nil {
			*dst = newBox(zeroValue(et))
		}
		d.dec(et, deref(*dst), *dst)
	case kSlice:
		et := t.Underlying().(*types.Slice).Elem()
		if isByteType(et) {
			b, err := base64.StdEncoding.DecodeString(fr.str(d.str(), "json bytes"))
			if err != nil {
				d.fail(err.Error())
			}
			*dst = bytesToSlice(b)
			return
		}
		if !peek('[') {
			d.skip()
			typeErr("value")
		}
		d.pos++
		var el []Value
		if !d.next(']') {
			for {
				box := newBox(zeroValue(et))
				d.dec(et, deref(box), box)
				el = append(el, *deref(box))
				if d.next(',') {
					continue
				}
				d.expect(']')
				break
			}
		}
		*dst = mkSlice(el)
	default:
		panic(p.unsupported(fmt.Sprintf("json.Unmarshal into %s", t)))
	}
}

func init() {
	reg("encoding/json.Marshal", func(fr *Frame, a []Value) Value {
		if a[0].P == nil {
			return vTuple(bytesToSlice([]byte("null")), Value{})
		}
		i := a[0].P.(*Iface)
		s, err := fr.jsonEnc(i.t.T, i.v)
		if err.P != nil {
			return vTuple(Value{}, err)
		}
		return vTuple(symToSlice(toSym(s)), Value{})
	})
	reg("encoding/json.Unmarshal", func(fr *Frame, a []Value) (ret Value) {
		p := fr.p
		if a[1].P == nil {
			return fr.errV("json: Unmarshal(nil)")
		}
		i := a[1].P.(*Iface)
		pt, ok := i.t.T.Underlying().(*types.Pointer)
		if !ok || i.v.P == nil {
			return fr.errV("json: Unmarshal(non-pointer)")
		}
		d := &jsonDec{fr: fr, s: p.bytesOf(a[0])}
		defer func() {
			if r := recover(); r != nil {
				if je, ok := r.(jsonErr); ok {
					ret = fr.errV(je.msg)
					return
				}
				if v, ok := r.(Value); ok {
					ret = v
					return
				}
				panic(r)
			}
		}()
		// encoding/json validates the whole input before storing anything
		d.skip()
		d.ws()
		if d.pos != len(d.s.b) {
			d.fail("invalid character after top-level value")
		}
		d.pos = 0
		d.dec(pt.Elem(), deref(i.v), i.v)
		return Value{}
	})
	reg("encoding/json.Valid", func(fr *Frame, a []Value) (ret Value) {
		d := &jsonDec{fr: fr, s: fr.p.bytesOf(a[0])}
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(jsonErr); ok {
					ret = vBool(false)
					return
				}
				panic(r)
			}
		}()
		d.skip()
		d.ws()
		return vBool(d.pos == len(d.s.b))
	})
}
