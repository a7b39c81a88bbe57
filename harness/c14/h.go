// Package c14: an open file behaves like a byte array with a cursor.
package c14

import (
	"bytes"
	"io"
	"os"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// arr is the reference: a byte array with a cursor.
type arr struct {
	data []byte
	pos  int64
	flag int
}

func (a *arr) canRead() bool  { return a.flag&3 != os.O_WRONLY }
func (a *arr) canWrite() bool { return a.flag&3 != os.O_RDONLY }
func (a *arr) app() bool      { return a.flag&os.O_APPEND != 0 }

func (a *arr) put(p []byte, off int64) {
	if len(p) == 0 {
		return
	}
	n := append([]byte{}, a.data...)
	for int64(len(n)) < off {
		n = append(n, 0)
	}
	end := off + int64(len(p))
	if end > int64(len(n)) {
		n = append(n[:off:off], p...)
	} else {
		copy(n[off:], p)
	}
	a.data = n
}

func (a *arr) at(n int, off int64) []byte {
	if off >= int64(len(a.data)) {
		return nil
	}
	b := a.data[off:]
	if len(b) > n {
		b = b[:n]
	}
	return b
}

// op is one call; n is a size, off an offset.
type op struct {
	k      string
	n      int
	off    int64
	whence int
}

// bytesFor is what the i-th call writes: arbitrary bytes.
func bytesFor(label string, n int) []byte { return []byte(sym.Str(label, n, "")) }

// step performs one call on the file and on the reference.
func step(f afero.File, a *arr, o op, label string) {
	switch o.k {
	case "read":
		p := make([]byte, o.n)
		n, err := f.Read(p)
		if !a.canRead() {
			sym.Assert(err != nil && err != io.EOF && n == 0, "reading is refused", hx.E(err))
			return
		}
		want := a.at(o.n, a.pos)
		sym.Assert(n == len(want), "read: count", "")
		sym.Assert(bytes.Equal(p[:n], want), "read: bytes", "")
		switch {
		case o.n == 0:
			sym.Assert(err == nil, "read: nothing asked for", hx.E(err))
		case n == 0:
			sym.Assert(err == io.EOF, "read: end of file", hx.E(err))
		case n < o.n:
			sym.Assert(err == nil || err == io.EOF, "read: short", hx.E(err))
		default:
			sym.Assert(err == nil, "read: error", hx.E(err))
		}
		a.pos += int64(n)
	case "readat":
		p := make([]byte, o.n)
		n, err := f.ReadAt(p, o.off)
		if !a.canRead() {
			sym.Assert(err != nil && err != io.EOF && n == 0, "reading is refused", hx.E(err))
			return
		}
		if o.off < 0 {
			sym.Assert((err != nil && err != io.EOF || o.n == 0) && n == 0, "positioned read: negative offset", hx.E(err))
			return
		}
		want := a.at(o.n, o.off)
		sym.Assert(n == len(want), "positioned read: count", "")
		sym.Assert(bytes.Equal(p[:n], want), "positioned read: bytes", "")
		if n < o.n {
			sym.Assert(err == io.EOF, "positioned read: end of file", hx.E(err))
		} else {
			sym.Assert(err == nil || err == io.EOF && o.off+int64(n) == int64(len(a.data)), "positioned read: error", hx.E(err))
		}
	case "seek":
		base := []int64{0, a.pos, int64(len(a.data))}[o.whence]
		at, err := f.Seek(o.off, o.whence)
		if base+o.off < 0 {
			sym.Assert(err != nil, "seek: before the start", "")
			return
		}
		sym.Assert(err == nil, "seek", hx.E(err))
		sym.Assert(at == base+o.off, "seek: offset", "")
		a.pos = base + o.off
	case "write", "writestring":
		p := bytesFor(label, o.n)
		var n int
		var err error
		if o.k == "write" {
			n, err = f.Write(p)
		} else {
			n, err = f.WriteString(string(p))
		}
		if !a.canWrite() {
			sym.Assert(err != nil && n == 0, "writing is refused", hx.E(err))
			return
		}
		sym.Assert(err == nil, "write", hx.E(err))
		sym.Assert(n == len(p), "write: count", "")
		if a.app() {
			a.pos = int64(len(a.data))
		}
		a.put(p, a.pos)
		a.pos += int64(n)
	case "writeat":
		p := bytesFor(label, o.n)
		if a.app() && a.canWrite() {
			sym.Stop() // not specified
		}
		n, err := f.WriteAt(p, o.off)
		if !a.canWrite() {
			sym.Assert(err != nil && n == 0, "writing is refused", hx.E(err))
			return
		}
		if o.off < 0 {
			sym.Assert(err != nil && n == 0, "positioned write: negative offset", hx.E(err))
			return
		}
		sym.Assert(err == nil, "positioned write", hx.E(err))
		sym.Assert(n == len(p), "positioned write: count", "")
		a.put(p, o.off)
	case "truncate":
		err := f.Truncate(o.off)
		if !a.canWrite() {
			sym.Assert(err != nil, "truncation is refused", hx.E(err))
			return
		}
		if o.off < 0 {
			sym.Assert(err != nil, "truncation: negative size", "")
			return
		}
		sym.Assert(err == nil, "truncate", hx.E(err))
		if o.off <= int64(len(a.data)) {
			a.data = append([]byte{}, a.data[:o.off]...)
		} else {
			n := append([]byte{}, a.data...)
			for int64(len(n)) < o.off {
				n = append(n, 0)
			}
			a.data = n
		}
	case "sync":
		sym.Assert(f.Sync() == nil, "sync", "")
	}
}

// look reads from the cursor to the end, the whole file, and its size.
func look(f afero.File, a *arr) {
	fi, err := f.Stat()
	sym.Assert(err == nil, "stat", hx.E(err))
	if a.canWrite() {
		sym.Assert(fi.Size() == int64(len(a.data)), "size of the open file", "")
	}
	if a.canRead() {
		step(f, a, op{k: "read", n: 32}, "")
		step(f, a, op{k: "readat", n: 32}, "")
	}
	step(f, a, op{k: "seek", whence: 1}, "")
}

// done closes the file and reads it again.
func done(e *hx.Env, f afero.File, a *arr) {
	sym.Assert(f.Close() == nil, "close", "")
	fi, err := e.FS.Stat("/f")
	sym.Assert(err == nil, "stat once closed", hx.E(err))
	sym.Assert(fi.Size() == int64(len(a.data)), "size once closed", "")
	b, err := e.ReadAll("/f")
	sym.Assert(err == nil, "read once closed", hx.E(err))
	sym.Assert(bytes.Equal(b, a.data), "content once closed", "")
	sym.Reach("closed")
}

var caches = []string{config.WriteCacheTypeMemory, config.WriteCacheTypeFile}

// start opens a file with arbitrary content of length n (n < 0: there is none yet).
func start(flag, n int, cache string, o hx.Opt) (*hx.Env, afero.File, *arr) {
	o.Cache = cache
	e := hx.NewFS(o)
	a := &arr{flag: flag}
	if n >= 0 {
		a.data = bytesFor("old", n)
		hx.Must(e.Archive(false, false, hx.Item{Path: "/f", Data: a.data}), "archive")
	}
	f, err := e.FS.OpenFile("/f", flag, 0o644)
	sym.Assert(err == nil, "open", hx.E(err))
	if flag&os.O_TRUNC != 0 {
		a.data = nil
	}
	return e, f, a
}

// flags that a file is opened with.
var flags = []int{
	os.O_RDWR, os.O_RDONLY, os.O_WRONLY, os.O_RDWR | os.O_APPEND, os.O_WRONLY | os.O_APPEND,
	os.O_RDWR | os.O_TRUNC, os.O_WRONLY | os.O_TRUNC, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_APPEND | os.O_TRUNC | os.O_CREATE,
}

// all is the repertoire: every call with sizes and offsets around a content of five bytes.
func all() []op {
	l := []op{}
	for _, n := range []int{0, 1, 4, 9} {
		l = append(l, op{k: "read", n: n})
	}
	for _, n := range []int{1, 3} {
		for _, o := range []int64{-1, 0, 2, 4, 5, 7} {
			l = append(l, op{k: "readat", n: n, off: o})
		}
	}
	for w := 0; w < 3; w++ {
		for _, o := range []int64{-6, -2, 0, 3, 8} {
			l = append(l, op{k: "seek", off: o, whence: w})
		}
	}
	l = append(l, op{k: "write", n: 1}, op{k: "write", n: 3}, op{k: "write", n: 7}, op{k: "writestring", n: 2}, op{k: "writestring", n: 6})
	for _, n := range []int{1, 4} {
		for _, o := range []int64{-1, 0, 2, 4, 5, 7} {
			l = append(l, op{k: "writeat", n: n, off: o})
		}
	}
	for _, o := range []int64{-1, 0, 2, 5, 8} {
		l = append(l, op{k: "truncate", off: o})
	}
	return append(l, op{k: "sync"})
}

// few is a repertoire for longer sequences.
func few() []op {
	return []op{
		{k: "read", n: 2}, {k: "read", n: 9}, {k: "readat", n: 3, off: 3}, {k: "seek", off: 2}, {k: "seek", off: -1, whence: 1}, {k: "seek", off: -2, whence: 2}, {k: "seek", off: 3, whence: 2},
		{k: "write", n: 2}, {k: "write", n: 6}, {k: "writestring", n: 1}, {k: "writeat", n: 2, off: 1}, {k: "writeat", n: 2, off: 6}, {k: "truncate", off: 3}, {k: "truncate", off: 7}, {k: "truncate"}, {k: "sync"},
	}
}

// HTwo: two calls of the full repertoire.
func HTwo() {
	l := all()
	i := sym.Choice("A", len(l))
	j := sym.Choice("B", len(l))
	fl := flags[0]
	if sym.Tier() > 0 {
		fl = flags[sym.Choice("flag", 5)]
	}
	e, f, a := start(fl, 5, caches[sym.Choice("cache", 2)], hx.Opt{})
	step(f, a, l[i], "wa")
	step(f, a, l[j], "wb")
	look(f, a)
	done(e, f, a)
}

// HFlags: every combination of flags, two calls of which one from the full repertoire.
func HFlags() {
	n := []int{5, 0, -1}[sym.Choice("old", 3)]
	fl := flags[sym.Choice("flag", len(flags))]
	if n < 0 && fl&os.O_CREATE == 0 {
		sym.Stop()
	}
	l := all()
	first := []op{{k: "sync"}, {k: "seek", off: 2}, {k: "write", n: 2}, {k: "read", n: 3}}[sym.Choice("A", 4)]
	o := l[sym.Choice("B", len(l))]
	e, f, a := start(fl, n, caches[sym.Choice("A2", 2)], hx.Opt{})
	step(f, a, first, "wa")
	step(f, a, o, "wb")
	look(f, a)
	done(e, f, a)
}

// HThree: three calls.
func HThree() {
	l := few()
	fl := []int{os.O_RDWR, os.O_RDWR | os.O_APPEND}[sym.Choice("flag", 2)]
	e, f, a := start(fl, 4, caches[sym.Choice("cache", 2)], hx.Opt{})
	for i := 0; i < 3+sym.Tier(); i++ {
		lb := string(rune('A' + i))
		step(f, a, l[sym.Choice(lb, len(l))], "w"+lb)
	}
	look(f, a)
	done(e, f, a)
}

// HPipes: the same over compressed, encrypted and signed content.
func HPipes() {
	confs := []hx.Opt{{Comp: config.CompressionFormatGZipKey}, {Comp: config.CompressionFormatZStandardKey, Enc: config.EncryptionFormatAgeKey}, {Enc: config.EncryptionFormatPGPKey, Sig: config.SignatureFormatPGPKey}, {Sig: config.SignatureFormatMinisignKey}}
	l := few()
	e, f, a := start(os.O_RDWR, 5, caches[sym.Choice("cache", 2)], confs[sym.Choice("conf", len(confs))])
	for i := 0; i < 2; i++ {
		lb := string(rune('A' + i))
		step(f, a, l[sym.Choice(lb, len(l))], "w"+lb)
	}
	look(f, a)
	done(e, f, a)
}

// HAgain: a file is opened, changed and closed twice.
func HAgain() {
	l := few()
	e, f, a := start(os.O_RDWR, 4, caches[sym.Choice("cache", 2)], hx.Opt{Rec: 1})
	step(f, a, l[sym.Choice("A", len(l))], "wa")
	done(e, f, a)
	fl := []int{os.O_RDWR, os.O_RDWR | os.O_APPEND, os.O_RDONLY}[sym.Choice("flag", 3)]
	f, err := e.FS.OpenFile("/f", fl, 0)
	sym.Assert(err == nil, "open again", hx.E(err))
	a.flag, a.pos = fl, 0
	step(f, a, l[sym.Choice("B", len(l))], "wb")
	look(f, a)
	done(e, f, a)
}

// HBig: calls around block and buffer boundaries of a longer content.
func HBig() {
	cache := caches[sym.Choice("cache", 2)]
	e := hx.NewFS(hx.Opt{Cache: cache, Rec: 7})
	d := sym.Fill(40000, 'o')
	d[511], d[512], d[39999] = sym.Byte("b0", ""), sym.Byte("b1", ""), sym.Byte("b2", "")
	a := &arr{flag: os.O_RDWR, data: append([]byte{}, d...)}
	hx.Must(e.Archive(false, false, hx.Item{Path: "/f", Data: d}), "archive")
	f, err := e.FS.OpenFile("/f", a.flag, 0)
	sym.Assert(err == nil, "open", hx.E(err))
	for i := 0; i < 2; i++ {
		lb := string(rune('A' + i))
		o := op{k: []string{"read", "readat", "seek", "write", "writeat", "truncate"}[sym.Choice(lb, 6)]}
		if o.k != "seek" && o.k != "truncate" {
			o.n = []int{1, 513, 33000}[sym.Choice(lb+".n", 3)]
		}
		if o.k != "read" && o.k != "write" {
			o.off = []int64{511, 512, 39999, 40000, 41000}[sym.Choice(lb+".off", 5)]
		}
		if o.k == "write" || o.k == "writeat" {
			p := sym.Fill(int64(o.n), byte('A'+i))
			p[0] = sym.Byte(lb+".first", "")
			if o.k == "write" {
				n, err := f.Write(p)
				sym.Assert(err == nil && n == o.n, "write", hx.E(err))
				a.put(p, a.pos)
				a.pos += int64(n)
			} else {
				n, err := f.WriteAt(p, o.off)
				sym.Assert(err == nil && n == o.n, "positioned write", hx.E(err))
				a.put(p, o.off)
			}
		} else {
			step(f, a, o, lb)
		}
	}
	look(f, a)
	done(e, f, a)
}
