// Package c15: a read-only filesystem never changes the tape or the index.
package c15

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// dump is everything the index shows.
func dump(e *hx.Env) map[string]config.Header {
	m := map[string]config.Header{}
	for _, h := range e.Headers() {
		m[h.Name] = *h
	}
	r, b, err := e.Meta.GetLastIndexedRecordAndBlock(context.Background(), e.Opt.Rec)
	hx.Must(err, "last indexed")
	m["<last>"] = config.Header{Record: r, Block: b}
	return m
}

func same(a, b map[string]config.Header, at string) {
	sym.Assert(len(a) == len(b), at+": number of index entries", fmt.Sprint(len(a), " ", len(b)))
	for n, x := range a {
		y, ok := b[n]
		sym.Assert(ok, at+": index entry is gone", n)
		sym.Assert(x == y, at+": index entry changed", n)
	}
}

// ro is a read-only instance over a populated tape, with everything that must not change.
type ro struct {
	*hx.Env
	s     hx.Style
	tape  int
	index map[string]config.Header
	want  map[string]*hx.Seen
	opens int
}

// open makes the read-only instance; fresh starts without an index.
func open(h *hx.Hist, fresh, noWrite bool) *ro {
	r := &ro{s: h.S, tape: sym.Snap(h.Drive), index: dump(h.Env), want: h.Walk(true)}
	o := h.Opt
	o.ReadOnly = true
	o.NoWrite = noWrite
	o.Wrap = func(b config.BackendConfig) config.BackendConfig {
		w := b.GetWriter
		b.GetWriter = func() (config.DriveWriterConfig, error) { r.opens++; return w() }
		return b
	}
	r.Env = h.With(o, fresh)
	_, err := r.FS.Initialize("/", os.ModePerm)
	sym.Assert(err == nil, "a read-only filesystem opens", hx.E(err))
	if fresh {
		n, err := h.Rebuild()
		hx.Must(err, "rebuild")
		r.index = dump(n)
	}
	r.unchanged("opened")
	return r
}

func (r *ro) unchanged(at string) {
	t := sym.Snap(r.Drive)
	sym.Assert(sym.SnapLen(t) == sym.SnapLen(r.tape) && sym.Prefix(r.tape, t), at+": the tape is unchanged", "")
	sym.Assert(r.opens == 0, at+": the drive is not opened for writing", "")
	same(r.index, dump(r.Env), at)
}

func denied(err error, what string) {
	sym.Assert(err != nil, what+" fails", "")
	sym.Assert(errors.Is(err, os.ErrPermission), what+" fails with a permission error", hx.E(err))
}

// handle uses a file opened through a read-only filesystem in every way.
func (r *ro) handle(f afero.File, how int, dir bool) {
	d := []byte("data")
	var err error
	what := ""
	switch how {
	case 0:
		what = "writing"
		_, err = f.Write(d)
	case 1:
		what = "positioned writing"
		_, err = f.WriteAt(d, 2)
	case 2:
		what = "string writing"
		_, err = f.WriteString("data")
	case 3:
		what = "truncating"
		err = f.Truncate(1)
	case 4:
		// reading, then writing
		f.Read(make([]byte, 2))
		what = "writing"
		_, err = f.Write(d)
	case 5:
		f.Seek(1, 0)
		f.Sync()
		what = "writing"
		_, err = f.Write(nil)
		if err == nil {
			err = os.ErrPermission // writes nothing
		}
	}
	if dir {
		sym.Assert(err != nil, what+" a directory fails", "")
	} else {
		denied(err, what)
	}
	f.Sync()
	f.Close()
	r.unchanged("handle closed")
}

// call makes one call out of the read-only repertoire.
func (r *ro) call(label string) {
	paths := []string{"/0/f", "/n", "/0", "/e", "/t", "/v", "/0/1/g", "/0/f/x", "/m/n", "/"}
	k := sym.Choice(label, 14)
	np := len(paths)
	if sym.Tier() == 0 && label != "op" {
		np = 2
	}
	if sym.Tier() == 0 && k == 5 && np > 5 {
		np = 5
	}
	p := paths[sym.Choice(label+".path", np)]
	p = r.s.P(p)
	dir := r.want[p] != nil && r.want[p].Dir
	q := "/"
	if k == 6 || k == 10 {
		q = r.s.P(hx.Pick2(label+".to", []string{"/n", "/0/f", "/e", "/m/n"}[:map[bool]int{true: 4, false: 2}[label == "op"]]))
	}
	fs := r.FS
	t := time.Unix(1700000000, 0)
	switch k {
	case 0:
		_, err := fs.Create(p)
		denied(err, "Create")
	case 1:
		denied(fs.Mkdir(p, 0o700), "Mkdir")
	case 2:
		denied(fs.MkdirAll(p, 0o700), "MkdirAll")
	case 3:
		denied(fs.Remove(p), "Remove")
	case 4:
		denied(fs.RemoveAll(p), "RemoveAll")
	case 6:
		denied(fs.Rename(p, q), "Rename")
	case 7:
		denied(fs.Chmod(p, 0o700), "Chmod")
	case 8:
		denied(fs.Chown(p, 1, 1), "Chown")
	case 9:
		denied(fs.Chtimes(p, t, t), "Chtimes")
	case 10:
		denied(fs.SymlinkIfPossible(p, q), "Symlink")
	case 11:
		if r.want[p] == nil {
			_, err := fs.Stat(p)
			sym.Assert(err != nil, "a missing entry can not be stat-ed", p)
			_, err = fs.Open(p)
			sym.Assert(err != nil, "a missing entry can not be opened", p)
		} else {
			s, err := r.See(p)
			sym.Assert(err == nil, "Stat", hx.E(err))
			c := *r.want[p]
			c.Data = nil
			hx.SameEntry(&c, s, "Stat")
		}
	case 12:
		if w := r.want[p]; w != nil && !w.Dir {
			b, err := r.ReadAll(p)
			sym.Assert(err == nil, "reading", hx.E(err))
			sym.Assert(string(b) == string(w.Data), "content read", p)
		}
	case 13:
		_, err := fs.Initialize("/", os.ModePerm)
		sym.Assert(err == nil, "Initialize again", hx.E(err))
	case 5:
		fl := os.O_RDWR | []int{os.O_CREATE, os.O_TRUNC, os.O_APPEND}[sym.Choice(label+".flag", 3)]
		if label == "op" {
			fl = []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR}[sym.Choice(label+".access", 3)] | []int{0, os.O_CREATE, os.O_CREATE | os.O_EXCL}[sym.Choice(label+".create", 3)] | []int{0, os.O_TRUNC, os.O_APPEND}[sym.Choice(label+".mode", 3)]
		}
		f, err := fs.OpenFile(p, fl, 0o644)
		if err != nil {
			if fl&os.O_CREATE != 0 && fl&os.O_EXCL == 0 && !dir {
				denied(err, "OpenFile")
			}
			if fl == os.O_RDONLY {
				sym.Assert(r.want[p] == nil, "opening an existing entry", p)
			}
		} else {
			sym.Assert(r.want[p] != nil, "a missing entry can not be opened", p)
			how := 0
			if label != "A" && (label == "B" || p == r.s.P("/0/f")) {
				how = sym.Choice(label+".how", 6)
			}
			r.handle(f, how, dir)
		}
	}
	r.unchanged("after the call")
}

// result of a call; errors are compared by their kind.
func result(err error, v ...interface{}) string {
	k := "error"
	switch {
	case err == nil:
		k = "ok"
	case errors.Is(err, io.EOF):
		k = "EOF"
	case errors.Is(err, os.ErrNotExist):
		k = "not exist"
	}
	return fmt.Sprint(k, v)
}

func infos(l []os.FileInfo) string {
	s := []string{}
	for _, i := range l {
		s = append(s, fmt.Sprint(i.Name(), i.Size(), i.Mode(), i.IsDir(), i.ModTime().UnixNano()))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// step is one reading call on a handle.
type step struct {
	k    int
	n, o int64
	w    int
}

func (s step) do(f afero.File) string {
	b := []byte{}
	if s.n > 0 {
		b = make([]byte, s.n)
	}
	switch s.k {
	case 0:
		n, err := f.Read(b)
		return result(err, n, string(b[:n]))
	case 1:
		n, err := f.ReadAt(b, s.o)
		return result(err, n, string(b[:n]))
	case 2:
		o, err := f.Seek(s.o, s.w)
		return result(err, o)
	case 3:
		i, err := f.Stat()
		if err != nil {
			return result(err)
		}
		return infos([]os.FileInfo{i})
	case 4:
		l, err := f.Readdir(int(s.n))
		return result(err, infos(l))
	case 5:
		l, err := f.Readdirnames(int(s.n))
		sort.Strings(l)
		return result(err, l)
	case 6:
		b, err := io.ReadAll(f)
		return result(err, string(b))
	case 7:
		return f.Name()
	}
	return result(f.Close())
}

// HRead: every reading call, on both a read-only and a writable instance.
func HRead() {
	h := hx.PopulateWith([]hx.Opt{{}, {Comp: config.CompressionFormatGZipKey, Enc: config.EncryptionFormatAgeKey}}[sym.Choice("conf", 2)], hx.Styles[0])
	hx.Must(h.FS.SymlinkIfPossible(h.S.P("/0/f"), "/lf"), "link")
	hx.Must(h.FS.SymlinkIfPossible(h.S.P("/0"), "/ld"), "link")
	h.Links = true
	tape, index := sym.Snap(h.Drive), dump(h.Env)
	o := h.Opt
	o.ReadOnly = true
	o.NoWrite = true
	fresh := sym.Fork(sym.Bool("fresh"))
	r := h.With(o, fresh)
	_, err := r.FS.Initialize("/", os.ModePerm)
	sym.Assert(err == nil, "a read-only filesystem opens", hx.E(err))
	if fresh {
		n, err := h.Rebuild()
		hx.Must(err, "rebuild")
		index = dump(n)
	}
	w := h.With(h.Opt, fresh)
	_, err = w.FS.Initialize("/", os.ModePerm)
	hx.Must(err, "open")
	p := h.S.P(hx.Pick2("path", []string{"/0/f", "/0", "/lf", "/ld", "/t", "/e"}[:5+sym.Tier()]))
	check := func(what string, f func(e *hx.Env) string) {
		a, b := f(r), f(w)
		sym.Assert(a == b, what+" returns what the writable instance returns", a+" instead of "+b)
	}
	check("Stat", func(e *hx.Env) string {
		i, err := e.FS.Stat(p)
		if err != nil {
			return result(err)
		}
		return infos([]os.FileInfo{i})
	})
	check("Lstat", func(e *hx.Env) string {
		i, ok, err := e.FS.LstatIfPossible(p)
		if err != nil {
			return result(err, ok)
		}
		return infos([]os.FileInfo{i})
	})
	check("Readlink", func(e *hx.Env) string {
		l, err := e.FS.ReadlinkIfPossible(p)
		return result(err, l)
	})
	flags := []int{os.O_RDONLY, os.O_RDWR, os.O_WRONLY, os.O_RDWR | os.O_APPEND}
	flag := flags[sym.Choice("flags", 3+sym.Tier())]
	if dir := p == h.S.P("/0") || p == "/ld" || p == h.S.P("/e"); dir && flag != os.O_RDONLY {
		sym.Stop() // a writable instance refuses to open it
	}
	var a, b afero.File
	check("OpenFile", func(e *hx.Env) string {
		var f afero.File
		var err error
		if sym.Tier() > 0 || flag != os.O_RDONLY {
			f, err = e.FS.OpenFile(p, flag, 0)
		} else {
			f, err = e.FS.Open(p)
		}
		if e == r {
			a = f
		} else {
			b = f
		}
		return result(err)
	})
	if a == nil || b == nil {
		sym.Stop()
	}
	steps := 2 + sym.Tier()
	if sym.Tier() == 0 && (fresh || r.Opt.Comp != "") {
		steps = 1
	}
	for i := 0; i < steps; i++ {
		l := string(rune('A' + i))
		s := step{}
		if i == 1 && sym.Tier() == 0 {
			s.k = []int{0, 1, 2, 5}[sym.Choice(l, 4)]
		} else {
			s.k = sym.Choice(l, 8)
		}
		switch s.k {
		case 0:
			s.n = []int64{0, 3, 5000}[sym.Choice(l+".n", 3)]
		case 1:
			s.n, s.o = 4, []int64{0, 2, 6000}[sym.Choice(l+".off", 3)]
		case 2:
			k := sym.Choice(l+".to", 5)
			s.o, s.w = []int64{1, 2, -1, -1, 0}[k], []int{0, 1, 2, 0, 2}[k]
		case 4, 5:
			s.n = []int64{-1, 1}[sym.Choice(l+".n", 2)]
		}
		x, y := s.do(a), s.do(b)
		sym.Assert(x == y, fmt.Sprint("call ", s.k, " returns what the writable handle returns"), x+" instead of "+y)
	}
	sym.Assert(step{k: 8}.do(a) == step{k: 8}.do(b), "Close returns what the writable handle returns", "")
	t := sym.Snap(r.Drive)
	sym.Assert(sym.SnapLen(t) == sym.SnapLen(tape) && sym.Prefix(tape, t), "read: the tape is unchanged", "")
	same(index, dump(r), "read")
	sym.Reach("read")
}

func instance(h *hx.Hist) *ro {
	k := sym.Choice("instance", 2+2*sym.Tier())
	if sym.Tier() == 0 {
		k *= 3
	}
	return open(h, k&1 != 0, k&2 != 0)
}

// HOne: one call on instances with and without an index and a write backend; then the tree is read.
func HOne() {
	r := instance(hx.PopulateWith(hx.Opt{}, hx.Styles[0]))
	r.call("op")
	hx.SameSeen(r.want, r.Walk(true), "read-only instance")
	r.unchanged("read")
	sym.Reach("read-only")
}

// HTwo: two calls.
func HTwo() {
	h := hx.PopulateWith(hx.Opt{Rec: 3}, hx.Styles[1])
	r := open(h, false, false)
	for _, l := range []string{"A", "B"} {
		r.call(l)
	}
}

// HConf: other pipelines, caches and styles.
func HConf() {
	confs := []hx.Opt{
		{Comp: config.CompressionFormatGZipKey}, {Comp: config.CompressionFormatLZ4Key, Cache: config.WriteCacheTypeFile}, {Enc: config.EncryptionFormatAgeKey},
		{Enc: config.EncryptionFormatPGPKey, Sig: config.SignatureFormatPGPKey}, {Sig: config.SignatureFormatMinisignKey}, {Cache: config.WriteCacheTypeFile, PermRead: true},
	}
	c := sym.Choice("conf", len(confs))
	h := hx.PopulateWith(confs[c], hx.Styles[c%4])
	k := sym.Choice("instance", 2) * 3
	r := open(h, k&1 != 0, k&2 != 0)
	r.call("B")
	hx.SameSeen(r.want, r.Walk(true), "read-only instance")
	r.unchanged("read")
}

// HHistory: the tape was written by one more call.
func HHistory() {
	h := hx.PopulateWith(hx.Opt{}, hx.Styles[0])
	h.Perform(hx.Pick("op", hx.Short()), "op")
	r := instance(h)
	hx.SameSeen(r.want, r.Walk(true), "read-only instance")
	r.unchanged("read")
	for _, p := range []string{"/n", "/0/f"} {
		denied(r.FS.RemoveAll(p), "RemoveAll")
		_, err := r.FS.Create(p)
		denied(err, "Create")
	}
	r.unchanged("after the calls")
}

// HEmpty: there is no tape, an empty one, or one that was cut off.
func HEmpty() {
	e := hx.New(hx.Opt{ReadOnly: true, NoWrite: sym.Fork(sym.Bool("nowrite"))})
	k := sym.Choice("tape", 4)
	switch k {
	case 1:
		hx.Must(os.WriteFile(e.Drive, nil, 0o600), "empty tape")
	case 2:
		hx.Must(os.WriteFile(e.Drive, make([]byte, 1024), 0o600), "zero tape")
	case 3:
		hx.Must(os.WriteFile(e.Drive, make([]byte, 700), 0o600), "short tape")
	}
	s := sym.Snap(e.Drive)
	_, err := e.FS.Initialize("/", os.ModePerm)
	sym.Assert(err != nil, "there is nothing to open", "")
	if k < 3 {
		denied(err, "Initialize")
	}
	if k == 0 {
		_, err := os.Stat(e.Drive)
		sym.Assert(os.IsNotExist(err), "no tape is created", hx.E(err))
	} else {
		t := sym.Snap(e.Drive)
		sym.Assert(sym.SnapLen(t) == sym.SnapLen(s) && sym.Prefix(s, t), "the tape is unchanged", "")
	}
	sym.Assert(len(e.Headers()) == 0, "the index stays empty", "")
}

// HTorn: a tape that was cut off anywhere is opened without an index.
func HTorn() {
	h := hx.PopulateWith(hx.Opt{Rec: 3}, hx.Styles[0])
	n := sym.SnapLen(sym.Snap(h.Drive))
	cut := n - sym.Int("lost", 0, 5000+4000*int64(sym.Tier()))
	hx.Must(os.Truncate(h.Drive, cut), "cut")
	o := h.Opt
	o.ReadOnly = true
	r := &ro{s: h.S, tape: sym.Snap(h.Drive), Env: h.With(o, true)}
	_, err := r.FS.Initialize("/", os.ModePerm)
	t := sym.Snap(r.Drive)
	sym.Assert(sym.SnapLen(t) == sym.SnapLen(r.tape) && sym.Prefix(r.tape, t), "opened: the tape is unchanged", "")
	if err != nil {
		sym.Stop()
	}
	r.index = dump(r.Env)
	denied(r.FS.Mkdir("/n", 0o700), "Mkdir")
	_, err = r.FS.Create("/n")
	denied(err, "Create")
	denied(r.FS.RemoveAll("/a"), "RemoveAll")
	f, err := r.FS.OpenFile("/h", os.O_RDWR|os.O_TRUNC, 0)
	if err == nil {
		_, err = f.Write([]byte("x"))
		sym.Assert(err != nil, "writing fails", "")
		f.Close()
	}
	r.unchanged("torn")
}
