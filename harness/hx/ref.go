package hx

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/internal/suffix"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	stfs "github.com/pojntfx/stfs/pkg/fs"
)

// Node is one entry of the reference filesystem. Attributes that no call has set are not compared.
type Node struct {
	Dir   bool
	Data  []byte
	Perm  os.FileMode
	HasP  bool
	Uid   int
	Gid   int
	HasO  bool
	Mtime time.Time
	Atime time.Time
	HasT  bool
}

// Ref is a hierarchical in-memory filesystem with absolute, cleaned paths.
type Ref map[string]*Node

func NewRef() Ref { return Ref{"/": {Dir: true}} }

func (r Ref) Clone() Ref {
	n := Ref{}
	for k, v := range r {
		c := *v
		n[k] = &c
	}
	return n
}

func (r Ref) Names() []string {
	l := []string{}
	for k := range r {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (r Ref) Children(p string) []string {
	l := []string{}
	for k := range r {
		if k != "/" && path.Dir(k) == p {
			l = append(l, path.Base(k))
		}
	}
	sort.Strings(l)
	return l
}

func (r Ref) parentOK(p string) bool {
	d, ok := r[path.Dir(p)]
	return ok && d.Dir
}

func (r Ref) Mkdir(p string, m os.FileMode) bool {
	if _, ok := r[p]; ok || !r.parentOK(p) {
		return false
	}
	r[p] = &Node{Dir: true, Perm: m, HasP: true}
	return true
}

// MkdirAll creates as many directories as it can before it fails, like the real thing.
func (r Ref) MkdirAll(p string, m os.FileMode) bool {
	parts := []string{}
	for q := p; q != "/"; q = path.Dir(q) {
		parts = append([]string{q}, parts...)
	}
	for _, q := range parts {
		if n, ok := r[q]; ok {
			if !n.Dir {
				return false
			}
			continue
		}
		r.Mkdir(q, m)
	}
	return true
}

// Put is Create, Write, Close.
func (r Ref) Put(p string, data []byte) bool {
	if n, ok := r[p]; ok {
		if n.Dir {
			return false
		}
		n.Data = data
		n.HasT = false
		return true
	}
	if !r.parentOK(p) {
		return false
	}
	r[p] = &Node{Data: data, Perm: 0o666, HasP: true}
	return true
}

func (r Ref) Remove(p string) bool {
	n, ok := r[p]
	if !ok || p == "/" || n.Dir && len(r.Children(p)) > 0 {
		return false
	}
	delete(r, p)
	return true
}

func Under(p, dir string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

func (r Ref) RemoveAll(p string) bool {
	for k := range r {
		if Under(k, p) {
			delete(r, k)
		}
	}
	return true
}

func (r Ref) Rename(a, b string) bool {
	n, ok := r[a]
	if !ok || a == "/" {
		return false
	}
	if a == b {
		return true
	}
	if Under(b, a) || !r.parentOK(b) {
		return false
	}
	if t, ok := r[b]; ok {
		if t.Dir != n.Dir || t.Dir && len(r.Children(b)) > 0 {
			return false
		}
		delete(r, b)
	}
	moved := Ref{}
	for k, v := range r {
		if Under(k, a) {
			delete(r, k)
			moved[b+k[len(a):]] = v
		}
	}
	for k, v := range moved {
		r[k] = v
	}
	return true
}

// ---- what a user can see ----

// Seen is one entry as observed through the filesystem.
type Seen struct {
	Name string
	Dir  bool
	Size int64
	Mode os.FileMode
	Mod  time.Time
	Uid  uint32
	Gid  uint32
	Atim int64
	Ctim int64
	Link string
	Data []byte
}

func see(name string, fi os.FileInfo) *Seen {
	s := &Seen{Name: name, Dir: fi.IsDir(), Size: fi.Size(), Mode: fi.Mode(), Mod: fi.ModTime()}
	if st, ok := fi.Sys().(*stfs.Stat); ok {
		s.Uid, s.Gid = st.Uid, st.Gid
		s.Atim = st.Atim.Sec*1000000000 + st.Atim.Nsec
		s.Ctim = st.Ctim.Sec*1000000000 + st.Ctim.Nsec
	}
	return s
}

// Walk lists the tree from the root by Readdir, looks every entry up by its path and reads files.
// The listing must agree with the lookups.
func (e *Env) Walk(content bool) map[string]*Seen {
	return e.walk(content, func(ok bool, label, detail string) { sym.Assert(ok, label, detail) })
}

func (e *Env) walk(content bool, assert func(bool, string, string)) map[string]*Seen {
	res := map[string]*Seen{}
	fi, err := e.V().Stat("/")
	assert(err == nil, "root can be stat-ed", E(err))
	if err != nil {
		return res
	}
	assert(fi.IsDir(), "root is a directory", "")
	res["/"] = see("/", fi)
	todo := []string{"/"}
	for len(todo) > 0 {
		d := todo[0]
		todo = todo[1:]
		f, err := e.V().Open(d)
		assert(err == nil, "directory opens", d+": "+E(err))
		if err != nil {
			continue
		}
		l, err := f.Readdir(-1)
		assert(err == nil, "directory lists", d+": "+E(err))
		assert(f.Close() == nil, "directory closes", d)
		for _, c := range l {
			p := path.Join(d, c.Name())
			_, dup := res[p]
			assert(!dup || e.Links, "listed once", p)
			if dup {
				continue
			}
			fi, err := e.V().Stat(p)
			assert(err == nil, "listed entry can be stat-ed", p+": "+E(err))
			if err != nil {
				continue
			}
			s := see(p, fi)
			assert(s.Dir == c.IsDir() && s.Mode == c.Mode(), "listed kind", p)
			assert(s.Size == c.Size(), "listed size", p)
			res[p] = s
			if e.Links {
				if _, _, err := e.FS.LstatIfPossible(p); err == nil {
					continue // a symbolic link
				}
			}
			if s.Dir {
				todo = append(todo, p)
			} else if content {
				b, err := e.ReadAll(p)
				assert(err == nil, "listed file reads", p+": "+E(err))
				s.Data = b
				assert(int64(len(b)) == s.Size, "size is the content length", p)
			}
		}
	}
	return res
}

// See looks an entry up by its path.
func (e *Env) See(p string) (*Seen, error) {
	fi, err := e.V().Stat(p)
	if err != nil {
		return nil, err
	}
	return see(p, fi), nil
}

// SeeLink observes what a path that may be a symbolic link shows.
func (e *Env) SeeLink(p string) *Seen {
	fi, _, err := e.FS.LstatIfPossible(p)
	if err != nil {
		return &Seen{Name: p, Link: "lstat: " + err.Error()}
	}
	s := see(p, fi)
	s.Link, err = e.FS.ReadlinkIfPossible(p)
	s.Link += " " + E(err)
	fi, err = e.V().Stat(p)
	s.Link += " stat " + E(err)
	if err == nil {
		s.Link += " " + fi.Name() + " " + fi.Mode().String()
		if !fi.IsDir() {
			s.Data, err = e.ReadAll(p)
			s.Link += " read " + E(err)
		}
	}
	return s
}

// CheckRef compares what is visible with the reference.
func (e *Env) CheckRef(r Ref, at string, content bool) {
	w := e.Walk(content)
	for _, n := range r.Names() {
		_, ok := w[n]
		sym.Assert(ok, at+": entry is there", n)
	}
	for n, s := range w {
		x, ok := r[n]
		sym.Assert(ok, at+": no other entry", n)
		sym.Assert(x.Dir == s.Dir, at+": kind", n)
		if !x.Dir {
			sym.Assert(int64(len(x.Data)) == s.Size, at+": size", n)
			if content {
				sym.Assert(bytes.Equal(x.Data, s.Data), at+": content", n)
			}
		}
		if x.HasP {
			sym.Assert(x.Perm == s.Mode.Perm(), at+": permission bits", n)
		}
		if x.HasO {
			sym.Assert(uint32(x.Uid) == s.Uid && uint32(x.Gid) == s.Gid, at+": owner", n)
		}
		if x.HasT {
			sym.Assert(x.Mtime.Equal(s.Mod), at+": modification time", n)
			sym.Assert(x.Atime.UnixNano() == s.Atim, at+": access time", n)
		}
	}
}

// SameTree asserts that two instances show the same tree.
func SameTree(a, b *Env, at string, content bool) {
	x := a.Walk(content)
	y := b.Walk(content)
	SameSeen(x, y, at)
}

func SameSeen(x, y map[string]*Seen, at string) {
	for n := range x {
		_, ok := y[n]
		sym.Assert(ok, at+": entry is missing", n)
	}
	for n, t := range y {
		s, ok := x[n]
		sym.Assert(ok, at+": entry should not be there", n)
		SameEntry(s, t, at)
	}
}

func SameEntry(s, t *Seen, at string) {
	n := s.Name
	sym.Assert(s.Dir == t.Dir, at+": kind", n)
	sym.Assert(s.Size == t.Size, at+": size", n)
	sym.Assert(s.Mode == t.Mode, at+": mode", n)
	sym.Assert(s.Uid == t.Uid && s.Gid == t.Gid, at+": owner", n)
	sym.Assert(s.Mod.Equal(t.Mod), at+": modification time", n)
	sym.Assert(s.Atim == t.Atim, at+": access time", n)
	sym.Assert(s.Ctim == t.Ctim, at+": change time", n)
	sym.Assert(s.Link == t.Link, at+": link target", n)
	sym.Assert(bytes.Equal(s.Data, t.Data), at+": content", n)
}

// ---- symbolic histories ----

// Style maps the tokens of the name universe to names.
type Style []string

// Styles: plain names, SQL wildcards and prefixes of each other, dots, spaces and multi-byte
// characters, components too long for a ustar header.
var Styles = []Style{
	{"a", "b", "c", "d"},
	{"a", "a_", "a%", "ab"},
	{"...", " x", "ä.b", "x y"},
	{strings.Repeat("l", 110), strings.Repeat("l", 110) + "m", "l", strings.Repeat("ö", 70)},
}

// Suffixed are plain names, all of which end like a file's name does in the pipeline.
func Suffixed(suffix string) Style {
	return Style{"a" + suffix, "b" + suffix, "c" + suffix, "h", suffix}
}

// Ending is Suffixed for the pipeline of a configuration.
func Ending(o Opt) Style {
	s, err := suffix.AddSuffix("", o.Comp, o.Enc)
	Must(err, "suffix")
	return Suffixed(s)
}

// P builds a path from tokens (digits are style names, everything else is taken literally
// apart from the suffix, if the style has one).
func (s Style) P(p string) string {
	if p == "/" {
		return p
	}
	parts := strings.Split(p[1:], "/")
	for i, q := range parts {
		if len(q) == 1 && q[0] >= '0' && q[0] <= '9' {
			parts[i] = s[q[0]-'0']
		} else if len(s) > 4 {
			parts[i] += s[4]
		}
	}
	return "/" + strings.Join(parts, "/")
}

// Hist is a filesystem together with its reference.
type Hist struct {
	*Env
	Ref   Ref
	S     Style
	Small bool // concrete sizes only
	// Last call
	Op  string
	OK  bool
	Err error
}

// Populate builds a tree with files, directories and names that were used before:
//
//	/0 /0/1 /0/f /0/1/g /2 /2/k (moved from /v) /h (moved from /w) /e (empty directory)
//	deleted: /t; moved away: /v, /v/k, /w; replaced content: /0/f
func Populate(o Opt, s Style) *Hist { return populate(o, s, 600) }

// PopulateWith is Populate with small contents (for pipelines that need concrete sizes).
func PopulateWith(o Opt, s Style) *Hist { h := populate(o, s, 60); h.Small = true; return h }

func populate(o Opt, s Style, n int64) *Hist {
	h := &Hist{Env: NewFS(o), Ref: NewRef(), S: s}
	i := 0
	it := func(p string, dir bool, n int64, b byte) Item {
		p = s.P(p)
		i++
		x := &Node{Dir: dir, Perm: 0o640, HasP: true, Uid: 1000 + i, Gid: 2000 + i, HasO: true,
			Mtime: time.Unix(1500000000+int64(i), 700000001), Atime: time.Unix(1400000000+int64(i), 300000001), HasT: true}
		if dir {
			x.Perm = 0o751
		} else {
			x.Data = sym.Fill(n, b)
		}
		if p == s.P("/v/k") || p == s.P("/e") {
			x.Perm = 0
		}
		h.Ref[p] = x
		return Item{Path: p, Dir: dir, Data: x.Data, Mode: x.Perm, Zero: x.Perm == 0, Mod: x.Mtime,
			Sys: &tar.Header{Uid: x.Uid, Gid: x.Gid, Uname: "u", Gname: "g", AccessTime: x.Atime}}
	}
	Must(h.Archive(false, false,
		it("/0", true, 0, 0), it("/0/1", true, 0, 0), it("/0/f", false, 3, 'F'), it("/0/1/g", false, n+100, 'g'),
		it("/v", true, 0, 0), it("/v/k", false, 5, 'k'), it("/w", false, 2, 'w'), it("/t", false, 1, 't'), it("/e", true, 0, 0),
	), "populate")
	Must(h.W.Move(s.P("/v"), s.P("/2")), "populate move")
	h.Ref.Rename(s.P("/v"), s.P("/2"))
	Must(h.W.Move(s.P("/w"), s.P("/h")), "populate move")
	h.Ref.Rename(s.P("/w"), s.P("/h"))
	Must(h.W.Delete(s.P("/t")), "populate delete")
	h.Ref.Remove(s.P("/t"))
	Must(h.Update(true, it("/0/f", false, n, 'f')), "populate update")
	return h
}

// Call is one member of a repertoire of calls.
type Call struct{ Op, A, B string }

func (c Call) String() string { return c.Op + " " + c.A + " " + c.B }

// Full is every call of the repertoire over every path of the universe.
func Full() []Call {
	exist := []string{"/0", "/0/1", "/0/f", "/0/1/g", "/2", "/2/k", "/h", "/e"}
	gone := []string{"/t", "/v", "/v/k", "/w"}
	fresh := []string{"/n", "/0/n", "/0/f/x", "/m/n", "/3", "/0/1/1/1"}
	all := append(append(append([]string{}, exist...), gone...), fresh...)
	l := []Call{}
	for _, p := range all {
		for _, op := range []string{"mkdir", "mkdirall", "put", "remove", "removeall", "chmod", "chown", "chtimes"} {
			l = append(l, Call{op, p, ""})
		}
	}
	src := []string{"/0", "/0/1", "/0/f", "/h", "/2", "/e", "/2/k", "/t", "/n"}
	for _, a := range src {
		for _, b := range append(append([]string{}, all...), "/0/1/n", "/2/0", "/") {
			l = append(l, Call{"rename", a, b})
		}
	}
	for _, c := range []Call{{"rename", "/", "/n"}, {"mkdir", "/", ""}, {"mkdirall", "/", ""}, {"put", "/", ""}, {"chmod", "/", ""}, {"chown", "/", ""}, {"chtimes", "/", ""}} {
		l = append(l, c)
	}
	return l
}

// Short is a repertoire for longer histories.
func Short() []Call {
	return []Call{
		{"mkdir", "/t", ""}, {"mkdir", "/n", ""}, {"mkdirall", "/v/k/n", ""}, {"mkdirall", "/h/n", ""},
		{"put", "/n", ""}, {"put", "/t", ""}, {"put", "/0/f", ""}, {"put", "/v", ""}, {"put", "/0", ""},
		{"remove", "/0/f", ""}, {"remove", "/e", ""}, {"remove", "/0", ""}, {"remove", "/n", ""},
		{"removeall", "/0", ""}, {"removeall", "/2", ""}, {"removeall", "/n", ""},
		{"rename", "/0", "/n"}, {"rename", "/n", "/0"}, {"rename", "/2", "/v"}, {"rename", "/0/1", "/1"},
		{"rename", "/h", "/t"}, {"rename", "/0/f", "/h"}, {"rename", "/h", "/0/f"}, {"rename", "/2", "/e"}, {"rename", "/0", "/0/1/n"}, {"rename", "/e", "/2/e"},
		{"chmod", "/h", ""}, {"chmod", "/0/f", ""}, {"chown", "/n", ""}, {"chtimes", "/0/1", ""}, {"chtimes", "/0/f", ""},
	}
}

// num is a symbolic attribute value (concrete in configurations that serialise headers).
func (h *Hist) num(label string, lo, hi int64) int64 {
	if h.Small {
		return lo + (hi-lo)*2/3
	}
	return sym.Int(label, lo, hi)
}

// Perform runs one call against the filesystem and the reference.
func (h *Hist) Perform(c Call, label string) {
	a, b := h.S.P(c.A), c.B
	if b != "" {
		b = h.S.P(b)
	}
	h.Op = c.String()
	r := h.Ref
	var err error
	var want bool
	switch c.Op {
	case "mkdir":
		m := os.FileMode(h.num(label+".mode", 0, 0o777))
		err = h.V().Mkdir(a, m)
		want = r.Mkdir(a, m)
	case "mkdirall":
		err = h.V().MkdirAll(a, 0o711)
		want = r.MkdirAll(a, 0o711)
	case "put":
		d := sym.Fill(sym.Int(label+".size", 0, 9), 'p')
		if h.Small {
			d = sym.Fill([]int64{0, 1, 600}[sym.Choice(label+".size", 3)], 'p')
		} else if sym.Fork(sym.Bool(label + ".big")) {
			d = sym.Fill(sym.Int(label+".size", 1000, 8191), 'P')
		}
		err = h.Write(a, d)
		want = r.Put(a, d)
	case "remove":
		err = h.V().Remove(a)
		want = r.Remove(a)
	case "removeall":
		err = h.V().RemoveAll(a)
		want = r.RemoveAll(a)
	case "rename":
		err = h.V().Rename(a, b)
		want = r.Rename(a, b)
	case "chmod":
		m := os.FileMode(h.num(label+".mode", 0, 0o777))
		err = h.V().Chmod(a, m)
		n, ok := r[a]
		want = ok
		if ok {
			n.Perm, n.HasP = m, true
		}
	case "chown":
		u, g := int(h.num(label+".uid", 0, 0o7777777)), int(h.num(label+".gid", 0, 0o7777777))
		err = h.V().Chown(a, u, g)
		n, ok := r[a]
		want = ok
		if ok {
			n.Uid, n.Gid, n.HasO = u, g, true
		}
	case "chtimes":
		t := time.Unix(h.num(label+".mtime", 1000000000, 1999999999), 600000001)
		at := time.Unix(h.num(label+".atime", 1000000000, 1999999999), 123456789)
		err = h.V().Chtimes(a, at, t)
		n, ok := r[a]
		want = ok
		if ok {
			n.Mtime, n.Atime, n.HasT = t, at, true
		}
	}
	h.OK, h.Err = want, err
	sym.Observe(h.Op, err == nil)
}

// Agree asserts that the last call succeeded exactly when the reference did.
func (h *Hist) Agree() {
	if h.OK {
		sym.Assert(h.Err == nil, "call succeeds: "+strings.Fields(h.Op)[0], h.Op+": "+E(h.Err))
	} else {
		sym.Assert(h.Err != nil, "call fails: "+strings.Fields(h.Op)[0], h.Op)
	}
}

// Pick chooses a call.
func Pick(label string, l []Call) Call { return l[sym.Choice(label, len(l))] }

// Standard reads all records the way a standard tar program would (ignoring zero blocks).
func Standard(drive string) []Rec {
	s := Scan(drive, true)
	sym.Assert(s.Err == "", "tape is readable", s.Err)
	return s.Recs
}

var _ = fmt.Sprint
var _ = io.EOF
var _ = tar.TypeReg

// ---- reference interpretation of a tape ----

// Replay interprets the records of an unencrypted tape independently of the code under test.
func Replay(recs []Rec) map[string]*Seen {
	m := map[string]*Seen{}
	for _, r := range recs {
		h := r.Hdr
		n := Abs(strings.TrimSuffix(h.Name, "/"))
		fi := h.FileInfo()
		s := &Seen{Name: n, Dir: fi.IsDir(), Size: h.Size, Mode: fi.Mode(), Mod: h.ModTime, Uid: uint32(h.Uid), Gid: uint32(h.Gid), Data: r.Data}
		if !h.AccessTime.IsZero() {
			s.Atim = h.AccessTime.UnixNano()
		}
		if !h.ChangeTime.IsZero() {
			s.Ctim = h.ChangeTime.UnixNano()
		}
		switch h.PAXRecords["STFS.Action"] {
		case "", "CREATE":
			m[n] = s
		case "DELETE":
			delete(m, n)
		case "UPDATE":
			old := n
			if o, ok := h.PAXRecords["STFS.ReplacesName"]; ok {
				old = Abs(o)
			}
			p, ok := m[old]
			if !ok {
				continue
			}
			if h.PAXRecords["STFS.ReplacesContent"] != "true" {
				s.Data, s.Size = p.Data, p.Size
			}
			delete(m, old)
			m[n] = s
		}
	}
	return m
}

// SameReplay compares what is visible with a replay; other is exempt.
func SameReplay(want, got map[string]*Seen, at, other string) {
	for n := range want {
		if n == other {
			continue
		}
		_, ok := got[n]
		sym.Assert(ok, at+": entry is missing", n)
	}
	for n, g := range got {
		if n == other {
			continue
		}
		w, ok := want[n]
		sym.Assert(ok, at+": entry should not be there", n)
		c := *w
		if c.Atim == 0 {
			c.Atim = g.Atim
		}
		if c.Ctim == 0 {
			c.Ctim = g.Ctim
		}
		SameEntry(&c, g, at)
	}
}

// Pick2 chooses a string.
func Pick2(label string, l []string) string { return l[sym.Choice(label, len(l))] }
