// Package c17: foreign tar archives open as filesystems; path spellings are interchangeable.
package c17

import (
	"archive/tar"
	"bytes"
	"os"
	"path"
	"strings"
	"time"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
)

// layout is how the members of an archive are named.
type layout struct {
	name   string
	root   string
	prefix string
}

var layouts = []layout{
	{"dot", "./", "./"},
	{"absolute", "/", "/"},
	{"top", "top/", "top/"},
}

var formats = []tar.Format{tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU}

// member is one entry of a foreign archive.
type member struct {
	path string // below the root of the filesystem
	dir  bool
	data []byte
}

type archive struct {
	lay    layout
	format tar.Format
	slash  bool // directories end with a slash
	pad    int  // zero bytes behind the trailer
	sym    bool // symbolic attributes
}

// foreign writes an archive the way a standard program does and returns the tree it describes.
func foreign(o hx.Opt, a archive, ms ...member) *hx.Hist {
	h := &hx.Hist{Env: hx.New(o), Ref: hx.NewRef()}
	f, err := os.OpenFile(h.Drive, os.O_CREATE|os.O_WRONLY, 0o600)
	hx.Must(err, "create archive")
	tw := tar.NewWriter(f)
	for i, m := range append([]member{{path: "/", dir: true}}, ms...) {
		hdr := &tar.Header{
			Typeflag: tar.TypeReg, Name: a.lay.prefix + m.path[1:], Mode: 0o640, Uid: 1000 + i, Gid: 100, Uname: "u", Gname: "g",
			ModTime: time.Unix(1500000000+int64(i), 0), Size: int64(len(m.data)), Format: a.format,
		}
		if m.path == "/" {
			hdr.Name = a.lay.root
		}
		if m.dir {
			hdr.Typeflag, hdr.Mode = tar.TypeDir, 0o750
			hdr.Name = strings.TrimSuffix(hdr.Name, "/")
			if a.slash || hdr.Name == "" {
				hdr.Name += "/"
			}
		}
		if a.sym && i < 3 {
			hdr.Mode = sym.Int("mode", 0, 0o777)
			hdr.ModTime = time.Unix(sym.Int("mtime", 1000000000, 1999999999), 0)
			hdr.Uid = int(sym.Int("uid", 0, 0o7777777))
		}
		hx.Must(tw.WriteHeader(hdr), "header of "+hdr.Name)
		if len(m.data) > 0 {
			_, err := tw.Write(m.data)
			hx.Must(err, "content of "+hdr.Name)
		}
		h.Ref[m.path] = &hx.Node{Dir: m.dir, Data: m.data, Perm: os.FileMode(hdr.Mode), HasP: true,
			Uid: hdr.Uid, Gid: hdr.Gid, HasO: true}
	}
	hx.Must(tw.Close(), "close archive")
	if a.pad > 0 {
		_, err := f.Write(make([]byte, a.pad))
		hx.Must(err, "pad archive")
	}
	hx.Must(f.Close(), "close archive")
	return h
}

var styles = append(append([]hx.Style{}, hx.Styles[:3]...), hx.Style{"...", " x", strings.Repeat("x", 90), "x y"})

// standard is the tree that the calls of the shared repertoire refer to.
func standard(s hx.Style, n int64) []member {
	l := []member{
		{"/0", true, nil}, {"/0/1", true, nil}, {"/0/f", false, sym.Fill(n, 'f')}, {"/0/1/g", false, sym.Fill(n+100, 'g')},
		{"/2", true, nil}, {"/2/k", false, sym.Fill(5, 'k')}, {"/h", false, sym.Fill(2, 'w')}, {"/e", true, nil},
	}
	for i := range l {
		l[i].path = s.P(l[i].path)
	}
	return l
}

// pick chooses the kind of the archive.
func pick() archive {
	return archive{
		lay:    layouts[sym.Choice("layout", len(layouts))],
		format: formats[sym.Choice("format", len(formats))],
		slash:  true,
	}
}

// rebuilt mounts a from-scratch rebuild and compares it with the reference.
func rebuilt(h *hx.Hist, at string) {
	n, err := h.Rebuild()
	sym.Assert(err == nil, at+": rebuild", hx.E(err))
	err = n.Mount(config.NoneKey)
	sym.Assert(err == nil, at+": rebuild opens", hx.E(err))
	n.CheckRef(h.Ref, at+": rebuilt", true)
}

func mount(h *hx.Hist) {
	if sym.Fork(sym.Bool("indexed before")) {
		err := h.Index(true, false)
		sym.Assert(err == nil, "index", hx.E(err))
	}
	err := h.Mount(config.NoneKey)
	sym.Assert(err == nil, "opens", hx.E(err))
}

// HOpen: every layout, format and kind of padding opens, lists everything and reads back.
func HOpen() {
	a := pick()
	a.slash = sym.Fork(sym.Bool("slash"))
	a.pad = []int{0, 512, 8192}[sym.Choice("pad", 3)]
	a.sym = true
	h := foreign(hx.Opt{Rec: []int{1, 3, 20}[sym.Choice("rec", 3)]}, a, standard(hx.Styles[0], 600)...)
	mount(h)
	h.CheckRef(h.Ref, "opened", true)
	rebuilt(h, "opened")
	sym.Reach("opened")
}

// HCalls: further calls on an opened archive.
func HCalls() {
	a := pick()
	style := sym.Choice("style", 3)
	if style == 2 && a.format == tar.FormatUSTAR {
		style = 3 // USTAR can not encode these names
	}
	h := foreign(hx.Opt{Rec: 3}, a, standard(styles[style], 600)...)
	h.S, h.Small = styles[style], true
	mount(h)
	h.Perform(hx.Pick("op", hx.Short()), "op")
	h.Agree()
	h.CheckRef(h.Ref, "called", true)
	rebuilt(h, "called")
}

// HSpell: equivalent spellings resolve to the same entry.
func HSpell() {
	a := pick()
	h := foreign(hx.Opt{Rec: 3}, a, standard(hx.Styles[0], 600)...)
	h.S = hx.Styles[0]
	mount(h)
	if sym.Fork(sym.Bool("added")) {
		hx.Must(h.Write("/e/new", []byte("n")), "add")
		h.Ref.Put("/e/new", []byte("n"))
	}
	p := hx.Pick2("path", []string{"/0", "/0/1", "/0/f", "/0/1/g", "/2/k", "/h", "/e", "/e/new", "/nope", "/0/nope"})
	p = h.S.P(p)
	q := []string{p[1:], "." + p, p + "/", "/." + p, "/0/.." + p, p[1:] + "/"}[sym.Choice("spelling", 6)]
	x, err := h.See(p)
	y, err2 := h.See(q)
	sym.Assert((err == nil) == (err2 == nil), "both are there", hx.E(err)+" / "+hx.E(err2))
	sym.Assert((err == nil) == (h.Ref[p] != nil), "is there", hx.E(err))
	if err != nil {
		return
	}
	hx.SameEntry(x, y, "spelling")
	if !x.Dir {
		b, err := h.ReadAll(q)
		sym.Assert(err == nil && bytes.Equal(b, h.Ref[p].Data), "content by another spelling", hx.E(err))
	} else {
		f, err := h.V().Open(q)
		sym.Assert(err == nil, "directory opens", hx.E(err))
		l, err := f.Readdirnames(-1)
		sym.Assert(err == nil && len(l) == len(h.Ref.Children(p)), "children by another spelling", hx.E(err))
		for _, c := range l {
			_, ok := h.Ref[path.Join(p, c)]
			sym.Assert(ok, "child by another spelling", c)
		}
	}
}

// HTops: further names of the top directory.
func HTops() {
	top := hx.Pick2("top", []string{"a", "top dir/", "x/y/", "/home/user/", "./top/", ".top/", "t%/", "a_/", "..top/"})
	a := archive{layout{"", top, strings.TrimSuffix(top, "/") + "/"}, formats[sym.Choice("format", len(formats))], sym.Fork(sym.Bool("slash")), 0, false}
	h := foreign(hx.Opt{Rec: 3}, a, standard(hx.Styles[1], 300)...)
	h.S, h.Small = hx.Styles[1], true
	mount(h)
	h.CheckRef(h.Ref, "opened", true)
	h.Perform(hx.Pick("op", []hx.Call{{"put", "/n", ""}, {"put", "/0/f", ""}, {"mkdirall", "/0/n/m", ""}, {"rename", "/0", "/n"}, {"removeall", "/0", ""}, {"chmod", "/0/f", ""}}), "op")
	h.Agree()
	h.CheckRef(h.Ref, "called", true)
	rebuilt(h, "called")
}

// HTree: symbolic names and sizes.
func HTree() {
	a := pick()
	if sym.Tier() == 0 && a.lay.name != "top" && a.format != tar.FormatPAX {
		sym.Stop()
	}
	abc := "a._%b "
	abc = abc[:4+2*sym.Tier()]
	d := sym.Str("dir", 1+sym.Choice("dir.len", 1+sym.Tier()), abc)
	f := sym.Str("file", 1+sym.Choice("file.len", 1+sym.Tier()), abc)
	g := sym.Str("other", 1+sym.Choice("other.len", 2), abc)
	for _, n := range []string{d, f, g} {
		sym.Assume(n != "." && n != "..")
	}
	sym.Assume(d != g)
	h := foreign(hx.Opt{Rec: 3}, a, member{"/" + d, true, nil}, member{"/" + d + "/" + f, false, sym.Fill(sym.Int("size", 0, 2000), 'f')}, member{"/" + g, false, sym.Fill(sym.Int("size", 0, 2000), 'g')})
	err := h.Mount(config.NoneKey)
	sym.Assert(err == nil, "opens", hx.E(err))
	h.CheckRef(h.Ref, "opened", true)
	n := sym.Str("new", 1, abc)
	sym.Assume(n != "." && n != d && n != g)
	data := sym.Fill(sym.Int("size", 0, 2000), 'n')
	p := "/" + n
	if sym.Fork(sym.Bool("below")) {
		p = "/" + d + p
		sym.Assume(n != f)
	}
	err = h.Write(p, data)
	sym.Assert(err == nil, "adds a file", hx.E(err))
	h.Ref.Put(p, data)
	h.CheckRef(h.Ref, "added", true)
	rebuilt(h, "added")
}

// HLong: names and paths around the limits of the formats.
func HLong() {
	a := pick()
	n := []int{98, 99, 100, 101, 154, 155, 156, 255}[sym.Choice("length", 8)]
	p := []string{"/" + strings.Repeat("n", n), "/" + strings.Repeat("d", n/2) + "/" + strings.Repeat("n", n-n/2-1), "/d/e/f/g/h/" + strings.Repeat("n", n)}[sym.Choice("path", 3)]
	if a.format == tar.FormatUSTAR && (n > 156 || strings.HasPrefix(p, "/n") && n > 96 || strings.HasPrefix(p, "/d/e") && n > 99) {
		sym.Stop() // USTAR can not encode this
	}
	ms := []member{}
	for d := path.Dir(p); d != "/"; d = path.Dir(d) {
		ms = append([]member{{d, true, nil}}, ms...)
	}
	ms = append(ms, member{p, false, sym.Fill(600, 'l')})
	h := foreign(hx.Opt{Rec: 2}, a, ms...)
	mount(h)
	h.CheckRef(h.Ref, "opened", true)
	hx.Must(h.V().Chmod(p, 0o600), "chmod")
	h.Ref[p].Perm = 0o600
	q := p + "2"
	err := h.V().Rename(p, q)
	sym.Assert(err == nil, "rename", hx.E(err))
	h.Ref.Rename(p, q)
	h.CheckRef(h.Ref, "renamed", true)
	rebuilt(h, "renamed")
}

// HOther: links, devices and pipes are listed.
func HOther() {
	a := pick()
	h := foreign(hx.Opt{Rec: 2}, a, standard(hx.Styles[0], 300)...)
	f, err := os.OpenFile(h.Drive, os.O_RDWR, 0)
	hx.Must(err, "open")
	st, err := f.Stat()
	hx.Must(err, "stat")
	_, err = f.Seek(st.Size()-1024, 0)
	hx.Must(err, "seek")
	tw := tar.NewWriter(f)
	k := sym.Choice("kind", 4)
	hdr := &tar.Header{Typeflag: []byte{tar.TypeSymlink, tar.TypeLink, tar.TypeFifo, tar.TypeChar}[k], Name: a.lay.prefix + "a/other", Mode: 0o600, Format: a.format, ModTime: time.Unix(1500000000, 0)}
	if k < 2 {
		hdr.Linkname = []string{"f", a.lay.prefix + "a/f"}[k]
	}
	hx.Must(tw.WriteHeader(hdr), "header")
	hx.Must(tw.Close(), "close")
	hx.Must(f.Close(), "close")
	mount(h)
	for _, p := range h.Ref.Names() {
		x, err := h.See(p)
		sym.Assert(err == nil && x.Dir == h.Ref[p].Dir, "the others are there", p+": "+hx.E(err))
		if !x.Dir {
			b, err := h.ReadAll(p)
			sym.Assert(err == nil && bytes.Equal(b, h.Ref[p].Data), "the others read", p+": "+hx.E(err))
		}
	}
	if k < 2 {
		// Known finding: symbolic and hard links are stored the other way round by STFS itself
		sym.Known("C17-links")
	}
	d, err := h.V().Open("/a")
	hx.Must(err, "open")
	l, err := d.Readdirnames(-1)
	sym.Assert(err == nil, "lists", hx.E(err))
	found := false
	for _, n := range l {
		found = found || n == "other"
	}
	sym.Assert(found, "is listed", strings.Join(l, " "))
	sym.Assert(len(l) == 3, "nothing else is listed", strings.Join(l, " "))
}

// HCache: the other kind of composition.
func HCache() {
	a := pick()
	h := foreign(hx.Opt{Rec: 2}, a, standard(hx.Styles[0], 300)...)
	err := h.Mount(config.FileSystemCacheTypeMemory)
	sym.Assert(err == nil, "opens", hx.E(err))
	for _, p := range h.Ref.Names() {
		if p == "/" {
			continue
		}
		_, err := h.V().Stat(p)
		sym.Assert(err == nil, "is there", p+": "+hx.E(err))
		if n := h.Ref[p]; !n.Dir {
			b, err := h.ReadAll(p)
			sym.Assert(err == nil && bytes.Equal(b, n.Data), "content", p+": "+hx.E(err))
		}
	}
}

// HTwo: two calls with a rebuild in between.
func HTwo() {
	a := pick()
	l := []hx.Call{{"put", "/n", ""}, {"put", "/0/f", ""}, {"mkdirall", "/0/1/n", ""}, {"rename", "/0", "/n"}, {"rename", "/h", "/0/f"}, {"removeall", "/0", ""}, {"remove", "/h", ""}, {"chmod", "/0/f", ""}, {"chtimes", "/0", ""}}
	if sym.Tier() > 0 {
		l = hx.Short()
	}
	h := foreign(hx.Opt{Rec: 3}, a, standard(hx.Styles[0], 300)...)
	h.S, h.Small = hx.Styles[0], true
	mount(h)
	h.Perform(hx.Pick("op", l), "op")
	h.Agree()
	n, err := h.Rebuild()
	sym.Assert(err == nil, "rebuild", hx.E(err))
	h.Env = n
	err = h.Mount(config.NoneKey)
	sym.Assert(err == nil, "rebuild opens", hx.E(err))
	h.Perform(hx.Pick("op", l), "op")
	h.Agree()
	h.CheckRef(h.Ref, "called twice", true)
	rebuilt(h, "called twice")
}
