// Package c13: the namespace is a well-formed tree and listings agree with lookups.
package c13

import (
	"io"
	"path"
	"sort"
	"strings"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
)

// check asserts that the instance's namespace is a well-formed tree.
func check(e *hx.Env, at string, counts []int) {
	live := map[string]bool{}
	for _, h := range e.Headers() {
		n := hx.Abs(h.Name)
		sym.Assert(!live[n], at+": one live entry per name", n)
		live[n] = h.Typeflag == '5'
	}
	w := e.Walk(false)
	for n := range live {
		_, ok := w[n]
		sym.Assert(ok, at+": live entry is reachable", n)
		if n != "/" {
			p, ok := w[path.Dir(n)]
			sym.Assert(ok, at+": entry has a parent", n)
			sym.Assert(p.Dir, at+": parent is a directory", n)
		}
	}
	kids := map[string][]string{}
	for n, s := range w {
		d, ok := live[n]
		sym.Assert(ok, at+": reachable entry is live", n)
		sym.Assert(d == s.Dir, at+": kind in the index", n)
		if n != "/" {
			kids[path.Dir(n)] = append(kids[path.Dir(n)], path.Base(n))
		}
		if !s.Dir {
			f, err := e.FS.Open(n)
			sym.Assert(err == nil, at+": listed file opens", n+": "+hx.E(err))
			fi, err := f.Stat()
			sym.Assert(err == nil, at+": open file can be stat-ed", n+": "+hx.E(err))
			sym.Assert(!fi.IsDir() && fi.Size() == s.Size, at+": kind and size of the open file", n)
			l, err := f.Readdir(-1)
			sym.Assert(err != nil || len(l) == 0, at+": a file lists nothing", n)
			sym.Assert(f.Close() == nil, at+": file closes", n)
		}
	}
	for n, s := range w {
		if s.Dir {
			sort.Strings(kids[n])
			for _, c := range counts {
				list(e, n, kids[n], c, at)
			}
		}
	}
	sym.Reach("checked")
}

// list checks one limited listing by both interfaces.
func list(e *hx.Env, dir string, kids []string, c int, at string) {
	is := map[string]bool{}
	for _, k := range kids {
		is[k] = true
	}
	one := func(names []string, err error, how string) {
		sym.Assert(err == nil || err == io.EOF, at+": "+how, dir+": "+hx.E(err))
		seen := map[string]bool{}
		for _, n := range names {
			sym.Assert(!seen[n], at+": "+how+" lists once", dir+": "+n)
			seen[n] = true
			sym.Assert(is[n], at+": "+how+" lists only children", dir+": "+n)
		}
		if c > 0 {
			sym.Assert(len(names) <= c, at+": "+how+" lists at most as many as asked for", dir)
		}
		if c <= 0 || c > len(kids) {
			sym.Assert(len(names) == len(kids), at+": "+how+" lists every child", dir)
		} else {
			sym.Assert(len(names) > 0, at+": "+how+" lists something", dir)
		}
	}
	f, err := e.FS.Open(dir)
	sym.Assert(err == nil, at+": directory opens", dir+": "+hx.E(err))
	fi, err := f.Stat()
	sym.Assert(err == nil && fi.IsDir(), at+": open directory is one", dir+": "+hx.E(err))
	l, err := f.Readdir(c)
	names := []string{}
	for _, i := range l {
		names = append(names, i.Name())
	}
	one(names, err, "Readdir")
	sym.Assert(f.Close() == nil, at+": directory closes", dir)
	f, err = e.FS.Open(dir)
	sym.Assert(err == nil, at+": directory opens", dir+": "+hx.E(err))
	names, err = f.Readdirnames(c)
	one(names, err, "Readdirnames")
	sym.Assert(f.Close() == nil, at+": directory closes", dir)
}

// HOne: one call of the repertoire after the populated history.
func HOne() {
	h := hx.PopulateWith(hx.Opt{}, hx.Styles[sym.Choice("style", len(hx.Styles))])
	l := hx.Full()
	h.Perform(hx.Pick("op", l), "op")
	check(h.Env, "after the call", []int{-1, 1})
}

// HTwo: two calls.
func HTwo() {
	h := hx.PopulateWith(hx.Opt{Rec: 3}, hx.Styles[0])
	h.Perform(hx.Pick("A", hx.Short()), "A")
	if h.Err != nil {
		sym.Stop()
	}
	h.Perform(hx.Pick("B", hx.Short()), "B")
	check(h.Env, "after two calls", []int{-1, 2})
}

// HCount: every limit on directories of every size, on the running, the reopened and a rebuilt instance.
func HCount() {
	h := hx.PopulateWith(hx.Opt{}, hx.Styles[sym.Choice("style", len(hx.Styles))])
	h.Perform(hx.Pick("op", []hx.Call{{"mkdir", "/n", ""}, {"removeall", "/0", ""}, {"rename", "/0", "/e/0"}, {"rename", "/2", "/n"}}), "op")
	e := h.Env
	switch sym.Choice("instance", 3) {
	case 1:
		e = e.Reopen(false).Init()
	case 2:
		n, err := e.Rebuild()
		sym.Assert(err == nil, "rebuild", hx.E(err))
		e = n
	}
	check(e, "listed", []int{int(sym.Concrete(sym.Int("count", -2, 9))), 100})
}

// HNames: arbitrary names for entries and directories.
func HNames() {
	const odd = "_%. \\aAb"
	a, b := sym.Str("a", 1+sym.Choice("len0", 2), odd), sym.Str("b", 1+sym.Choice("len1", 2), odd)
	sym.Assume(a != "." && a != ".." && b != "." && b != ".." && a != b)
	e := hx.NewFS(hx.Opt{Rec: 2})
	d, f := "/"+a, "/"+b
	sym.Assert(e.FS.MkdirAll(d+f+d, 0o755) == nil, "make directories", "")
	sym.Assert(e.Write(d+d, []byte("x")) == nil, "write", "")
	sym.Assert(e.FS.Mkdir(f, 0o755) == nil, "make directory", "")
	sym.Assert(e.Write(f+f, []byte("yy")) == nil, "write", "")
	sym.Assert(e.Write(f+d, nil) == nil, "write", "")
	switch sym.Choice("op", 4) {
	case 1:
		sym.Assert(e.FS.Rename(d+f, f+"/n") == nil, "rename", "")
	case 2:
		sym.Assert(e.FS.RemoveAll(d) == nil, "remove", "")
	case 3:
		sym.Assert(e.FS.Rename(f, d+"/n") == nil, "rename", "")
	}
	check(e, "named", []int{-1, 1})
}

// HSpell: the same calls with other spellings of their paths; nothing is duplicated.
func HSpell() {
	h := hx.PopulateWith(hx.Opt{}, hx.Styles[0])
	sp := func(label, p string) string {
		switch sym.Choice(label, 5) {
		case 0:
			return p + "/"
		case 1:
			return strings.Replace(p, "/", "//", -1)
		case 2:
			return p[1:]
		case 3:
			return "." + p
		}
		return "/e/.." + p
	}
	switch sym.Choice("op", 8) {
	case 0:
		h.FS.Mkdir(sp("p", "/n"), 0o700)
	case 1:
		h.FS.MkdirAll(sp("p", "/n/m"), 0o700)
	case 2:
		h.Write(sp("p", "/a/f"), []byte("new"))
	case 3:
		h.Write(sp("p", "/n"), []byte("new"))
	case 4:
		h.FS.Rename(sp("p", "/a"), sp("q", "/n"))
	case 5:
		h.FS.Rename(sp("p", "/a/b"), sp("q", "/e"))
	case 6:
		h.FS.RemoveAll(sp("p", "/a"))
	case 7:
		h.FS.Chmod(sp("p", "/a/b"), 0o700)
	}
	check(h.Env, "spelled", []int{-1})
}

// HOpen: handles with every flag combination leave a well-formed tree, while open and once closed.
func HOpen() {
	h := hx.PopulateWith(hx.Opt{}, hx.Styles[0])
	p := []string{"/a", "/a/f", "/n", "/t", "/a/f/x", "/m/n", "/h"}[sym.Choice("path", 7)]
	flag := []int{0, 1, 2}[sym.Choice("access", 3)] | []int{0, 0o100, 0o300}[sym.Choice("create", 3)] | []int{0, 0o1000, 0o2000}[sym.Choice("mode", 3)]
	f, err := h.FS.OpenFile(p, flag, 0o640)
	if err == nil {
		check(h.Env, "while open", []int{-1})
		if flag&3 != 0 {
			f.Write([]byte("data"))
		}
		sym.Assert(f.Close() == nil, "close", "")
	}
	check(h.Env, "afterwards", []int{-1})
}
