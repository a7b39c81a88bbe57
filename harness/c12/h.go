// Package c12: recursive remove and rename touch exactly the named subtree.
package c12

import (
	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
)

// tree archives directories and files (a path ending in f, g or x is a file) and notes them in the reference.
func tree(o hx.Opt, s hx.Style, paths ...string) *hx.Hist {
	h := &hx.Hist{Env: hx.NewFS(o), Ref: hx.NewRef(), S: s}
	its := []hx.Item{}
	for i, p := range paths {
		b := p[len(p)-1]
		p = s.P(p)
		if b == 'f' || b == 'g' || b == 'x' {
			d := sym.Fill(int64(1+i), byte('a'+i))
			h.Ref[p] = &hx.Node{Data: d, Perm: 0o640, HasP: true}
			its = append(its, hx.Item{Path: p, Data: d, Mode: 0o640})
		} else {
			h.Ref[p] = &hx.Node{Dir: true, Perm: 0o750, HasP: true}
			its = append(its, hx.Item{Path: p, Dir: true, Mode: 0o750})
		}
	}
	hx.Must(h.Archive(false, false, its...), "archive")
	return h
}

// act performs one recursive call through the filesystem or the archive interface; it reports
// whether the reference allows it.
func act(h *hx.Hist, op int, a, b string) {
	a, b = h.S.P(a), h.S.P(b)
	before := sym.Snap(h.Drive)
	n := len(h.Headers())
	var err error
	var ok bool
	switch op {
	case 0:
		err = h.FS.RemoveAll(a)
		ok = h.Ref.RemoveAll(a)
	case 1:
		err = h.FS.Rename(a, b)
		ok = h.Ref.Rename(a, b)
	case 2:
		err = h.W.Delete(a)
		ok = h.Ref.RemoveAll(a)
	case 3:
		if hx.Under(b, a) {
			sym.Stop() // the archive interface does not check
		}
		err = h.W.Move(a, b)
		ok = h.Ref.Rename(a, b)
		if !ok {
			sym.Stop()
		}
	}
	if ok {
		sym.Assert(err == nil, "call succeeds", hx.E(err))
	} else {
		sym.Assert(err != nil, "call is refused", a+" to "+b)
		after := sym.Snap(h.Drive)
		sym.Assert(sym.Prefix(before, after) && sym.SnapLen(before) == sym.SnapLen(after), "refused call leaves the tape alone", a+" to "+b)
		sym.Assert(len(h.Headers()) == n, "refused call leaves the index alone", a+" to "+b)
	}
	h.CheckRef(h.Ref, "after the call", true)
	r, err := h.Rebuild()
	sym.Assert(err == nil, "rebuild", hx.E(err))
	r.CheckRef(h.Ref, "rebuilt", true)
	sym.Reach("checked")
}

// rebuilt lets the instance go on with a rebuilt index, in which names are relative.
func rebuilt(h *hx.Hist) {
	if sym.Choice("index", 2) == 1 {
		r, err := h.Rebuild()
		sym.Assert(err == nil, "first rebuild", hx.E(err))
		h.Env = r
	}
}

// name is an arbitrary name over the alphabet.
func name(label string, n int, alphabet string) string {
	s := sym.Str(label, n, alphabet)
	sym.Assume(s != "." && s != "..")
	return s
}

const odd = "_%. \\aAb"

// HNames: arbitrary names for the directory, one of its entries and a sibling.
func HNames() {
	n := 1 + sym.Choice("len0", 2)
	m := 1 + sym.Choice("len1", 2)
	d, s := name("d", n, odd), name("s", m, odd)
	sym.Assume(d != s)
	h := tree(hx.Opt{}, hx.Style{d, s}, "/0", "/1", "/0/f", "/0/1", "/0/1/g", "/1/f", "/1/0", "/1/0/g")
	rebuilt(h)
	switch sym.Choice("op", 6) {
	case 0:
		act(h, 0, "/0", "/")
	case 1:
		act(h, 1, "/0", "/n")
	case 2:
		act(h, 0, "/0/1", "/")
	case 3:
		act(h, 1, "/0", "/1/n")
	case 4:
		act(h, 1, "/1/0", "/0/0")
	case 5:
		act(h, 1, "/0", "/0/1/n")
	}
}

// HNew: an arbitrary new name, next to an entry with another arbitrary name.
func HNew() {
	n, d := name("n", 1+sym.Choice("len0", 3), odd), name("d", 1+sym.Choice("len1", 2), odd)
	sym.Assume(n != d && n != "a")
	h := tree(hx.Opt{}, hx.Style{"a", d, n}, "/0", "/0/0", "/0/0/f", "/0/f", "/1", "/1/f")
	rebuilt(h)
	op := 1
	if sym.Choice("archive", 2) == 1 {
		op = 3
	}
	switch sym.Choice("what", 5) {
	case 0:
		act(h, op, "/0", "/2")
	case 1:
		act(h, op, "/0/0", "/2")
	case 2:
		act(h, op, "/0/0", "/0/2")
	case 3:
		act(h, op, "/0/f", "/2")
	case 4:
		act(h, op, "/0", "/1/2")
	}
}

// HPrefix: the sibling's name is the directory's name with arbitrary characters before or after it,
// or replaced inside of it.
func HPrefix() {
	d := name("d", 2, "_%.a")
	x := sym.Str("x", 1, odd)
	s := ""
	switch sym.Choice("shape", 4) {
	case 0:
		s = d + x
	case 1:
		s = x + d
	case 2:
		s = d[:1] + x
	case 3:
		s = x + d[1:]
	}
	sym.Assume(s != d && s != "." && s != "..")
	h := tree(hx.Opt{}, hx.Style{d, s}, "/0", "/1", "/0/f", "/0/s", "/0/s/g", "/1/f", "/1/s", "/1/s/g")
	rebuilt(h)
	switch sym.Choice("op", 4) {
	case 0:
		act(h, 0, "/0", "/")
	case 1:
		act(h, 1, "/0", "/n")
	case 2:
		act(h, 2, "/0", "/")
	case 3:
		act(h, 3, "/0", "/n")
	}
}

// styles of names for fixed trees.
var styles = []hx.Style{
	{"a", "b", "c"},
	{"a", "aa", "a_"},
	{"_", "%", "_%"},
	{"x y", "x", " x"},
	{"a.b", "a", "..a"},
	{"ä", "ä", "ö"},
	{"%a", "ba", "_a"},
	{"A", "a", "Aa"},
	{"日本", "日", "日本語"},
	{"a'b", "a''b", "a\"b"},
	{"[a]", "a", "[a-z]"},
	{"*", "?", "a*"},
}

// HTree: every directory of a tree with repeated names, removed or renamed to every place.
func HTree() {
	s := styles[sym.Choice("style", len(styles))]
	if s[0] == s[1] {
		s = hx.Style{s[0], "e", s[2]}
	}
	h := tree(hx.Opt{Rec: 3}, s, "/0", "/1", "/2", "/0/0", "/0/0/0", "/0/0/0/0f", "/0/0/f", "/0/f", "/0/1", "/0/1/f", "/1/0", "/1/0/f", "/1/f", "/2/0", "/2/0/0", "/2/0/0/f", "/e", "/f")
	dirs := []string{"/0", "/0/0", "/0/0/0", "/1", "/2", "/2/0", "/1/0", "/e"}
	tos := []string{"/n", "/0/n", "/0/0/0/n", "/1/n", "/e/0", "/e", "/2/0/n", "/0/1", "/2/0/0", "/f", "/00", "/0/0/0/0"}
	a := hx.Pick2("a", dirs)
	op := sym.Choice("op", 4)
	b := "/"
	if op == 1 || op == 3 {
		b = hx.Pick2("b", tos)
		if op == 3 && sym.Tier() == 0 && b != "/n" && b != "/e/0" {
			sym.Stop()
		}
	}
	act(h, op, a, b)
}

// HTwo: a directory that was renamed or whose name was used before is removed or renamed.
func HTwo() {
	k := sym.Choice("style", 3)
	s := styles[k]
	h := tree(hx.Opt{Rec: 1}, s, "/0", "/1", "/0/0", "/0/0/f", "/0/f", "/1/f", "/1/0", "/1/0/g")
	moves := [][2]string{{"/0", "/n"}, {"/0/0", "/1/n"}, {"/1", "/0/1"}, {"/1/0", "/00"}}
	m := moves[sym.Choice("first", len(moves))]
	if sym.Choice("kind", 2) == 0 {
		hx.Must(h.FS.Rename(s.P(m[0]), s.P(m[1])), "first")
		h.Ref.Rename(s.P(m[0]), s.P(m[1]))
	} else {
		hx.Must(h.FS.RemoveAll(s.P(m[0])), "first")
		h.Ref.RemoveAll(s.P(m[0]))
		hx.Must(h.FS.Mkdir(s.P(m[0]), 0o700), "again")
		h.Ref.Mkdir(s.P(m[0]), 0o700)
	}
	if k == 0 || sym.Tier() > 0 {
		rebuilt(h)
	}
	a := hx.Pick2("a", []string{"/0", "/1", "/n", "/0/0", "/1/n", "/0/1", "/00"})
	op := sym.Choice("op", 2)
	b := "/"
	if op == 1 {
		b = hx.Pick2("b", []string{"/k", "/0", "/n", "/1/k", "/0/0/k", "/1/n"})
	}
	act(h, op, a, b)
}

// HConf: the same in pipelines that change stored names.
func HConf() {
	confs := []hx.Opt{{Comp: "gzip"}, {Enc: "age"}, {Comp: "zstandard", Enc: "pgp", Sig: "pgp"}, {Sig: "minisign"}}
	o := confs[sym.Choice("conf", len(confs))]
	s := append(append([]hx.Style{}, styles[:3]...), hx.Ending(o))[sym.Choice("style", 4)]
	h := tree(o, s, "/0", "/1", "/2", "/0/0", "/0/0/f", "/0/f", "/1/f", "/2/f")
	rebuilt(h)
	a := hx.Pick2("a", []string{"/0", "/1", "/0/0"})
	op := sym.Choice("op", 2)
	act(h, op, a, []string{"/n", "/2/n"}[sym.Choice("b", 2)])
}
