// Package c01: the index is a pure function of the tape.
package c01

import (
	"os"
	"time"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
)

// same compares the running instance with an index rebuilt from the tape and with the existing
// index opened by a fresh process.
func same(e *hx.Env, at string, links ...string) {
	live := look(e, links)
	n, err := e.Rebuild()
	sym.Assert(err == nil, at+": rebuild", hx.E(err))
	hx.SameSeen(live, look(n, links), at+": rebuilt")
	n = e.Reopen(false)
	_, err = n.FS.Initialize("/", os.ModePerm)
	sym.Assert(err == nil, at+": reopen", hx.E(err))
	hx.SameSeen(live, look(n, links), at+": reopened")
	n = e.Reopen(true)
	_, err = n.FS.Initialize("/", os.ModePerm)
	sym.Assert(err == nil, at+": open without index", hx.E(err))
	hx.SameSeen(live, look(n, links), at+": opened without index")
}

func look(e *hx.Env, links []string) map[string]*hx.Seen {
	e.Links = len(links) > 0
	w := e.Walk(true)
	for _, l := range links {
		w["link "+l] = e.SeeLink(l)
	}
	return w
}

// HOne: one filesystem call over the whole universe of paths.
func HOne() {
	n := 2
	if sym.Tier() > 0 {
		n = len(hx.Styles)
	}
	h := hx.Populate(hx.Opt{}, hx.Styles[(1+sym.Choice("style", n))%len(hx.Styles)])
	h.Perform(hx.Pick("op", hx.Full()), "op")
	same(h.Env, h.Op)
}

// HTwo: histories of two (thorough: three) calls.
func HTwo() {
	h := hx.Populate(hx.Opt{Rec: 3}, hx.Styles[0])
	for i := 0; i < 2+sym.Tier(); i++ {
		l := string(rune('A' + i))
		h.Perform(hx.Pick(l, hx.Short()), l)
	}
	same(h.Env, h.Op)
}

var confs = []hx.Opt{
	{Rec: 1}, {Rec: 7, Cache: config.WriteCacheTypeFile}, {Rec: 64},
	{Comp: config.CompressionFormatGZipKey}, {Comp: config.CompressionFormatLZ4Key}, {Comp: config.CompressionFormatZStandardKey},
	{Comp: config.CompressionFormatBrotliKey}, {Comp: config.CompressionFormatBzip2Key}, {Comp: config.CompressionFormatParallelGZipKey}, {Comp: config.CompressionFormatBzip2ParallelKey},
	{Enc: config.EncryptionFormatAgeKey}, {Enc: config.EncryptionFormatPGPKey},
	{Sig: config.SignatureFormatMinisignKey}, {Sig: config.SignatureFormatPGPKey},
	{Rec: 2, Comp: config.CompressionFormatZStandardKey, Enc: config.EncryptionFormatAgeKey, Sig: config.SignatureFormatMinisignKey},
	{Rec: 5, Comp: config.CompressionFormatGZipKey, Enc: config.EncryptionFormatPGPKey, Sig: config.SignatureFormatPGPKey},
}

// HConf: one call in many pipeline configurations and record sizes.
func HConf() {
	o := confs[sym.Choice("conf", len(confs))]
	h := hx.PopulateWith(o, hx.Ending(o))
	l := hx.Short()
	h.Perform(hx.Pick("op", l), "op")
	same(h.Env, h.Op)
}

// HBatch: the archive interface, with several members per call, failing members and repeated names.
func HBatch() {
	h := hx.Populate(hx.Opt{Rec: []int{20, 1, 3}[sym.Choice("rec", 3)]}, hx.Styles[0])
	for i := 0; i < 2; i++ {
		l := string(rune('A' + i))
		d := sym.Fill(sym.Int(l+".size", 1000, 8191), byte('0'+i))
		it := hx.Item{Path: "/h", Data: d, Mode: 0o604}
		switch sym.Choice(l, 9) {
		case 0:
			hx.Must(h.Archive(false, false, hx.Item{Path: "/n", Data: d}, hx.Item{Path: "/t", Data: nil}, hx.Item{Path: "/d", Dir: true}, hx.Item{Path: "/d/x", Data: d}), "archive")
		case 1:
			hx.Must(h.Archive(false, false, hx.Item{Path: "/z", Data: d}, hx.Item{Path: "/z", Data: sym.Fill(3, 'z')}), "archive the same name twice")
		case 2:
			h.Update(true, it)
		case 3:
			h.Update(false, it)
		case 4:
			h.W.Update(hx.Items(it, hx.Item{Path: h.S.P("/0/f"), Data: d}), h.Opt.Level, true, false)
		case 5:
			h.W.Move(h.S.P("/0"), "/q")
		case 6:
			h.W.Move("/q", h.S.P("/0"))
		case 7:
			h.W.Delete(h.S.P("/0"))
		case 8:
			h.W.Delete("/h")
		}
	}
	same(h.Env, "batch")
}

// HTimes: times with fractions, modes and owners survive.
func HTimes() {
	h := hx.Populate(hx.Opt{}, hx.Styles[0])
	ns := []int64{0, 1, 500000000, 123456789}
	m := time.Unix(sym.Int("mtime", 1000000000, 1999999999), ns[sym.Choice("mns", 4)])
	a := time.Unix(sym.Int("atime", 1000000000, 1999999999), ns[sym.Choice("ans", 4)])
	p := h.S.P([]string{"/h", "/0", "/0/1"}[sym.Choice("path", 3)])
	switch sym.Choice("kind", 8) {
	case 1:
		m, a = m.In(time.FixedZone("", 5400)), a.In(time.FixedZone("X", -3600))
	case 2:
		m, a = m.In(time.FixedZone("CET", 3600)), a.In(time.FixedZone("", 20700))
	case 3:
		m = time.Time{}
	case 4:
		a = time.Time{}
	case 5:
		m = time.Unix(-1500000000, ns[sym.Choice("ons", 4)])
	case 6:
		m, a = time.Unix(0, 0), time.Unix(0, 0)
	case 7:
		m = time.Unix(30000000000, 1)
	}
	hx.Must(h.FS.Chtimes(p, a, m), "chtimes")
	if sym.Fork(sym.Bool("more")) {
		hx.Must(h.FS.Chown(p, int(sym.Int("uid", 0, 0o7777777)), int(sym.Int("gid", 0, 0o7777777))), "chown")
		hx.Must(h.FS.Rename(p, "/n"), "rename")
		p = "/n"
	}
	fi, err := h.FS.Stat(p)
	sym.Assert(err == nil, "stat", hx.E(err))
	sym.Assert(m.IsZero() || fi.ModTime().Equal(m), "modification time", "")
	same(h.Env, "times")
}

// HZones: times of other zones in wrapped headers.
func HZones() {
	h := hx.Populate([]hx.Opt{{Sig: "minisign"}, {Enc: "age"}, {Comp: "gzip"}}[sym.Choice("conf", 3)], hx.Styles[0])
	zones := []*time.Location{time.FixedZone("", 5400), time.FixedZone("LMT", 1172), time.FixedZone("X", -3601), time.FixedZone("CET", 3600)}
	k := sym.Choice("zone", len(zones))
	m := []time.Time{time.Unix(1700000000, 123456789), time.Unix(-1500000000, 1), time.Unix(30000000000, 0), {}}[sym.Choice("mtime", 4)]
	a := time.Unix(1234567890, 987654321).In(zones[(k+1)%len(zones)])
	if !m.IsZero() {
		m = m.In(zones[k])
	}
	p := h.S.P([]string{"/h", "/0"}[sym.Choice("path", 2)])
	hx.Must(h.FS.Chtimes(p, a, m), "chtimes")
	fi, err := h.FS.Stat(p)
	sym.Assert(err == nil, "stat", hx.E(err))
	sym.Assert(m.IsZero() || fi.ModTime().Equal(m), "modification time", "")
	same(h.Env, "zones")
}

// HLink: symbolic links and calls on them and their targets.
func HLink() {
	h := hx.Populate(hx.Opt{}, hx.Styles[0])
	tgt := h.S.P([]string{"/0/f", "/0", "/missing"}[sym.Choice("target", 3)])
	ln := h.S.P([]string{"/l", "/0/l"}[sym.Choice("link", 2)])
	err := h.FS.SymlinkIfPossible(tgt, ln)
	sym.Observe("symlink", err == nil)
	links := []string{"/l", h.S.P("/0/l"), "/m"}
	same(h.Env, "symlink", links...)
	var op string
	switch sym.Choice("then", 9) {
	case 0:
		h.FS.Chmod(ln, 0o600)
		op = "chmod link"
	case 1:
		h.Write(tgt, sym.Fill(sym.Int("size", 1, 9), 'x'))
		op = "write target"
	case 2:
		h.FS.Remove(ln)
		op = "remove link"
	case 3:
		h.FS.Remove(tgt)
		op = "remove target"
	case 4:
		h.FS.Rename(ln, "/m")
		op = "rename link"
	case 5:
		h.FS.Rename(tgt, "/m")
		op = "rename target"
	case 6:
		h.FS.SymlinkIfPossible(tgt, "/m")
		op = "second link"
	case 7:
		h.FS.Chtimes(ln, time.Unix(1000000000, 0), time.Unix(1100000000, 0))
		op = "chtimes link"
	case 8:
		h.Write(ln, sym.Fill(sym.Int("size", 1, 9), 'x'))
		op = "write link"
	}
	same(h.Env, op, links...)
}

// HInner: contents which are archives themselves.
func HInner() {
	confs := []hx.Opt{{Rec: 3}, {Rec: 1}, {Sig: config.SignatureFormatMinisignKey}}
	h := hx.Populate(confs[sym.Choice("conf", len(confs))], hx.Styles[0])
	d := hx.Inner(hx.InnerSizes[sym.Choice("inner", len(hx.InnerSizes))])
	if sym.Fork(sym.Bool("filesystem")) {
		hx.Must(h.Env.Write("/n", d), "write")
		hx.Must(h.Env.Write(h.S.P("/0/f"), d), "replace")
	} else {
		hx.Must(h.Archive(false, false, hx.Item{Path: "/n", Data: d}, hx.Item{Path: "/n2", Data: d}), "archive")
	}
	h.FS.Rename("/n", "/m")
	h.FS.Chmod(h.S.P("/h"), 0o600)
	b, err := h.ReadAll("/m")
	sym.Assert(err == nil && string(b) == string(d), "content", hx.E(err))
	same(h.Env, "inner")
}
