// Package c07: re-indexing over an existing index converges.
package c07

import (
	"os"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
)

// replay indexes the whole tape again over the instance's index and compares with want.
func replay(n *hx.Env, want map[string]*hx.Seen, at string, times int) {
	for i := 0; i < times; i++ {
		err := n.Index(false, false)
		sym.Assert(err == nil, at+": replay", hx.E(err))
	}
	hx.SameSeen(want, n.Walk(true), at+": replayed")
}

// prefix builds an index of the first part of the tape only and returns an instance over it and
// the whole tape.
func prefix(e *hx.Env, end int64) *hx.Env {
	d := sym.Dir()
	b, err := os.ReadFile(e.Drive)
	hx.Must(err, "copy")
	hx.Must(os.WriteFile(d+"/drive.tar", b, 0o600), "copy")
	hx.Must(os.Truncate(d+"/drive.tar", end), "cut")
	n := hx.Open(e.Opt, d, d+"/drive.tar", d+"/meta.sqlite")
	hx.Must(n.Index(true, false), "index of the prefix")
	return hx.Open(e.Opt, e.Dir, e.Drive, d+"/meta.sqlite")
}

// truth is what an index built from scratch shows.
func truth(e *hx.Env) (*hx.Env, map[string]*hx.Seen) {
	n, err := e.Rebuild()
	sym.Assert(err == nil, "rebuild", hx.E(err))
	return n, n.Walk(true)
}

// converge replays over the index of one prefix of the tape: the records before the n-th.
func converge(e *hx.Env, i int) {
	_, want := truth(e)
	s := hx.Scan(e.Drive, false)
	sym.Assert(s.Err == "", "scan", s.Err)
	if i >= len(s.Recs) {
		sym.Stop()
	}
	replay(prefix(e, s.Recs[i].Off), want, "index of a prefix", 1)
}

// HOne: one call after the populated history; replayed over the complete index, the running
// instance's index, the index of the history, and prefixes inside of what the call wrote.
func HOne() {
	h := hx.PopulateWith(hx.Opt{}, hx.Styles[sym.Choice("style", 1+sym.Tier())])
	s := hx.Scan(h.Drive, false)
	l := hx.Short()
	if sym.Tier() > 0 {
		l = hx.Full()
	}
	h.Perform(hx.Pick("op", l), "op")
	switch k := sym.Choice("index", 5); k {
	case 0:
		n, want := truth(h.Env)
		replay(n, want, "complete index", 2)
	case 1:
		_, want := truth(h.Env)
		replay(h.Env, want, "running instance's index", 2)
	default:
		// records up to: the history's end, and the first and last record of the call
		i := len(s.Recs)
		if k == 3 {
			i++
		}
		if k == 4 {
			i = len(hx.Scan(h.Drive, false).Recs) - 1
			if i <= len(s.Recs)+1 {
				sym.Stop()
			}
		}
		converge(h.Env, i)
	}
}

// HEarly: the index of every prefix of the populated history, replayed after a move.
func HEarly() {
	h := hx.PopulateWith(hx.Opt{Rec: 3}, hx.Styles[sym.Choice("style", len(hx.Styles))])
	h.Perform([]hx.Call{{"rename", "/0", "/n"}, {"removeall", "/0", ""}, {"rename", "/2", "/v"}, {"put", "/t", ""}}[sym.Choice("op", 4)], "op")
	converge(h.Env, 1+sym.Choice("records", 18))
}

// HTwo: histories of two calls, replayed over the running index and over an index of the state
// between them.
func HTwo() {
	l := hx.Short()
	if sym.Tier() == 0 {
		l = []hx.Call{
			{"put", "/t", ""}, {"put", "/0/f", ""}, {"put", "/v", ""}, {"mkdir", "/n", ""},
			{"remove", "/0/f", ""}, {"removeall", "/2", ""}, {"removeall", "/0", ""},
			{"rename", "/0", "/n"}, {"rename", "/2", "/v"}, {"rename", "/v", "/2"}, {"rename", "/h", "/t"}, {"rename", "/0/f", "/h"}, {"rename", "/h", "/0/f"},
			{"chmod", "/0/f", ""}, {"chtimes", "/t", ""},
		}
	}
	h := hx.PopulateWith(hx.Opt{Rec: 3}, hx.Styles[0])
	h.Perform(hx.Pick("A", l), "A")
	if h.Err != nil {
		sym.Stop()
	}
	st, err := os.Stat(h.Drive)
	hx.Must(err, "stat")
	h.Perform(hx.Pick("B", l), "B")
	if h.Err != nil {
		sym.Stop()
	}
	_, want := truth(h.Env)
	if sym.Fork(sym.Bool("between")) {
		replay(prefix(h.Env, st.Size()), want, "index of a prefix", 1)
	} else {
		replay(h.Env, want, "running instance's index", 1)
	}
}

// HNames: histories over two names and a directory, each reused in every way, replayed over the
// index of every prefix.
func HNames() {
	e := hx.NewFS(hx.Opt{Rec: 1})
	hx.Must(e.Archive(false, false, hx.Item{Path: "/a", Data: sym.Fill(3, 'a')}, hx.Item{Path: "/d", Dir: true}, hx.Item{Path: "/d/x", Data: sym.Fill(4, 'x')}), "archive")
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	for i := 0; i < n+1; i++ {
		l := string(rune('A' + i))
		var err error
		switch sym.Choice(l, 10) {
		case 0:
			err = e.FS.Rename("/a", "/b")
		case 1:
			err = e.FS.Rename("/b", "/a")
		case 2:
			err = e.FS.Remove("/a")
		case 3:
			err = e.Write("/a", sym.Fill(int64(5+i), byte('0'+i)))
		case 4:
			err = e.FS.Chmod("/b", 0o600)
		case 5:
			err = e.FS.Rename("/d", "/e")
		case 6:
			err = e.FS.Rename("/e", "/d")
		case 7:
			err = e.FS.RemoveAll("/d")
		case 8:
			err = e.FS.MkdirAll("/d/x", 0o700)
		case 9:
			err = e.FS.Rename("/a", "/d/x")
		}
		if err != nil {
			sym.Stop() // covered by the shorter history
		}
	}
	converge(e, 1+sym.Choice("records", 12))
}

// HConf: the same in other pipelines.
func HConf() {
	confs := []hx.Opt{
		{Comp: config.CompressionFormatGZipKey}, {Comp: config.CompressionFormatZStandardKey}, {Enc: config.EncryptionFormatAgeKey}, {Enc: config.EncryptionFormatPGPKey},
		{Sig: config.SignatureFormatMinisignKey}, {Sig: config.SignatureFormatPGPKey},
	}
	o := confs[sym.Choice("conf", len(confs))]
	h := hx.PopulateWith(o, hx.Ending(o))
	h.Perform(hx.Pick("op", hx.Short()), "op")
	n, want := truth(h.Env)
	if sym.Fork(sym.Bool("running")) {
		replay(h.Env, want, "running instance's index", 1)
	} else {
		replay(n, want, "complete index", 1)
	}
}
