// Package c06: a torn tail never costs more than the torn record.
package c06

import (
	"bytes"
	"fmt"
	"os"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
)

// tear cuts a copy of the drive at a symbolic byte and checks what a rebuild makes of it. The
// reference is an independent interpretation of the records before the cut; in configurations
// which hide the records it is a rebuild of the tape cut at the record's start and end.
func tear(e *hx.Env, from int64, plain bool) {
	s := hx.Scan(e.Drive, true)
	sym.Assert(s.Err == "", "scan", s.Err)
	sym.HangIsBug()
	cut := sym.Int("cut", 0, 200000)
	sym.Assume(cut >= from && cut <= s.Size)
	// the first record which is not complete
	k := len(s.Recs)
	for i, r := range s.Recs {
		if sym.Fork(cut < r.End) || sym.Fork(cut < r.Body) {
			k = i
			break
		}
	}
	torn := ""
	applied := false // the torn record's header is complete
	if k < len(s.Recs) {
		applied = sym.Fork(cut >= s.Recs[k].Body)
	}
	var before, after map[string]*hx.Seen
	if plain {
		before = hx.Replay(s.Recs[:k])
		if applied {
			torn = hx.Abs(s.Recs[k].Hdr.Name)
			after = hx.Replay(s.Recs[:k+1])
		}
	} else {
		end := s.Size
		if k < len(s.Recs) {
			end = s.Recs[k].Off
		}
		before = at(e, end).seen()
		if applied {
			after = at(e, (s.Recs[k].End+511)/512*512).seen()
			for n, a := range after {
				b, ok := before[n]
				if !ok || !bytes.Equal(a.Data, b.Data) || a.Size != b.Size {
					torn = n
				}
			}
		}
	}
	n := at(e, cut)
	if len(before) == 0 && !applied {
		return // not even a root
	}
	if len(before) == 0 && before["/"] == nil && torn == "" {
		return
	}
	w := n.seen()
	hx.SameReplay(before, w, "torn tail", torn)
	if torn == "" {
		return
	}
	// the torn entry: old or new metadata; content complete or an error
	g, there := w[torn]
	b, old := before[torn]
	a := after[torn]
	if !there {
		sym.Assert(!old, "torn tail: torn entry is lost", torn)
		return
	}
	if old && !a.Dir && g.Size == b.Size && g.Mode == b.Mode && g.Mod.Equal(b.Mod) && g.Link == "" && bytes.Equal(g.Data, b.Data) {
		// not reflected: must be fully the old one
		return
	}
	sym.Assert(g.Dir == a.Dir && g.Mode == a.Mode && g.Size == a.Size && g.Mod.Equal(a.Mod), "torn tail: torn entry's metadata", torn)
	sym.Assert(g.Link != "" || bytes.Equal(g.Data, a.Data), "torn tail: reading the torn entry returns wrong data", torn)
	sk, err := n.e.RestoreOne(n.stored(torn))
	sym.Assert(err != nil || bytes.Equal(sk.Buf.Bytes(), a.Data), "torn tail: restoring the torn entry returns wrong data", torn)
}

type inst struct{ e *hx.Env }

// at rebuilds the index of the drive cut at a byte.
func at(e *hx.Env, cut int64) inst {
	d := sym.Dir()
	b, err := os.ReadFile(e.Drive)
	hx.Must(err, "copy drive")
	hx.Must(os.WriteFile(d+"/drive.tar", b, 0o600), "copy drive")
	hx.Must(os.Truncate(d+"/drive.tar", cut), "cut")
	o := e.Opt
	n := hx.Open(o, d, d+"/drive.tar", d+"/meta.sqlite")
	err = n.Index(true, false)
	sym.Assert(err == nil, "torn tail: rebuild succeeds", hx.E(err))
	return inst{n}
}

func (n inst) stored(p string) string {
	for _, h := range n.e.Headers() {
		if hx.Abs(h.Name) == p {
			return h.Name
		}
	}
	return p
}

// seen looks every live entry up and reads every file; read errors are noted.
func (n inst) seen() map[string]*hx.Seen {
	w := map[string]*hx.Seen{}
	for _, h := range n.e.Headers() {
		p := hx.Abs(h.Name)
		s, err := n.e.See(p)
		sym.Assert(err == nil, "torn tail: live entry can be looked up", p)
		w[p] = s
		if s.Dir {
			continue
		}
		b, err := n.e.ReadAll(p)
		if err != nil {
			s.Link = "error"
			continue
		}
		s.Data = b
	}
	return w
}

// HAll: a cut anywhere in a tape with history.
func HAll() {
	h := hx.Populate(hx.Opt{Rec: []int{20, 3}[sym.Choice("rec", 1+sym.Tier())]}, hx.Styles[[]int{0, 3}[sym.Choice("style", 1+sym.Tier())]])
	tear(h.Env, 0, true)
}

var ops = []hx.Call{
	{"mkdirall", "/v/k/n", ""}, {"put", "/n", ""}, {"put", "/t", ""}, {"put", "/0/f", ""},
	{"remove", "/0/f", ""}, {"removeall", "/2", ""}, {"rename", "/0", "/n"}, {"rename", "/2", "/v"}, {"rename", "/h", "/t"}, {"rename", "/0/f", "/h"},
	{"chmod", "/0/f", ""}, {"chtimes", "/0/1", ""},
}

// HOne: one call, then a cut anywhere in what it wrote.
func HOne() {
	h := hx.PopulateWith(hx.Opt{}, hx.Styles[0])
	st, err := os.Stat(h.Drive)
	hx.Must(err, "stat")
	l := ops
	if sym.Tier() > 0 {
		l = hx.Short()
	}
	h.Perform(hx.Pick("op", l), "op")
	tear(h.Env, st.Size(), true)
}

// HMembers: one archive call with up to three members of symbolic size, or an update.
func HMembers() {
	h := hx.PopulateWith(hx.Opt{Rec: []int{20, 1}[sym.Choice("rec", 2)]}, hx.Styles[0])
	st, err := os.Stat(h.Drive)
	hx.Must(err, "stat")
	d := sym.Fill([]int64{1, 511, 512, 513, 1500}[sym.Choice("size", 3+2*sym.Tier())], 'm')
	switch sym.Choice("op", 4) {
	case 0:
		hx.Must(h.Archive(false, false, hx.Item{Path: "/n", Data: d}, hx.Item{Path: "/o", Data: sym.Fill(3, 'o')}), "archive")
	case 1:
		hx.Must(h.Archive(false, false, hx.Item{Path: "/q", Dir: true}, hx.Item{Path: "/n"}, hx.Item{Path: "/q/n", Data: d}), "archive")
	case 2:
		hx.Must(h.Update(true, hx.Item{Path: "/h", Data: d, Mode: 0o601}), "update")
	case 3:
		_, err := h.W.Update(hx.Items(hx.Item{Path: "/h", Data: d}, hx.Item{Path: h.S.P("/0/f"), Data: sym.Fill(4, 'x')}), h.Opt.Level, true, false)
		hx.Must(err, "update")
	}
	tear(h.Env, st.Size(), true)
}

var confs = []hx.Opt{
	{Comp: config.CompressionFormatGZipKey}, {Comp: config.CompressionFormatLZ4Key}, {Comp: config.CompressionFormatZStandardKey}, {Comp: config.CompressionFormatBrotliKey},
	{Comp: config.CompressionFormatBzip2Key}, {Comp: config.CompressionFormatParallelGZipKey}, {Comp: config.CompressionFormatBzip2ParallelKey},
	{Enc: config.EncryptionFormatAgeKey}, {Enc: config.EncryptionFormatPGPKey}, {Sig: config.SignatureFormatMinisignKey}, {Sig: config.SignatureFormatPGPKey},
	{Comp: config.CompressionFormatGZipKey, Enc: config.EncryptionFormatAgeKey, Sig: config.SignatureFormatMinisignKey},
}

// HConf: other pipelines.
func HConf() {
	o := confs[sym.Choice("conf", len(confs))]
	e := hx.NewFS(o)
	hx.Must(e.Archive(false, false, hx.Item{Path: "/a", Data: sym.Fill(40, 'a')}, hx.Item{Path: "/d", Dir: true}, hx.Item{Path: "/d/b", Data: sym.Fill(700, 'b')}), "archive")
	st, err := os.Stat(e.Drive)
	hx.Must(err, "stat")
	switch sym.Choice("op", 4) {
	case 0:
		hx.Must(e.Update(true, hx.Item{Path: "/a", Data: sym.Fill(900, 'A')}), "update")
	case 1:
		hx.Must(e.Archive(false, false, hx.Item{Path: "/n", Data: sym.Fill(600, 'n')}), "archive")
	case 2:
		hx.Must(e.FS.Rename("/d", "/e"), "rename")
	case 3:
		hx.Must(e.FS.Chmod("/d/b", 0o600), "chmod")
	}
	tear(e, st.Size(), false)
}

var _ = fmt.Sprint
