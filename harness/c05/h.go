// Package c05: the tape is append-only and stays a standard tar stream.
package c05

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
)

// step checks one call against the tape as it was before.
type tape struct {
	e    *hx.Env
	snap int
}

func watch(e *hx.Env) *tape { return &tape{e, sym.Snap(e.Drive)} }

// grown asserts that the tape only grew; nothing is appended by calls that must not.
func (t *tape) grown(at string, quiet bool) {
	n := sym.Snap(t.e.Drive)
	sym.Assert(sym.Prefix(t.snap, n), at+": earlier bytes unchanged", "")
	if quiet {
		sym.Assert(sym.SnapLen(t.snap) == sym.SnapLen(n), at+": nothing appended", "")
	}
	t.snap = n
}

// standard asserts that the tape is a whole number of blocks which a tar reader iterates to the
// end, and that the records of live files hold their content.
func standard(e *hx.Env, r hx.Ref, at string) {
	s := hx.Scan(e.Drive, true)
	sym.Assert(s.Err == "", at+": tar reader reaches the end", s.Err)
	sym.Assert(s.Size%512 == 0, at+": whole blocks", "")
	last := s.Recs[len(s.Recs)-1]
	sym.Assert(s.Size >= (last.End+511)/512*512+1024, at+": trailer after the last record", "")
	for _, x := range s.Recs {
		sym.Assert(x.Off%512 == 0, at+": record at a block", x.Hdr.Name)
		sym.Assert(int64(len(x.Data)) == x.Hdr.Size, at+": member size", x.Hdr.Name)
	}
	if r == nil {
		return
	}
	rs := int64(e.Opt.Rec)
	for _, h := range e.Headers() {
		n, ok := r[hx.Abs(h.Name)]
		if !ok || n.Dir {
			continue
		}
		found := false
		for _, x := range s.Recs {
			if sym.Fork(x.Off == (h.Record*rs+h.Block)*512) {
				found = true
				sym.Assert(bytes.Equal(x.Data, n.Data), at+": member holds the content", h.Name)
			}
		}
		sym.Assert(found, at+": content record of a live file", h.Name)
	}
}

// HOne: every call of the repertoire.
func HOne() {
	h := hx.Populate(hx.Opt{Rec: []int{20, 3}[sym.Choice("rec", 1+sym.Tier())]}, hx.Styles[sym.Choice("style", 2+2*sym.Tier())])
	t := watch(h.Env)
	h.Perform(hx.Pick("op", hx.Full()), "op")
	t.grown(h.Op, h.Err != nil)
	standard(h.Env, h.Ref, h.Op)
}

// HTwo: histories; reads in between.
func HTwo() {
	h := hx.Populate(hx.Opt{Rec: 3}, hx.Styles[0])
	for i := 0; i < 2+sym.Tier(); i++ {
		l := string(rune('A' + i))
		t := watch(h.Env)
		h.Perform(hx.Pick(l, hx.Short()), l)
		t.grown(h.Op, h.Err != nil)
		h.Walk(true)
		t.grown("reading", true)
	}
	standard(h.Env, h.Ref, h.Op)
}

var errSource = errors.New("source")

// HArchive: the archive interface including calls that are rejected.
func HArchive() {
	h := hx.Populate(hx.Opt{Rec: []int{20, 1, 3}[sym.Choice("rec", 3)]}, hx.Styles[0])
	t := watch(h.Env)
	for i := 0; i < 2; i++ {
		l := string(rune('A' + i))
		d := sym.Fill(sym.Int(l+".size", 1000, 8191), byte('0'+i))
		none := func() (config.FileConfig, error) { return config.FileConfig{}, io.EOF }
		bad := func() (config.FileConfig, error) { return config.FileConfig{}, errSource }
		var err error
		op := sym.Choice(l, 16)
		quiet, rejected := false, false
		switch op {
		case 0:
			err = h.Archive(false, false, hx.Item{Path: "/n", Data: d}, hx.Item{Path: "/t"}, hx.Item{Path: "/d", Dir: true}, hx.Item{Path: "/d/x", Data: d})
		case 1:
			err = h.Update(true, hx.Item{Path: "/h", Data: d})
		case 2:
			err = h.Update(false, hx.Item{Path: "/h"})
		case 3:
			err = h.W.Move(h.S.P("/0"), "/q")
		case 4:
			err = h.W.Delete(h.S.P("/0"))
		case 5:
			err, rejected = h.W.Delete("/missing"), true
		case 6:
			err, rejected = h.W.Move("/missing", "/q"), true
		case 7:
			_, err = h.W.Archive(hx.Items(hx.Item{Path: "/n", Data: d}), "unknown level", false, false)
			quiet = true // without compression every level is fine
			if err == nil {
				quiet = false
			}
		case 8:
			_, err = h.W.Archive(none, h.Opt.Level, false, false)
			quiet = true
		case 9:
			_, err = h.W.Archive(bad, h.Opt.Level, false, false)
			rejected = true
		case 10:
			_, err = h.W.Update(none, h.Opt.Level, true, false)
			quiet = true
		case 11:
			_, err = h.W.Update(bad, h.Opt.Level, true, false)
			rejected = true
		case 12:
			err = h.Archive(false, false, hx.Item{Path: "/n", Get: func() (io.ReadSeekCloser, error) { return nil, errSource }, Data: d})
			rejected = true
		case 13:
			_, err = h.RestoreOne("/missing")
			rejected = true
		case 14:
			_, err = h.RestoreOne("/h")
			quiet = true
		case 15:
			err = h.FS.SymlinkIfPossible("/h", "/l")
		}
		at := fmt.Sprintf("archive interface %d", op)
		if rejected {
			sym.Assert(err != nil, at+": rejected", "")
		}
		sym.Observe(at, err == nil)
		t.grown(at, quiet || rejected)
	}
	standard(h.Env, nil, "archive interface")
}

// HHandle: open files append only when they are synced or closed after a change.
func HHandle() {
	h := hx.Populate(hx.Opt{}, hx.Styles[0])
	p := h.S.P([]string{"/0/f", "/h", "/0", "/n"}[sym.Choice("path", 4)])
	flag := []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR}[sym.Choice("access", 3)] | []int{0, os.O_APPEND, os.O_TRUNC}[sym.Choice("mode", 3)]
	t := watch(h.Env)
	f, err := h.FS.OpenFile(p, flag, 0o600)
	if err != nil {
		t.grown("rejected open", true)
		return
	}
	t.grown("open", flag&os.O_TRUNC == 0)
	changed := flag&os.O_TRUNC != 0
	for i := 0; i < 2; i++ {
		l := string(rune('A' + i))
		var err error
		writes := false
		switch sym.Choice(l, 6) {
		case 0:
			_, err = f.Write(sym.Fill([]int64{1, 9}[sym.Choice(l+".size", 2)], 'w'))
			writes = true
		case 1:
			err = f.Truncate([]int64{0, 1, 700}[sym.Choice(l+".size", 3)])
			writes = true
		case 2:
			f.Read(make([]byte, 2))
		case 3:
			f.Seek(1, io.SeekStart)
		case 4:
			f.Stat()
			f.Readdir(-1)
		case 5:
			s := sym.Snap(h.Drive)
			err := f.Sync()
			n := sym.Snap(h.Drive)
			sym.Assert(sym.Prefix(s, n), "sync: earlier bytes unchanged", "")
			if err != nil || !changed {
				sym.Assert(sym.SnapLen(s) == sym.SnapLen(n), "sync without change: nothing appended", "")
			}
			changed = false
			t.snap = n
			continue
		}
		if writes && err == nil {
			changed = true
		}
		t.grown("handle", true)
	}
	err = f.Close()
	t.grown("close", err != nil || !changed)
	standard(h.Env, nil, "handle")
}

// HOverwrite: an explicit overwrite truncates once; everything afterwards only appends.
func HOverwrite() {
	h := hx.Populate(hx.Opt{Rec: []int{20, 3}[sym.Choice("rec", 2)]}, hx.Styles[0])
	e := hx.Open(h.Opt, h.Dir, h.Drive, h.DB)
	e.SetOverwrite()
	d := sym.Fill(sym.Int("size", 0, 8191), 'n')
	hx.Must(e.Archive(true, false, hx.Item{Path: "/", Dir: true}, hx.Item{Path: "/new", Data: d}), "overwrite")
	r := hx.Ref{"/": {Dir: true}, "/new": {Data: d}}
	standard(e, r, "overwrite")
	t := watch(e)
	switch sym.Choice("then", 4) {
	case 0:
		hx.Must(e.FS.Mkdir("/d", 0o755), "mkdir")
	case 1:
		hx.Must(e.W.Move("/new", "/q"), "move")
		r["/q"] = r["/new"]
		delete(r, "/new")
	case 2:
		hx.Must(e.W.Delete("/new"), "delete")
	case 3:
		hx.Must(e.Write("/x", d), "write")
	}
	t.grown("after overwrite", false)
	standard(e, r, "after overwrite")
}

// HPipes: the stream stays standard in every configuration (contents are not compared).
func HPipes() {
	o := []hx.Opt{
		{Comp: config.CompressionFormatGZipKey}, {Comp: config.CompressionFormatLZ4Key}, {Comp: config.CompressionFormatZStandardKey, Rec: 1},
		{Comp: config.CompressionFormatBrotliKey}, {Enc: config.EncryptionFormatAgeKey}, {Enc: config.EncryptionFormatPGPKey},
		{Sig: config.SignatureFormatMinisignKey}, {Sig: config.SignatureFormatPGPKey, Comp: config.CompressionFormatGZipKey, Enc: config.EncryptionFormatAgeKey},
	}[sym.Choice("conf", 8)]
	h := hx.PopulateWith(o, hx.Styles[0])
	t := watch(h.Env)
	h.Perform(hx.Pick("op", hx.Short()), "op")
	t.grown(h.Op, h.Err != nil)
	standard(h.Env, nil, h.Op)
}
