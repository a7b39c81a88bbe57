// Package c02: single-caller behaviour matches a reference hierarchical filesystem.
package c02

import (
	"fmt"
	"os"
	"path"
	"time"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
)

// HOne: every call over every path of the universe on a tree with history, in four naming styles.
func HOne() {
	h := hx.Populate(hx.Opt{}, hx.Styles[sym.Choice("style", len(hx.Styles))])
	h.Perform(hx.Pick("op", hx.Full()), "op")
	h.Agree()
	h.CheckRef(h.Ref, h.Op, true)
}

// HTwo: histories of two (thorough: three) calls from a smaller repertoire.
func HTwo() {
	h := hx.Populate(hx.Opt{Rec: 3}, hx.Styles[sym.Choice("style", 1+2*sym.Tier())])
	for i := 0; i < 2+sym.Tier(); i++ {
		l := string(rune('A' + i))
		h.Perform(hx.Pick(l, hx.Short()), l)
		h.Agree()
		h.CheckRef(h.Ref, h.Op, true)
	}
}

// HAttr: all attributes of an entry are set to any values, then a call which might depend on them follows.
func HAttr() {
	h := hx.Populate(hx.Opt{}, hx.Styles[0])
	p := []string{"/h", "/0", "/e", "/0/f"}[sym.Choice("entry", 4)]
	first := []string{"chmod", "chown", "chtimes"}
	for i := 0; i < 2; i++ {
		l := string(rune('A' + i))
		h.Perform(hx.Call{first[sym.Choice(l, 3)], p, ""}, l)
		h.Agree()
	}
	then := []hx.Call{{"chmod", p, ""}, {"chown", p, ""}, {"chtimes", p, ""}, {"put", p, ""}, {"remove", p, ""}, {"rename", p, "/n"}, {"rename", p, "/0/n"}, {"rename", "/h", p}, {"rename", "/e", p}, {"mkdir", p + "/n", ""}, {"mkdirall", p + "/n/m", ""}, {"put", p + "/n", ""}}
	h.Perform(hx.Pick("then", then), "then")
	h.Agree()
	h.CheckRef(h.Ref, h.Op, true)
}

// HZone: times in any zone, with and without a fraction, before 1970.
func HZone() {
	h := hx.Populate(hx.Opt{}, hx.Styles[0])
	zones := []*time.Location{time.UTC, time.FixedZone("CET", 3600), time.FixedZone("", 5400), time.FixedZone("", -3600), time.FixedZone("X", 20700), time.FixedZone("+0545", 20700)}
	p := h.S.P([]string{"/h", "/0", "/0/1"}[sym.Choice("path", 3)])
	k := sym.Choice("zone", len(zones))
	secs := []int64{1700000000, -1500000000, 30000000000, 0}
	at := time.Unix(secs[sym.Choice("atime", len(secs))], 5).In(zones[(k+1)%len(zones)])
	mt := time.Unix(secs[sym.Choice("mtime", len(secs))], 0).In(zones[k])
	err := h.FS.Chtimes(p, at, mt)
	sym.Assert(err == nil, "chtimes", hx.E(err))
	n := h.Ref[p]
	n.Mtime, n.Atime, n.HasT = mt, at, true
	h.CheckRef(h.Ref, "times", true)
	if sym.Fork(sym.Bool("more")) {
		h.Perform(hx.Pick("op", []hx.Call{{"rename", "/0", "/n"}, {"put", "/h", ""}, {"removeall", "/0", ""}, {"chmod", "/h", ""}, {"rename", "/h", "/n"}}), "op")
		h.Agree()
		h.CheckRef(h.Ref, h.Op, true)
	}
}

// HPipe: every call of the short repertoire in pipelines which change the names and headers on the
// tape; all names end like those names do.
func HPipe() {
	ps := []struct {
		o   hx.Opt
		suf string
	}{
		{hx.Opt{Comp: config.CompressionFormatGZipKey}, ".gz"},
		{hx.Opt{Comp: config.CompressionFormatZStandardKey, Sig: config.SignatureFormatMinisignKey}, ".zst"},
		{hx.Opt{Enc: config.EncryptionFormatAgeKey}, ".age"},
		{hx.Opt{Comp: config.CompressionFormatLZ4Key, Enc: config.EncryptionFormatPGPKey, Sig: config.SignatureFormatPGPKey}, ".lz4.pgp"},
		{hx.Opt{Comp: config.CompressionFormatBrotliKey}, ".br"},
		{hx.Opt{Comp: config.CompressionFormatBzip2ParallelKey, Enc: config.EncryptionFormatAgeKey}, ".bz2.age"},
	}
	p := ps[sym.Choice("pipe", len(ps))]
	h := hx.PopulateWith(p.o, hx.Suffixed(p.suf))
	for i := 0; i < 1+sym.Tier(); i++ {
		l := string(rune('A' + i))
		h.Perform(hx.Pick(l, append(hx.Short(), hx.Call{"rename", "/h", "/3"}, hx.Call{"put", "/3", ""}, hx.Call{"chmod", "/2/k", ""})), l)
		h.Agree()
		h.CheckRef(h.Ref, h.Op, true)
	}
}

// HOpen: every combination of open flags on every kind of name, followed by what the handle allows.
func HOpen() {
	h := hx.Populate(hx.Opt{PermRead: sym.Fork(sym.Bool("permread"))}, hx.Styles[0])
	p := h.S.P([]string{"/0/f", "/h", "/n", "/t", "/0/n", "/0", "/h/x", "/m/x"}[sym.Choice("path", 8)])
	acc := []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR}[sym.Choice("access", 3)]
	flag := acc
	for _, f := range []int{os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_APPEND} {
		if sym.Fork(sym.Bool("flag")) {
			flag |= f
		}
	}
	if flag&os.O_EXCL != 0 && flag&os.O_CREATE == 0 {
		sym.Stop() // undefined
	}
	if acc == os.O_RDONLY && flag&(os.O_TRUNC|os.O_APPEND) != 0 {
		sym.Stop() // unspecified
	}
	if p == h.S.P("/0") && flag == os.O_RDONLY|os.O_CREATE {
		sym.Stop() // refused by POSIX, allowed by in-memory filesystems
	}
	perm := os.FileMode(sym.Int("perm", 0, 0o777))
	n, exists := h.Ref[p]
	parent, hasParent := h.Ref[path.Dir(p)]
	want := true
	switch {
	case exists && n.Dir:
		want = acc == os.O_RDONLY && flag&os.O_CREATE == 0
	case exists:
		want = flag&os.O_EXCL == 0
	default:
		want = flag&os.O_CREATE != 0 && hasParent && parent.Dir
	}
	f, err := h.FS.OpenFile(p, flag, perm)
	sym.Assert((err == nil) == want, "open", fmt.Sprintf("%s %x: %s", p, flag, hx.E(err)))
	if err != nil {
		h.CheckRef(h.Ref, "failed open", true)
		return
	}
	if exists && n.Dir {
		sym.Assert(f.Close() == nil, "close directory", p)
		h.CheckRef(h.Ref, "open directory", true)
		return
	}
	if !exists {
		n = &hx.Node{Perm: perm, HasP: true}
		h.Ref[p] = n
	}
	if flag&os.O_TRUNC != 0 {
		n.Data = nil
		n.HasT = false
	}
	if sym.Fork(sym.Bool("write")) {
		d := sym.Fill(sym.Int("size", 1, 9), 'W')
		_, err := f.Write(d)
		if acc == os.O_RDONLY {
			sym.Assert(err != nil, "write through a read-only handle", p)
		} else {
			sym.Assert(err == nil, "write", hx.E(err))
			old := n.Data
			n.HasT = false
			n.Data = append([]byte{}, d...)
			if flag&os.O_APPEND != 0 {
				n.Data = append(append([]byte{}, old...), d...)
			} else if len(old) > len(d) {
				n.Data = append(n.Data, old[len(d):]...)
			}
		}
	} else if acc == os.O_WRONLY && !h.Opt.PermRead {
		_, err := f.Read(make([]byte, 1))
		sym.Assert(err != nil, "read through a write-only handle", p)
	}
	sym.Assert(f.Close() == nil, "close", p)
	h.CheckRef(h.Ref, "open", true)
}
