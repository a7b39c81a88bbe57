// Package c03: content round-trips byte-exactly through every pipeline configuration.
package c03

import (
	"bytes"
	"io"
	"os"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
)

var (
	comps = []string{
		config.NoneKey, config.CompressionFormatGZipKey, config.CompressionFormatParallelGZipKey, config.CompressionFormatLZ4Key,
		config.CompressionFormatZStandardKey, config.CompressionFormatBrotliKey, config.CompressionFormatBzip2Key, config.CompressionFormatBzip2ParallelKey,
	}
	levels = []string{config.CompressionLevelFastestKey, config.CompressionLevelBalancedKey, config.CompressionLevelSmallestKey}
	encs   = []string{config.NoneKey, config.EncryptionFormatAgeKey, config.EncryptionFormatPGPKey}
	sigs   = []string{config.NoneKey, config.SignatureFormatMinisignKey, config.SignatureFormatPGPKey}
	caches = []string{config.WriteCacheTypeMemory, config.WriteCacheTypeFile}
)

// read checks every way of reading one entry against the data.
func read(e *hx.Env, name string, data []byte, at string) {
	fi, err := e.FS.Stat(name)
	sym.Assert(err == nil, at+": stat", hx.E(err))
	sym.Assert(fi.Size() == int64(len(data)), at+": reported size", name)
	b, err := e.ReadAll(name)
	sym.Assert(err == nil, at+": read", hx.E(err))
	sym.Assert(bytes.Equal(b, data), at+": content read", name)
	s, err := e.RestoreOne(name)
	sym.Assert(err == nil, at+": restore", hx.E(err))
	sym.Assert(bytes.Equal(s.Buf.Bytes(), data), at+": content restored", name)
	sym.Assert(s.Closed, at+": restored file closed", name)
	h := e.Header(name)
	if h == nil {
		h = e.Header(name[1:])
	}
	sym.Assert(h != nil, at+": indexed", name)
	sym.Assert(h.Size == int64(len(data)), at+": indexed size", name)
	s, dir, err := e.FetchAt(h.Record, h.Block)
	sym.Assert(err == nil && !dir, at+": fetch", hx.E(err))
	sym.Assert(bytes.Equal(s.Buf.Bytes(), data), at+": content fetched", name)
}

func readAll(e *hx.Env, at string, want map[string][]byte, names ...string) {
	for _, n := range names {
		read(e, n, want[n], at)
	}
}

// trip writes three entries through the three interfaces and reads them from the running instance,
// a reopened one and a rebuilt one.
func trip(e *hx.Env, data [3][]byte) {
	arc, fs, upd := "/arc", "/fs", "/upd"
	if (e.Opt.Comp != "" || e.Opt.Enc != "") && len(data[0])%2 == 1 {
		// names which end like the pipeline's suffix
		s := hx.Ending(e.Opt)
		arc, fs, upd = s.P(arc), s.P(fs), s.P(upd)
	}
	want := map[string][]byte{arc: data[0], fs: data[1], upd: data[2]}
	err := e.Archive(false, false, hx.Item{Path: arc, Data: data[0]}, hx.Item{Path: upd, Data: []byte("before")})
	sym.Assert(err == nil, "archive", hx.E(err))
	err = e.Write(fs, data[1])
	sym.Assert(err == nil, "write", hx.E(err))
	err = e.Update(true, hx.Item{Path: upd, Data: data[2]})
	sym.Assert(err == nil, "update", hx.E(err))
	names := []string{arc, fs, upd}
	readAll(e, "running", want, names...)
	n, err := e.Rebuild()
	sym.Assert(err == nil, "rebuild", hx.E(err))
	readAll(n, "rebuilt", want, names...)
	sym.Reach("round trip")
}

// content is bytes of a chosen length, some of them arbitrary.
func content(label string, n int, b byte) []byte {
	d := sym.Fill(int64(n), b)
	if n > 0 {
		d[0] = sym.Byte(label+".first", "")
		d[n-1] = sym.Byte(label+".last", "")
	}
	return d
}

// supported tells whether the configuration is one the program offers.
func supported(o hx.Opt) bool {
	if !o.NonRegular {
		return true
	}
	switch o.Comp {
	case config.CompressionFormatParallelGZipKey, config.CompressionFormatBrotliKey:
		return false
	case config.CompressionFormatGZipKey, config.CompressionFormatLZ4Key:
		if o.Rec < 128 {
			return false
		}
	}
	if o.Comp == config.CompressionFormatZStandardKey && o.Rec < 2 {
		return false
	}
	return o.Sig != config.SignatureFormatMinisignKey
}

// HPipes: every combination of compression, encryption, signature and kind of drive.
func HPipes() {
	o := hx.Opt{
		Comp: comps[sym.Choice("comp", len(comps))], Enc: encs[sym.Choice("enc", len(encs))], Sig: sigs[sym.Choice("sig", len(sigs))],
		NonRegular: sym.Fork(sym.Bool("tape")), Rec: 20,
	}
	sizes := []int{0, 1, 512, 1300}
	i := sym.Choice("size", len(sizes))
	o.Level = levels[i%3]
	o.Cache = caches[i%2]
	if sym.Tier() > 0 {
		o.Level = levels[sym.Choice("level", 3)]
		o.Cache = caches[sym.Choice("cache", 2)]
	}
	if o.NonRegular {
		o.Rec = 128
	}
	if !supported(o) {
		sym.Stop()
	}
	e := hx.NewFS(o)
	n := sizes[i]
	trip(e, [3][]byte{content("a", n, 'a'), content("b", n, 'b'), content("c", n, 'c')})
}

// HLevels: every compression level, with every cache and several record sizes.
func HLevels() {
	o := hx.Opt{
		Comp: comps[1+sym.Choice("comp", len(comps)-1)], Level: levels[sym.Choice("level", 3)],
		Cache: caches[sym.Choice("cache", 2)], NonRegular: sym.Fork(sym.Bool("tape")),
	}
	o.Rec = []int{20, 1, 128, 2048}[sym.Choice("rec", 4)]
	if !supported(o) {
		sym.Stop()
	}
	e := hx.NewFS(o)
	trip(e, [3][]byte{content("a", 3, 'a'), content("b", 1300, 'b'), content("c", 0, 'c')})
}

// HPlain: without a codec, contents of any length up to 8191 bytes.
func HPlain() {
	o := hx.Opt{Rec: []int{20, 1, 2, 7}[sym.Choice("rec", 4)], Cache: caches[sym.Choice("cache", 2)]}
	e := hx.NewFS(o)
	size := func(l string) int64 {
		if sym.Choice(l+".class", 2) == 0 {
			return sym.Int(l, 1000, 8191)
		}
		return sym.Int(l, 0, 999)
	}
	trip(e, [3][]byte{sym.Fill(size("a"), 'a'), sym.Fill(size("b"), 'b'), sym.Fill(size("c"), 'c')})
}

// HTape: tapes with contents around the block and record boundaries.
func HTape() {
	o := hx.Opt{Rec: []int{1, 2, 7, 20}[sym.Choice("rec", 4)], NonRegular: true, Cache: caches[sym.Choice("cache", 2)], Sig: sigs[sym.Choice("sig", 2)*2]}
	e := hx.NewFS(o)
	size := func(l string) int {
		n := []int{0, 1, 511, 512, 513, o.Rec*512 - 1536, o.Rec * 512, 3*o.Rec*512 + 1}[sym.Choice(l, 8)]
		if n < 0 {
			sym.Stop()
		}
		return n
	}
	n := size("n")
	m := n
	if sym.Tier() > 0 {
		m = size("m")
	}
	trip(e, [3][]byte{content("a", n, 'a'), content("b", m, 'b'), content("c", n, 'c')})
}

// HBytes: short contents, every byte arbitrary.
func HBytes() {
	o := hx.Opt{Cache: caches[sym.Choice("cache", 2)], Comp: comps[sym.Choice("comp", 3)], Enc: encs[sym.Choice("enc", 2)]}
	e := hx.NewFS(o)
	n := sym.Choice("n", 5)
	trip(e, [3][]byte{[]byte(sym.Str("a", n, "")), []byte(sym.Str("b", n, "")), []byte(sym.Str("c", n, ""))})
}

// HReplace: content is replaced through one interface after another.
func HReplace() {
	o := hx.Opt{Rec: 3, Cache: caches[sym.Choice("cache", 2)], Comp: comps[sym.Choice("comp", 2)], Sig: sigs[sym.Choice("sig", 3)]}
	if sym.Tier() > 0 {
		o.Enc = encs[sym.Choice("enc", 3)]
	}
	e := hx.NewFS(o)
	data := []byte("first")
	hx.Must(e.Archive(false, false, hx.Item{Path: "/f", Data: data}, hx.Item{Path: "/g", Data: []byte("g")}), "archive")
	sizes := []int{0, 2, 600}
	for i := 0; i < 2; i++ {
		l := string(rune('A' + i))
		d := content(l, sizes[sym.Choice(l+".size", 3)], byte('A'+i))
		var err error
		switch sym.Choice(l, 5) {
		case 0:
			err = e.Write("/f", d)
			data = d
		case 1:
			err = e.Update(true, hx.Item{Path: "/f", Data: d})
			data = d
		case 2:
			err = e.Archive(false, false, hx.Item{Path: "/f", Data: d})
			data = d
		case 3:
			// metadata only
			err = e.Update(false, hx.Item{Path: "/f", Data: data, Mode: os.FileMode(0o600 + i)})
		case 4:
			f, oerr := e.FS.OpenFile("/f", os.O_RDWR|os.O_APPEND, 0)
			sym.Assert(oerr == nil, "open", hx.E(oerr))
			_, err = f.Write(d)
			sym.Assert(err == nil, "append", hx.E(err))
			err = f.Close()
			data = append(append([]byte{}, data...), d...)
		}
		sym.Assert(err == nil, "replace", hx.E(err))
		read(e, "/f", data, "running")
	}
	n, err := e.Rebuild()
	sym.Assert(err == nil, "rebuild", hx.E(err))
	read(n, "/f", data, "rebuilt")
	read(n, "/g", []byte("g"), "rebuilt")
}

// HTree restores a directory recursively.
func HTree() {
	o := hx.Opt{Comp: comps[sym.Choice("comp", 2)], Sig: sigs[sym.Choice("sig", 3)], Enc: encs[sym.Choice("enc", 2)]}
	e := hx.NewFS(o)
	a, b := content("a", 700, 'a'), content("b", sym.Choice("n", 2), 'b')
	hx.Must(e.Archive(false, false, hx.Item{Path: "/d", Dir: true}, hx.Item{Path: "/d/a", Data: a}, hx.Item{Path: "/d/s", Dir: true}, hx.Item{Path: "/d/s/b", Data: b}, hx.Item{Path: "/dx", Data: []byte("no")}), "archive")
	to := []string{"", "/out"}[sym.Choice("to", 2)]
	files := map[string]*hx.Sink{}
	dirs := map[string]bool{}
	err := e.R.Restore(
		func(p string, m os.FileMode) (io.WriteCloser, error) { files[p] = &hx.Sink{}; return files[p], nil },
		func(p string, m os.FileMode) error { dirs[p] = true; return nil },
		"/d", to, false)
	sym.Assert(err == nil, "restore", hx.E(err))
	sym.Assert(len(files) == 2 && len(dirs) == 2, "restored entries", "")
	base := "/d"
	if to != "" {
		base = "/out"
	}
	fa, fb := files[base+"/a"], files[base+"/s/b"]
	sym.Assert(fa != nil && fb != nil, "restored names", "")
	sym.Assert(bytes.Equal(fa.Buf.Bytes(), a), "restored content", "a")
	sym.Assert(bytes.Equal(fb.Buf.Bytes(), b), "restored content", "b")
}

// HLarge: contents that do not fit into one copy buffer.
func HLarge() {
	o := hx.Opt{
		Comp: comps[sym.Choice("comp", len(comps))], Enc: encs[sym.Choice("enc", len(encs))], Sig: sigs[sym.Choice("sig", len(sigs))],
		NonRegular: sym.Fork(sym.Bool("tape")), Rec: 128,
	}
	if !supported(o) {
		sym.Stop()
	}
	e := hx.NewFS(o)
	d := content("d", 70001, 'd')
	sym.Assert(e.Write("/d", d) == nil, "write", "")
	read(e, "/d", d, "running")
	n, err := e.Rebuild()
	sym.Assert(err == nil, "rebuild", hx.E(err))
	read(n, "/d", d, "rebuilt")
}
