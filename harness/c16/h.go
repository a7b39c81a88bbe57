// Package c16: opening a filesystem over an existing tape is non-destructive and faithful.
package c16

import (
	"bytes"
	"errors"
	"os"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
)

// prefixIndex is the path of an index that reflects the tape up to end only.
func prefixIndex(e *hx.Env, end int64) string {
	d := sym.Dir()
	b, err := os.ReadFile(e.Drive)
	hx.Must(err, "copy")
	hx.Must(os.WriteFile(d+"/drive.tar", b, 0o600), "copy")
	hx.Must(os.Truncate(d+"/drive.tar", end), "cut")
	n := hx.Open(e.Opt, d, d+"/drive.tar", d+"/meta.sqlite")
	hx.Must(n.Index(true, false), "index of the prefix")
	return n.DB
}

// opened initialises an instance over a tape and an index and checks what it did and shows.
// It returns nil if that failed.
func opened(e *hx.Env, db string, at string) *hx.Env {
	before := sym.Snap(e.Drive)
	s := hx.Scan(e.Drive, false)
	root := len(s.Recs) > 0 && hx.Abs(s.Recs[0].Hdr.Name) == "/"
	encrypted := e.Opt.Enc != ""
	n := hx.Open(e.Opt, e.Dir, e.Drive, db)
	_, err := n.FS.Initialize("/", os.ModePerm)
	after := sym.Snap(e.Drive)
	sym.Assert(sym.Prefix(before, after), at+": the tape keeps its content", "")
	if root || encrypted && len(s.Recs) > 0 {
		sym.Assert(sym.SnapLen(before) == sym.SnapLen(after), at+": nothing is appended", "")
	}
	if err != nil {
		sym.Assert(s.Err != "" || len(s.Recs) == 0 || !root, at+": opening succeeds", err.Error())
		sym.Reach("refused")
		return nil
	}
	r, err := n.Rebuild()
	sym.Assert(err == nil, at+": rebuild", hx.E(err))
	same(n, r, at)
	return n
}

// same asserts that two instances show the same, except for the content of files that can not be
// read in either.
func same(a, b *hx.Env, at string) {
	x, y := a.Walk(false), b.Walk(false)
	for n, s := range x {
		t, ok := y[n]
		sym.Assert(ok, at+": entry should not be there", n)
		hx.SameEntry(s, t, at)
		if s.Dir {
			continue
		}
		p, perr := a.ReadAll(n)
		q, qerr := b.ReadAll(n)
		sym.Assert((perr == nil) == (qerr == nil), at+": readable", n+": "+hx.E(perr)+" / "+hx.E(qerr))
		if perr == nil {
			sym.Assert(string(p) == string(q), at+": content", n)
		}
	}
	for n := range y {
		_, ok := x[n]
		sym.Assert(ok, at+": entry is missing", n)
	}
}

// uses are the ways of using an instance which has been opened; the quick tier takes two of them.
func uses() int {
	if sym.Tier() > 0 {
		return sym.Choice("use", 4)
	}
	return []int{0, 3}[sym.Choice("use", 2)]
}

// tail says where a tape ends.
type tail int

const (
	whole tail = iota // between two records or inside of a header
	torn              // inside of the last block of a record's content
	lost              // inside of a record's content, with at least one block missing
)

// use writes through the instance and checks that it is there, now and after a rebuild.
func use(n *hx.Env, end tail, paths []string) {
	data := []byte("written afterwards")
	var err error
	want := map[string][]byte{}
	k := uses()
	switch k {
	case 0:
		err = n.Write("/new", data)
		want["/new"] = data
	case 1:
		err = n.FS.Mkdir("/newd", 0o755)
		if err == nil {
			err = n.Write("/newd/new", data)
			want["/newd/new"] = data
		}
	case 2:
		// replace an existing file
		p := paths[0]
		if _, serr := n.FS.Stat(p); serr != nil {
			sym.Stop()
		}
		err = n.Write(p, data)
		want[p] = data
	case 3:
		p := paths[1]
		if _, serr := n.FS.Stat(p); serr != nil {
			sym.Stop()
		}
		err = n.FS.Rename(p, "/moved")
		if err == nil {
			err = n.Write("/new", data)
			want["/new"] = data
		}
	}
	sym.Assert(err == nil, "writing afterwards", hx.E(err))
	for p, d := range want {
		b, err := n.ReadAll(p)
		sym.Assert(err == nil && string(b) == string(d), "written entry is there", p+": "+hx.E(err))
	}
	r, err := n.Rebuild()
	if end == lost {
		// Known finding: the records that follow are taken for the rest of the torn content
		sym.Known("C16-torn-content")
	}
	sym.Assert(err == nil, "rebuild afterwards", hx.E(err))
	for p, d := range want {
		b, err := r.ReadAll(p)
		sym.Assert(err == nil && string(b) == string(d), "written entry survives a rebuild", p+": "+hx.E(err))
	}
	if k == 3 {
		_, err := r.FS.Stat("/moved")
		sym.Assert(err == nil, "moved entry survives a rebuild", hx.E(err))
	}
	if end == whole {
		same(n, r, "written afterwards")
	}
	sym.Reach("used")
}

// index picks the state of the index: absent, current (or ahead of a cut tape), or behind.
func index(h *hx.Env, recs []hx.Rec, label string) string {
	switch k := sym.Choice(label, 5); k {
	case 0:
		return sym.Dir() + "/meta.sqlite"
	case 1:
		return h.DB
	default:
		i := []int{1, len(recs) / 2, len(recs) - 1}[k-2]
		return prefixIndex(h, recs[i].Off)
	}
}

// HClean: the tape is complete; every state of the index.
func HClean() {
	h := hx.PopulateWith(hx.Opt{Rec: 1 + 2*sym.Choice("rec", 2)}, hx.Styles[sym.Choice("style", 2)])
	h.Perform(hx.Pick("op", hx.Short()), "op")
	s := hx.Scan(h.Drive, false)
	n := opened(h.Env, index(h.Env, s.Recs, "index"), "complete")
	sym.Assert(n != nil, "a complete tape opens", "")
	if sym.Tier() > 0 || h.Op == hx.Short()[0].String() {
		use(n, whole, []string{h.S.P("/0/f"), h.S.P("/2")})
	}
}

// cutAt cuts the tape inside of or behind one of its records.
func cutAt(h *hx.Env, recs []hx.Rec, i int) tail {
	r := recs[i]
	blocks := (r.End - r.Off + 511) / 512
	k := int64(sym.Choice("block", int(blocks)+1))
	in := []int64{0, 511}
	if sym.Tier() > 0 {
		in = []int64{0, 1, 511}
	}
	cut := r.Off + k*512 + in[sym.Choice("in block", len(in))]
	if k == blocks {
		cut++ // In the trailer
	}
	hx.Must(os.Truncate(h.Drive, cut), "cut")
	full := (cut + 511) / 512 * 512
	switch {
	case full >= r.Body && full < r.End:
		return lost
	case cut > r.Body && cut < r.Off+blocks*512:
		return torn
	}
	return whole
}

// HCut: the tape is cut inside of the records that one call wrote.
func HCut() {
	h := hx.PopulateWith(hx.Opt{Rec: 3}, hx.Styles[0])
	m := len(hx.Scan(h.Drive, false).Recs)
	l := []hx.Call{{"put", "/n", ""}, {"put", "/0/f", ""}, {"rename", "/0", "/n"}, {"removeall", "/0", ""}, {"chmod", "/h", ""}, {"mkdir", "/n", ""}, {"rename", "/h", "/0/f"}}
	h.Perform(hx.Pick("op", l), "op")
	s := hx.Scan(h.Drive, false)
	i := m + sym.Choice("record", 3)
	if i >= len(s.Recs) {
		sym.Stop()
	}
	db := hx.Pick2("index", []string{sym.Dir() + "/meta.sqlite", "", h.DB})
	if db == "" {
		db = prefixIndex(h.Env, s.Recs[m-2].Off)
	}
	end := cutAt(h.Env, s.Recs, i)
	n := opened(h.Env, db, "cut")
	sym.Assert(n != nil, "a cut tape opens", "")
	use(n, end, []string{"/e2", h.S.P("/2")})
}

// HAny: the tape is cut anywhere.
func HAny() {
	h := hx.PopulateWith(hx.Opt{Rec: 1}, hx.Styles[0])
	s := hx.Scan(h.Drive, false)
	i := sym.Choice("record", len(s.Recs))
	if sym.Tier() == 0 && i > 3 && i < len(s.Recs)-2 {
		sym.Stop()
	}
	db := []string{sym.Dir() + "/meta.sqlite", h.DB}[sym.Choice("index", 2)]
	end := cutAt(h.Env, s.Recs, i)
	n := opened(h.Env, db, "cut anywhere")
	if n != nil {
		use(n, end, []string{h.S.P("/0/f"), h.S.P("/0")})
	}
}

// HPad: zero blocks or garbage follow the last record.
func HPad() {
	h := hx.PopulateWith(hx.Opt{Rec: 3}, hx.Styles[0])
	h.Perform([]hx.Call{{"put", "/n", ""}, {"mkdir", "/n", ""}}[sym.Choice("op", 2)], "op")
	f, err := os.OpenFile(h.Drive, os.O_WRONLY|os.O_APPEND, 0)
	hx.Must(err, "open")
	_, err = f.Write(make([]byte, []int{1, 511, 512, 1024, 5120, 20000}[sym.Choice("zeros", 6)]))
	hx.Must(err, "pad")
	hx.Must(f.Close(), "close")
	s := hx.Scan(h.Drive, false)
	n := opened(h.Env, index(h.Env, s.Recs, "index"), "padded")
	sym.Assert(n != nil, "a padded tape opens", "")
	use(n, whole, []string{h.S.P("/0/f"), h.S.P("/2")})
}

// HConf: the same in other pipelines.
func HConf() {
	confs := []hx.Opt{
		{Comp: config.CompressionFormatGZipKey}, {Enc: config.EncryptionFormatAgeKey}, {Enc: config.EncryptionFormatPGPKey, Sig: config.SignatureFormatPGPKey},
		{Sig: config.SignatureFormatMinisignKey}, {Comp: config.CompressionFormatBzip2Key, Enc: config.EncryptionFormatAgeKey, Sig: config.SignatureFormatMinisignKey},
	}
	conf := sym.Choice("conf", len(confs))
	h := hx.PopulateWith(confs[conf], hx.Styles[0])
	s := hx.Scan(h.Drive, false)
	h.Perform([]hx.Call{{"put", "/0/f", ""}, {"rename", "/0", "/n"}}[sym.Choice("op", 2)], "op")
	t := hx.Scan(h.Drive, false)
	db := []string{sym.Dir() + "/meta.sqlite", h.DB, ""}[sym.Choice("index", 3)]
	if db == "" {
		db = prefixIndex(h.Env, s.Recs[len(s.Recs)-1].Off)
	}
	end := whole
	if sym.Fork(sym.Bool("cut")) {
		if sym.Tier() == 0 && conf != 1 && conf != 3 {
			sym.Stop()
		}
		end = cutAt(h.Env, t.Recs, len(s.Recs))
	}
	n := opened(h.Env, db, "configured")
	sym.Assert(n != nil, "a tape opens", "")
	use(n, end, []string{"/e2", h.S.P("/2")})
}

// HTwice: opening again and again, and opening what was written after a cut.
func HTwice() {
	h := hx.PopulateWith(hx.Opt{Rec: 2}, hx.Styles[0])
	s := hx.Scan(h.Drive, false)
	i := len(s.Recs) - 1 - sym.Choice("record", 2)
	end := cutAt(h.Env, s.Recs, i)
	if end != whole {
		sym.Stop()
	}
	n := opened(h.Env, h.DB, "first")
	sym.Assert(n != nil, "opens", "")
	for j := 0; j < 2; j++ {
		k := []int{1, 0, 2}[sym.Choice("use", 2+sym.Tier())]
		switch k {
		case 0:
			sym.Assert(n.Write("/new", sym.Fill(int64(5+j), 'n')) == nil, "write", "")
		case 1:
			sym.Assert(n.FS.MkdirAll("/x/y", 0o700) == nil, "make directories", "")
		case 2:
			n.FS.Rename("/h", "/h2")
		}
		db := n.DB
		if sym.Fork(sym.Bool("fresh")) {
			db = sym.Dir() + "/meta.sqlite"
		}
		n = opened(n, db, "again")
		sym.Assert(n != nil, "opens again", "")
	}
}

// faulty fails after some reads.
type faulty struct {
	config.ReadSeekFder
	left *int64
}

func (f faulty) Read(p []byte) (int, error) {
	if *f.left--; *f.left < 0 {
		return 0, errors.New("read error")
	}
	return f.ReadSeekFder.Read(p)
}

// HFault: reading the tape fails while it is opened; later it does not.
func HFault() {
	h := hx.PopulateWith(hx.Opt{Rec: 3}, hx.Styles[0])
	s := hx.Scan(h.Drive, false)
	db := index(h.Env, s.Recs, "index")
	reads := []int64{0, 1, 2, 3, 4, 5, 7, 10, 15, 25, 40, 60, 90, 130}
	left := reads[sym.Choice("reads", len(reads))]
	if sym.Tier() > 0 {
		left = int64(sym.Choice("all reads", 200))
	}
	o := h.Opt
	o.Wrap = func(b config.BackendConfig) config.BackendConfig {
		get := b.GetReader
		b.GetReader = func() (config.DriveReaderConfig, error) {
			r, err := get()
			r.Drive = faulty{r.Drive, &left}
			return r, err
		}
		return b
	}
	before := sym.Snap(h.Drive)
	n := hx.Open(o, h.Dir, h.Drive, db)
	_, err := n.FS.Initialize("/", os.ModePerm)
	after := sym.Snap(h.Drive)
	sym.Assert(sym.Prefix(before, after) && sym.SnapLen(before) == sym.SnapLen(after), "faulty: the tape is unchanged", hx.E(err))
	left = 1 << 40
	if err == nil {
		r, err := n.Rebuild()
		sym.Assert(err == nil, "rebuild", hx.E(err))
		same(n, r, "faulty")
		sym.Reach("opened")
	}
	n = opened(h.Env, db, "after a fault")
	sym.Assert(n != nil, "opens after a fault", "")
	use(n, whole, []string{h.S.P("/0/f"), h.S.P("/2")})
}

// HWrong: the tape is opened with other keys or another configuration.
func HWrong() {
	confs := []hx.Opt{
		{}, {Enc: config.EncryptionFormatAgeKey}, {Enc: config.EncryptionFormatPGPKey, Comp: config.CompressionFormatGZipKey}, {Sig: config.SignatureFormatMinisignKey}, {Sig: config.SignatureFormatPGPKey},
	}
	h := hx.PopulateWith(confs[sym.Choice("conf", len(confs))], hx.Styles[0])
	s := hx.Scan(h.Drive, false)
	db := []string{sym.Dir() + "/meta.sqlite", h.DB, ""}[sym.Choice("index", 3)]
	if db == "" {
		db = prefixIndex(h.Env, s.Recs[len(s.Recs)-2].Off)
	}
	o := confs[sym.Choice("other", len(confs))]
	k := hx.MakeKeys(o.Enc, o.Sig)
	o.Keys = &k
	before := sym.Snap(h.Drive)
	n := hx.Open(o, h.Dir, h.Drive, db)
	_, err := n.FS.Initialize("/", os.ModePerm)
	after := sym.Snap(h.Drive)
	sym.Assert(sym.Prefix(before, after) && sym.SnapLen(before) == sym.SnapLen(after), "opened wrongly: the tape is unchanged", hx.E(err))
	// the right keys still open it without an index
	r := opened(h.Env, sym.Dir()+"/other.sqlite", "opened rightly")
	sym.Assert(r != nil, "opens with its keys", "")
}

// HGarbage: the tape ends in something which never was a record.
func HGarbage() {
	h := hx.PopulateWith(hx.Opt{Rec: 3}, hx.Styles[0])
	h.Perform([]hx.Call{{"put", "/n", ""}, {"mkdir", "/n", ""}}[sym.Choice("op", 1+sym.Tier())], "op")
	s := hx.Scan(h.Drive, false)
	last := s.Recs[len(s.Recs)-1]
	db := index(h.Env, s.Recs, "index")
	f, err := os.OpenFile(h.Drive, os.O_RDWR, 0)
	hx.Must(err, "open")
	n := sym.SnapLen(sym.Snap(h.Drive))
	end := whole
	switch sym.Choice("where", 4) {
	case 0: // behind the trailer
	case 1: // instead of the trailer
		n = (last.End + 511) / 512 * 512
	case 2: // instead of the last record's header
		n = last.Off
		hx.Must(f.Truncate(n), "cut")
	case 3: // instead of a part of the last record's header
		n = last.Off + 512
		hx.Must(f.Truncate(n), "cut")
	}
	b, sizes := byte(0xff), []int{3000, 1, 512, 511, 700}
	k := sym.Choice("garbage", 3+2*sym.Tier())
	if k == 0 || (sym.Tier() > 0 && sym.Fork(sym.Bool("text"))) {
		b = 'x'
	}
	_, err = f.WriteAt(bytes.Repeat([]byte{b}, sizes[k]), n)
	hx.Must(err, "write")
	hx.Must(f.Close(), "close")
	e := opened(h.Env, db, "garbage")
	if e != nil {
		use(e, end, []string{h.S.P("/0/f"), h.S.P("/2")})
	}
}
