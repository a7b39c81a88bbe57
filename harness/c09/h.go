// Package c09: with encryption on, the tape reveals nothing but record sizes.
package c09

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"time"

	"filippo.io/age"
	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
)

const (
	nameA = "QZxname-alpha"
	nameB = "WJkname-beta"
	nameC = "VYqname-gamma"
	nameD = "KXwdir-delta"
	nameE = "JHzdir-epsilon"
	link  = "XXqlink-target"
	owner = "ZOwner-user"
	group = "YGroup-group"
	text1 = "content-one-PQRSTUV"
	text2 = "content-two-MNBVCXZ"
	text3 = "content-three-LKJHG"
	pax   = "PAXVALUE-nobody-knows"
	uid   = 1357642
	gid   = 1246853
)

var (
	modA = time.Unix(1357924687, 0)
	modB = time.Unix(1468135791, 0)
	modC = time.Unix(1579246813, 0)
)

// secrets are what nobody may find, and how it could be spelt.
var secrets = spell()

func spell() []string {
	raw := []string{
		nameA, nameB, nameC, nameD, nameE, link, owner, group, text1, text2, text3, pax,
		"STFS.Action", "STFS.Version", "STFS.ReplacesContent", "STFS.ReplacesName", "STFS.UncompressedSize", "CREATE", "UPDATE", "DELETE", `"Name"`, "Typeflag", "PAXRecords",
	}
	out := append([]string{}, raw...)
	for _, s := range raw {
		for i := 0; i < 3; i++ {
			b := base64.StdEncoding.EncodeToString([]byte("xxx"[:i] + s))
			// the characters which depend on what surrounds the secret are left out
			out = append(out, b[(i*8+5)/6:(i+len(s))*8/6])
		}
		h := hex.EncodeToString([]byte(s))
		out = append(out, h, strings.ToUpper(h))
	}
	for _, n := range []int64{uid, gid} {
		out = append(out, fmt.Sprintf("%d", n), fmt.Sprintf("%07o", n))
	}
	for _, t := range []time.Time{modA, modB, modC} {
		out = append(out, fmt.Sprintf("%d", t.Unix()), fmt.Sprintf("%o", t.Unix()), t.UTC().Format("2006-01-02"), t.Format(time.RFC3339))
	}
	return out
}

// opens asserts that b is nothing but one ciphertext for the instance's identity.
func opens(e *hx.Env, b []byte, at string) {
	var r io.Reader
	var err error
	switch id := e.K.EncID.(type) {
	case *age.X25519Identity:
		sym.Assert(bytes.HasPrefix(b, []byte("age-encryption.org/v1\n")), at+": is an age message", "")
		r, err = age.Decrypt(bytes.NewReader(b), id)
	case openpgp.EntityList:
		sym.Assert(len(b) > 0 && b[0] == 0xc1, at+": is an OpenPGP message", "")
		var m *openpgp.MessageDetails
		if m, err = openpgp.ReadMessage(bytes.NewReader(b), id, nil, nil); err == nil {
			sym.Assert(m.IsEncrypted, at+": is encrypted", "")
			r = m.UnverifiedBody
		}
	}
	sym.Assert(err == nil, at+": decrypts", hx.E(err))
	_, err = io.Copy(io.Discard, r)
	sym.Assert(err == nil, at+": decrypts completely", hx.E(err))
}

// wrapper renders all of an outer header which is not its length or its ciphertext.
func wrapper(h *tar.Header) string {
	keys := ""
	for k, v := range h.PAXRecords {
		if k != "STFS.EmbeddedHeader" {
			keys += k + "=" + v + ";" // at most one, so that the order does not matter
			sym.Assert(k != "", "no other PAX records", k)
		}
	}
	return fmt.Sprint(h.Typeflag, "|", h.Name, "|", h.Linkname, "|", h.Mode, "|", h.Uid, "|", h.Gid, "|", h.Uname, "|", h.Gname, "|", h.Devmajor, "|", h.Devminor, "|", int(h.Format), "|", keys, "|",
		h.ModTime.Unix(), "|", h.AccessTime.IsZero(), "|", h.ChangeTime.IsZero())
}

// check looks at the whole tape.
func check(e *hx.Env, at string) int {
	dump(e)
	res := hx.Scan(e.Drive, true)
	sym.Assert(res.Err == "", at+": the tape can be walked", res.Err)
	fixed := ""
	for i, r := range res.Recs {
		h := r.Hdr
		w := wrapper(&h)
		if i == 0 {
			fixed = w
		}
		sym.Assert(w == fixed, at+": all outer headers are the same", w+" / "+fixed)
		c, err := base64.StdEncoding.DecodeString(h.PAXRecords["STFS.EmbeddedHeader"])
		sym.Assert(err == nil, at+": the header is wrapped", hx.E(err))
		opens(e, c, at+": header")
		if len(r.Data) > 0 {
			opens(e, r.Data, at+": content")
		}
	}
	clear(e, at)
	return len(res.Recs)
}

// dump makes the records of a tape drive a file.
func dump(e *hx.Env) {
	if e.Tape != nil {
		var all []byte
		for _, f := range e.Tape.Files() {
			// the archive of each file, without the zeros which fill up its last record
			n := len(f)
			for n >= 512 && bytes.Equal(f[n-512:n], make([]byte, 512)) {
				n -= 512
			}
			all = append(append(all, f[:n]...), make([]byte, 1024)...)
		}
		hx.Must(os.WriteFile(e.Drive, all, 0o600), "dump tape")
	}
}

// clear searches the raw bytes of the tape.
func clear(e *hx.Env, at string) {
	dump(e)
	raw := sym.Snap(e.Drive)
	for _, s := range secrets {
		if sym.Contains(raw, s) {
			sym.Assert(false, at+": nothing is in clear", s)
		}
	}
}

// ---- calls ----

func sys() *tar.Header {
	return &tar.Header{Uid: uid, Gid: gid, Uname: owner, Gname: group, AccessTime: modB, ChangeTime: modC, PAXRecords: map[string]string{"USER.note": pax}}
}

type call struct {
	name string
	do   func(e *hx.Env) error
}

func handle(e *hx.Env, name string, flags int, use func(f io.ReadWriteSeeker, sync func() error, trunc func(int64) error) error) error {
	f, err := e.FS.OpenFile(name, flags, 0o600)
	if err != nil {
		return err
	}
	err = use(f, f.Sync, f.Truncate)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return err
}

// broken is a source which fails after some of its content.
type broken struct{ *strings.Reader }

func (b broken) Close() error { return nil }
func (b broken) Read(p []byte) (int, error) {
	if b.Len() < 5 {
		return 0, errors.New("source failed")
	}
	return b.Reader.Read(p[:1])
}

var calls = []call{
	{"mkdir", func(e *hx.Env) error { return e.FS.Mkdir("/"+nameE, 0o750) }},
	{"mkdirall", func(e *hx.Env) error { return e.FS.MkdirAll("/"+nameE+"/"+nameC, 0o750) }},
	{"create", func(e *hx.Env) error { return e.Write("/"+nameC, []byte(text3)) }},
	{"create empty", func(e *hx.Env) error { return e.Write("/"+nameC, nil) }},
	{"overwrite", func(e *hx.Env) error { return e.Write("/"+nameD+"/"+nameA, []byte(text3)) }},
	{"edit", func(e *hx.Env) error {
		return handle(e, "/"+nameD+"/"+nameA, os.O_RDWR, func(f io.ReadWriteSeeker, sync func() error, trunc func(int64) error) error {
			f.Seek(3, io.SeekStart)
			f.Write([]byte(text3))
			if err := sync(); err != nil {
				return err
			}
			return trunc(9)
		})
	}},
	{"append", func(e *hx.Env) error {
		return handle(e, "/"+nameB, os.O_WRONLY|os.O_APPEND, func(f io.ReadWriteSeeker, _ func() error, _ func(int64) error) error {
			_, err := f.Write([]byte(text3 + text2))
			return err
		})
	}},
	{"chmod", func(e *hx.Env) error { return e.FS.Chmod("/"+nameD, 0o711) }},
	{"chown", func(e *hx.Env) error { return e.FS.Chown("/"+nameB, uid, gid) }},
	{"chtimes", func(e *hx.Env) error { return e.FS.Chtimes("/"+nameB, modB, modC) }},
	{"symlink", func(e *hx.Env) error { return e.FS.SymlinkIfPossible("/"+nameB, "/"+link) }},
	{"rename", func(e *hx.Env) error { return e.FS.Rename("/"+nameB, "/"+nameC) }},
	{"rename directory", func(e *hx.Env) error { return e.FS.Rename("/"+nameD, "/"+nameE) }},
	{"rename onto", func(e *hx.Env) error { return e.FS.Rename("/"+nameB, "/"+nameD+"/"+nameA) }},
	{"remove", func(e *hx.Env) error { return e.FS.Remove("/" + nameB) }},
	{"removeall", func(e *hx.Env) error { return e.FS.RemoveAll("/" + nameD) }},
	{"archive", func(e *hx.Env) error {
		return e.Archive(false, false,
			hx.Item{Path: "/" + nameC, Data: []byte(text3), Sys: sys(), Mod: modA},
			hx.Item{Path: "/" + nameE, Dir: true, Sys: sys(), Mod: modB},
			hx.Item{Path: "/" + link, Link: "/" + nameB, Sym: true, Sys: sys(), Mod: modC})
	}},
	{"archive hard link", func(e *hx.Env) error {
		h := sys()
		h.Typeflag, h.Linkname = tar.TypeLink, "/"+nameB
		return e.Archive(false, false, hx.Item{Path: "/" + link, Link: "/" + nameB, Sys: h, Mod: modA})
	}},
	{"archive device", func(e *hx.Env) error {
		return e.Archive(false, false, hx.Item{Path: "/" + nameC, Mode: fs.ModeDevice | fs.ModeCharDevice | 0o600, Sys: sys(), Mod: modA},
			hx.Item{Path: "/" + nameE, Mode: fs.ModeNamedPipe | 0o600, Sys: sys(), Mod: modA})
	}},
	{"archive failing", func(e *hx.Env) error {
		return e.Archive(false, false, hx.Item{Path: "/" + nameC, Data: []byte(text3), Sys: sys(), Mod: modA,
			Get: func() (io.ReadSeekCloser, error) { return broken{strings.NewReader(text3)}, nil }})
	}},
	{"update", func(e *hx.Env) error {
		return e.Update(true, hx.Item{Path: "/" + nameB, Data: []byte(text3 + text1), Sys: sys(), Mod: modB})
	}},
	{"update metadata", func(e *hx.Env) error {
		return e.Update(false, hx.Item{Path: "/" + nameB, Data: []byte(text3), Sys: sys(), Mod: modC})
	}},
	{"update directory", func(e *hx.Env) error {
		return e.Update(true, hx.Item{Path: "/" + nameD, Dir: true, Sys: sys(), Mod: modC})
	}},
	{"update missing", func(e *hx.Env) error {
		return e.Update(true, hx.Item{Path: "/" + nameC, Data: []byte(text3), Sys: sys(), Mod: modB})
	}},
	{"delete", func(e *hx.Env) error { return e.W.Delete("/" + nameD) }},
	{"move", func(e *hx.Env) error { return e.W.Move("/"+nameD, "/"+nameE) }},
	{"remove missing", func(e *hx.Env) error { return e.FS.Remove("/" + nameC) }},
	{"reinitialize", func(e *hx.Env) error {
		n := e.Reopen(true)
		_, err := n.FS.Initialize("/"+nameC, 0o700)
		return err
	}},
	{"write over", func(e *hx.Env) error {
		e.SetOverwrite()
		return e.Archive(true, true, hx.Item{Path: "/", Dir: true, Mod: modA}, hx.Item{Path: "/" + nameC, Data: []byte(text3), Sys: sys(), Mod: modA})
	}},
}

func build(o hx.Opt) *hx.Env {
	if o.Rec == 0 {
		o.Rec = 3
	}
	e := hx.NewFS(o)
	hx.Must(e.Archive(false, false,
		hx.Item{Path: "/" + nameD, Dir: true, Mode: 0o755, Sys: sys(), Mod: modA},
		hx.Item{Path: "/" + nameD + "/" + nameA, Data: []byte(text1), Sys: sys(), Mod: modB},
		hx.Item{Path: "/" + nameB, Data: []byte(strings.Repeat(text2, 40)), Sys: sys(), Mod: modC}), "populate")
	return e
}

var (
	comps = []string{
		config.NoneKey, config.CompressionFormatGZipKey, config.CompressionFormatParallelGZipKey, config.CompressionFormatLZ4Key,
		config.CompressionFormatZStandardKey, config.CompressionFormatBrotliKey, config.CompressionFormatBzip2Key, config.CompressionFormatBzip2ParallelKey,
	}
	encs = []string{config.EncryptionFormatAgeKey, config.EncryptionFormatPGPKey}
	sigs = []string{config.NoneKey, config.SignatureFormatMinisignKey, config.SignatureFormatPGPKey}
)

// HClear: every call in every configuration.
func HClear() {
	o := hx.Opt{Enc: encs[sym.Choice("encryption", 2)], Sig: sigs[sym.Choice("signature", 3)], Comp: comps[sym.Choice("compression", len(comps))]}
	if sym.Tier() > 0 {
		o.Level = []string{config.CompressionLevelFastestKey, config.CompressionLevelBalancedKey, config.CompressionLevelSmallestKey}[sym.Choice("level", 3)]
		o.Rec = []int{1, 3, 20}[sym.Choice("record", 3)]
		o.Cache = []string{config.WriteCacheTypeMemory, config.WriteCacheTypeFile}[sym.Choice("cache", 2)]
	}
	c := calls[sym.Choice("call", len(calls))]
	e := build(o)
	n := check(e, "populated")
	err := c.do(e)
	sym.Observe(c.name, err == nil)
	if m := check(e, "after the call"); m > n {
		sym.Reach("appends: " + c.name)
	}
	sym.Reach(c.name)
}

// HTape: the same calls on a tape drive.
func HTape() {
	o := hx.Opt{NonRegular: true, Enc: encs[sym.Choice("encryption", 2)]}
	if sym.Fork(sym.Bool("pipes")) {
		o.Sig, o.Comp, o.Rec = config.SignatureFormatPGPKey, config.CompressionFormatZStandardKey, 20
	}
	e := build(o)
	check(e, "populated")
	for i := 0; i < 1+sym.Tier(); i++ {
		c := calls[sym.Choice("call", len(calls)-1)] // tapes are not written over
		c.do(e)
		check(e, "after the call")
		sym.Reach(c.name)
	}
}

// HBytes: content of symbolic bytes out of an alphabet that nothing else on a tape uses.
func HBytes() {
	o := hx.Opt{Enc: encs[sym.Choice("encryption", 2)]}
	if sym.Fork(sym.Bool("signed")) {
		o.Sig = config.SignatureFormatMinisignKey
	}
	e := hx.NewFS(o)
	n := 6 + 6*sym.Tier()
	a := sym.Str("a", n, "!#$%&'")
	pad := strings.Repeat("p", []int{0, 1, 511, 600}[sym.Choice("pad", 4)])
	switch sym.Choice("route", 4) {
	case 0:
		hx.Must(e.Write("/f", []byte(pad+a)), "write")
	case 1:
		hx.Must(e.Archive(false, false, hx.Item{Path: "/f", Data: []byte(pad + a)}), "archive")
	case 2:
		hx.Must(e.Archive(false, false, hx.Item{Path: "/f", Data: []byte("old")}), "archive")
		hx.Must(e.Update(true, hx.Item{Path: "/f", Data: []byte(pad + a)}), "update")
	case 3:
		hx.Must(e.Write("/f", []byte("old "+pad)), "write")
		hx.Must(handle(e, "/f", os.O_RDWR, func(f io.ReadWriteSeeker, _ func() error, _ func(int64) error) error {
			f.Seek(2, io.SeekStart)
			_, err := f.Write([]byte(a))
			return err
		}), "edit")
	}
	hx.Must(e.FS.Chmod("/f", 0o600), "chmod")
	hx.Must(e.FS.Rename("/f", "/g"), "rename")
	raw := sym.Snap(e.Drive)
	for i := 0; i+4 <= n; i += 2 {
		sym.Assert(!sym.Contains(raw, a[i:i+4]), "content is not in clear", "")
	}
	sym.Reach("bytes")
}

// HTwo: histories of several calls.
func HTwo() {
	o := hx.Opt{Enc: encs[sym.Choice("encryption", 2)]}
	if sym.Tier() > 0 {
		o.Sig = config.SignatureFormatPGPKey
		o.Comp = config.CompressionFormatZStandardKey
	}
	e := build(o)
	for i := 0; i < 2+sym.Tier(); i++ {
		c := calls[sym.Choice("call", len(calls))]
		c.do(e)
		check(e, "after a call")
	}
	sym.Reach("two")
}

// HFault: a call that fails at any of its writes.
func HFault() {
	o := hx.Opt{Enc: encs[sym.Choice("encryption", 2)]}
	if sym.Fork(sym.Bool("signed")) {
		o.Sig = config.SignatureFormatPGPKey
	}
	f := &fault{k: int(sym.Int("k", 1, 60))}
	o.Wrap = f.wrap
	e := build(o)
	c := calls[sym.Choice("call", len(calls))]
	f.on = true
	c.do(e)
	f.on = false
	sym.Assert(f.n < 60, "bound on the writes of one call", c.name)
	if !f.fired {
		sym.Assume(f.k == 60)
	}
	clear(e, "after a failing call")
	// what is written afterwards is encrypted, too
	e.Write("/"+nameC, []byte(text3))
	clear(e, "after the next call")
	sym.Reach(c.name)
}

type fault struct {
	on, fired bool
	k, n      int
}

type failing struct {
	io.Writer
	f *fault
}

func (w failing) Write(p []byte) (int, error) {
	if w.f.on {
		w.f.n++
		if !w.f.fired && w.f.k == w.f.n {
			w.f.fired = true
			n, _ := w.Writer.Write(p[:len(p)/2])
			return n, errors.New("injected fault")
		}
	}
	return w.Writer.Write(p)
}

type failingSeeker struct{ failing }

func (w failingSeeker) Seek(o int64, wh int) (int64, error) {
	return w.Writer.(io.Seeker).Seek(o, wh)
}

func (f *fault) wrap(b config.BackendConfig) config.BackendConfig {
	get := b.GetWriter
	b.GetWriter = func() (config.DriveWriterConfig, error) {
		c, err := get()
		if err == nil {
			w := failing{c.Drive, f}
			c.Drive = w
			if _, ok := w.Writer.(io.Seeker); ok {
				c.Drive = failingSeeker{w}
			}
		}
		return c, err
	}
	return b
}

// HWrongKey: neither a rebuild nor a restore succeeds with another private key.
func HWrongKey() {
	o := hx.Opt{Enc: encs[sym.Choice("encryption", 2)], Sig: sigs[sym.Choice("signature", 3)], Comp: comps[sym.Choice("compression", len(comps))]}
	e := build(o)
	c := calls[sym.Choice("call", len(calls))]
	c.do(e)
	wrong := *e.Opt.Keys
	switch sym.Choice("key", 3) {
	case 0:
		wrong.EncID = hx.MakeKeys(o.Enc, "").EncID
	case 1: // no key at all
		wrong.EncID = nil
	case 2: // the public half
		wrong.EncID = e.Opt.Keys.EncRec
	}
	w := e.Opt
	w.Keys = &wrong
	x := e.With(w, true)
	sym.Assert(x.Index(true, false) != nil, "no rebuild with another key", "")
	sym.Assert(len(x.Headers()) == 0, "nothing is indexed with another key", "")
	x = e.With(w, true)
	_, err := x.FS.Initialize("/", 0o777)
	sym.Assert(err != nil, "does not open with another key", "")
	// also with the right index
	x = e.With(w, false)
	for _, h := range e.Headers() {
		s, err := x.RestoreOne(h.Name)
		sym.Assert(err != nil, "no restore with another key", h.Name)
		sym.Assert(s.Buf.Len() == 0, "nothing is restored with another key", h.Name)
		s, dir, err := x.FetchAt(h.Record, h.Block)
		sym.Assert(err != nil && !dir && s.Buf.Len() == 0, "no fetch with another key", h.Name)
		if h.Typeflag == int64(tar.TypeReg) && h.Size > 0 {
			b, err := x.ReadAll(h.Name)
			sym.Assert(err != nil && len(b) == 0, "no reading with another key", h.Name)
		}
	}
	sym.Reach("wrong key")
}
