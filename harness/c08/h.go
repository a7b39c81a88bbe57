// Package c08: with signatures on, nothing unsigned or altered is ever accepted.
package c08

import (
	"archive/tar"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
)

const (
	embedded  = "STFS.EmbeddedHeader"
	signedRec = "STFS.Signature"
)

var (
	comps = []string{
		config.NoneKey, config.CompressionFormatGZipKey, config.CompressionFormatLZ4Key, config.CompressionFormatParallelGZipKey,
		config.CompressionFormatZStandardKey, config.CompressionFormatBrotliKey, config.CompressionFormatBzip2Key, config.CompressionFormatBzip2ParallelKey,
	}
	encs = []string{config.NoneKey, config.EncryptionFormatAgeKey, config.EncryptionFormatPGPKey}
	sigs = []string{config.SignatureFormatMinisignKey, config.SignatureFormatPGPKey}
)

var tier = -1

func thorough() bool {
	if tier < 0 {
		tier = sym.Tier()
	}
	return tier > 0
}

// ---- what the indexer accepts ----

// accepted records every change to an index.
type accepted struct {
	config.MetadataPersister
	keys []string
}

func key(h *config.Header, size bool) string {
	s := int64(-1)
	if size {
		s = h.Size
	}
	return fmt.Sprint(h.Typeflag, "|", h.Name, "|", h.Linkname, "|", s, "|", h.Mode, "|", h.UID, "|", h.Gid, "|", h.Uname, "|", h.Gname, "|", h.Modtime.UnixNano(), "|", h.Devmajor, "|", h.Devminor, "|", h.Paxrecords, "|", h.Format)
}

func (a *accepted) UpsertHeader(ctx context.Context, h *config.Header, i bool) error {
	a.keys = append(a.keys, "upsert "+key(h, true))
	return a.MetadataPersister.UpsertHeader(ctx, h, i)
}

func (a *accepted) UpdateHeaderMetadata(ctx context.Context, h *config.Header) error {
	a.keys = append(a.keys, "update "+key(h, false))
	return a.MetadataPersister.UpdateHeaderMetadata(ctx, h)
}

func (a *accepted) MoveHeader(ctx context.Context, o, n string, r, b int64) error {
	a.keys = append(a.keys, "move "+o+" to "+n)
	return a.MetadataPersister.MoveHeader(ctx, o, n, r, b)
}

func (a *accepted) DeleteHeader(ctx context.Context, n string, r, b int64) (*config.Header, error) {
	a.keys = append(a.keys, "delete "+n)
	return a.MetadataPersister.DeleteHeader(ctx, n, r, b)
}

// ---- tapes ----

// rec is one record, without its encryption.
type rec struct {
	hdr  tar.Header
	body []byte // as on the tape
	raw  bool   // written as it is, not encrypted
}

// world is a tape written by the holder of the key.
type world struct {
	grown    bool // the instance has written since
	e        *hx.Env
	acc      *accepted
	recs     []rec
	keys     map[string]bool   // what its index was told
	headers  map[string]bool   // the headers which were signed
	contents map[string][]byte // by header
	any      map[string]bool   // all content
	known    bool              // the attack of the recorded finding
	quiet    bool              // observe nothing
	hit      int               // the record which was altered
}

func canon(h *tar.Header) string {
	b, err := json.Marshal(h)
	hx.Must(err, "marshal")
	return string(b)
}

func (w *world) wrap(m config.MetadataPersister) config.MetadataPersister {
	w.acc = &accepted{MetadataPersister: m}
	return w.acc
}

// open is an instance over the tape.
func (w *world) open(fresh bool) (*hx.Env, *accepted) {
	x := w.e.Reopen(fresh)
	return x, w.acc
}

const content = "signed content of f"

// populate writes records of all kinds.
func populate(e *hx.Env, small bool) {
	hx.Must(e.Archive(false, false, hx.Item{Path: "/f", Data: []byte(content)}), "populate")
	if small {
		return
	}
	hx.Must(e.Archive(false, false, hx.Item{Path: "/d", Dir: true}, hx.Item{Path: "/d/g", Data: []byte("other content, which is longer than a first one")}, hx.Item{Path: "/empty"},
		hx.Item{Path: "/l", Link: "/f", Sym: true}), "populate")
	hx.Must(e.FS.Chmod("/f", 0o600), "chmod")
	hx.Must(e.Update(true, hx.Item{Path: "/d/g", Data: []byte("newer content")}), "update")
	hx.Must(e.FS.Rename("/d", "/r"), "rename")
	hx.Must(e.FS.Remove("/empty"), "remove")
}

// make builds a tape and learns what was signed.
func build(o hx.Opt, small bool, fill func(e *hx.Env)) *world {
	w := &world{keys: map[string]bool{}, headers: map[string]bool{}, contents: map[string][]byte{}, any: map[string]bool{"": true}}
	if o.Rec == 0 {
		o.Rec = 3
	}
	o.WrapMeta = w.wrap
	w.e = hx.NewFS(o)
	populate(w.e, small)
	if fill != nil {
		fill(w.e)
	}
	e := w.e
	res := hx.Scan(e.Drive, true)
	hx.Must(errOf(res.Err), "scan")
	for _, r := range res.Recs {
		h := r.Hdr
		hx.Must(encryption.DecryptHeader(&h, e.Opt.Enc, e.K.EncID), "decrypt")
		n := rec{hdr: h, body: r.Data}
		w.recs = append(w.recs, n)
		i := h
		hx.Must(signature.VerifyHeader(&i, true, e.Opt.Sig, e.K.SigRec), "verify")
		w.headers[canon(&i)] = true
		block := r.Off / 512
		s, dir, err := e.FetchAt(block/int64(e.Opt.Rec), block%int64(e.Opt.Rec))
		if err == nil && !dir {
			w.contents[canon(&i)] = append([]byte{}, s.Buf.Bytes()...)
			w.any[s.Buf.String()] = true
		}
	}
	x, acc := w.open(true)
	hx.Must(x.Index(true, false), "index")
	for _, k := range acc.keys {
		w.keys[k] = true
	}
	x, acc = w.open(true)
	_, err := x.FS.Initialize("/", 0o777)
	hx.Must(err, "initialize")
	for _, k := range acc.keys {
		w.keys[k] = true
	}
	return w
}

func errOf(s string) error {
	if s == "" {
		return nil
	}
	return fmt.Errorf("%s", s)
}

// write replaces the tape; the attacker knows the recipients of the encryption.
func (w *world) write(recs []rec) {
	b := &bytes.Buffer{}
	tw := tar.NewWriter(b)
	for _, r := range recs {
		h := r.hdr
		if !r.raw {
			hx.Must(encryption.EncryptHeader(&h, w.e.Opt.Enc, w.e.K.EncRec), "encrypt")
			h.Size = int64(len(r.body))
		}
		hx.Must(tw.WriteHeader(&h), "write header")
		_, err := tw.Write(r.body)
		hx.Must(err, "write body")
	}
	hx.Must(tw.Close(), "close")
	hx.Must(os.WriteFile(w.e.Drive, b.Bytes(), 0o600), "write tape")
}

// encrypted is a body which the attacker makes himself.
func (w *world) encrypted(plain []byte) []byte {
	b := &bytes.Buffer{}
	c, err := encryption.Encrypt(b, w.e.Opt.Enc, w.e.K.EncRec)
	hx.Must(err, "encrypt")
	_, err = c.Write(plain)
	hx.Must(err, "encrypt")
	hx.Must(c.Close(), "encrypt")
	return b.Bytes()
}

func (w *world) decrypted(b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	r, err := encryption.Decrypt(bytes.NewReader(b), w.e.Opt.Enc, w.e.K.EncID)
	hx.Must(err, "decrypt")
	p, err := io.ReadAll(r)
	hx.Must(err, "decrypt")
	return p
}

// ---- oracle ----

func (w *world) assert(c bool, label, detail string) {
	sym.AssertKnown(c, w.known, label, detail, "C08-content-as-header")
}

func (w *world) indexed(acc *accepted, how string) {
	for _, k := range acc.keys {
		w.assert(w.keys[k], how+": only signed headers are indexed", k)
	}
	acc.keys = nil
}

// check tries everything that reads a tape.
func (w *world) check(positions bool) {
	e := w.e
	// rebuilds
	x, acc := w.open(true)
	rd, err := x.Back.GetReader()
	hx.Must(err, "reader")
	err = recovery.Index(rd, x.Back.MagneticTapeIO, x.MetaCfg, x.Opt.Pipes(), x.R.GetCrypto(), 0, 0, true, false, 0,
		func(h *tar.Header, i int) error { return encryption.DecryptHeader(h, x.Opt.Enc, x.K.EncID) },
		func(h *tar.Header, reg bool) error {
			err := signature.VerifyHeader(h, reg, x.Opt.Sig, x.K.SigRec)
			if err == nil {
				w.assert(w.headers[canon(h)], "rebuild: an accepted header was signed", canon(h))
			}
			return err
		},
		func(h *config.Header) {})
	x.Back.CloseReader()
	if !w.quiet {
		sym.Observe("index", err == nil)
	}
	w.indexed(acc, "rebuild")
	w.contentsOf(x, "rebuild")

	y, acc := w.open(true)
	_, err = y.FS.Initialize("/", 0o777)
	if !w.quiet {
		sym.Observe("initialize", err == nil)
	}
	// a root may be made for a tape without records
	if err == nil && !rootless(acc) {
		w.indexed(acc, "initialize")
	}
	if thorough() {
		w.contentsOf(y, "initialize")
	}

	// the writer's own index over the altered tape
	z, acc := w.open(false)
	w.contentsOf(z, "own index")
	acc.keys = nil
	_, err = z.FS.Initialize("/", 0o777)
	w.indexed(acc, "initialize with own index")

	// queries
	rd, err = e.Back.GetReader()
	hx.Must(err, "reader")
	hs, err := recovery.Query(rd, e.Back.MagneticTapeIO, e.Opt.Pipes(), e.R.GetCrypto(), 0, 0, func(h *config.Header) {})
	e.Back.CloseReader()
	if !w.quiet {
		sym.Observe("query", err == nil, len(hs))
	}
	for _, h := range hs {
		w.assert(w.headers[canon(h)], "query: an accepted header was signed", canon(h))
	}

	// every record
	if positions {
		for i, r := range hx.Scan(e.Drive, false).Recs {
			if thorough() || i == 0 || (i >= w.hit-1 && i <= w.hit+1) {
				w.fetch(r.Off / 512)
			}
		}
	}
	w.writeOn(z, acc)
}

func rootless(a *accepted) bool { return len(a.keys) == 0 }

// fetch restores what lies at a block.
func (w *world) fetch(block int64) {
	e := w.e
	rd, err := e.Back.GetReader()
	hx.Must(err, "reader")
	defer e.Back.CloseReader()
	s := &hx.Sink{}
	dir := false
	h, herr := w.headerAt(block)
	err = recovery.Fetch(rd, e.Back.MagneticTapeIO, e.Opt.Pipes(), e.R.GetCrypto(),
		func(p string, m os.FileMode) (io.WriteCloser, error) { return s, nil },
		func(p string, m os.FileMode) error { dir = true; return nil },
		int(block)/e.Opt.Rec, int(block)%e.Opt.Rec, "", false, nil)
	if err != nil {
		return
	}
	if w.known && herr == nil && !w.headers[canon(h)] {
		return
	}
	w.assert(herr == nil, "fetch: the header verifies", hx.E(herr))
	w.assert(w.headers[canon(h)], "fetch: the header was signed", "")
	if !dir {
		want, ok := w.contents[canon(h)]
		w.assert(ok && bytes.Equal(s.Buf.Bytes(), want), "fetch: the content was signed under its header", string(s.Buf.Bytes()))
	}
}

// headerAt reads the header at a block.
func (w *world) headerAt(block int64) (*tar.Header, error) {
	f, err := os.Open(w.e.Drive)
	hx.Must(err, "open drive")
	defer f.Close()
	f.Seek(block*512, io.SeekStart)
	h, err := tar.NewReader(f).Next()
	if err == nil {
		err = encryption.DecryptHeader(h, w.e.Opt.Enc, w.e.K.EncID)
	}
	if err == nil {
		err = signature.VerifyHeader(h, true, w.e.Opt.Sig, w.e.K.SigRec)
	}
	return h, err
}

// contentsOf restores and reads everything that an instance lists.
func (w *world) contentsOf(x *hx.Env, how string) {
	for _, h := range x.Headers() {
		if h.Typeflag != int64(tar.TypeReg) {
			continue
		}
		s, err := x.RestoreOne(h.Name)
		b, rerr := x.ReadAll(hx.Abs(h.Name))
		if err != nil && rerr != nil {
			continue
		}
		// what lies at the entry's position has been signed, together with what is returned for it
		at, herr := w.headerAt(h.Record*int64(w.e.Opt.Rec) + h.Block)
		if w.known && herr == nil && !w.headers[canon(at)] {
			continue
		}
		w.assert(herr == nil && (w.grown || w.headers[canon(at)]), how+": content was returned for a signed header", h.Name)
		if at != nil && at.Typeflag == tar.TypeDir {
			continue
		}
		want, ok := w.contents[canon(at)]
		if !ok {
			// a record without content keeps the signature of the content which it doesn't repeat
			want, ok = s.Buf.Bytes(), w.any[s.Buf.String()]
			if err != nil {
				want, ok = b, w.any[string(b)]
			}
		}
		if err == nil {
			w.assert(ok && bytes.Equal(s.Buf.Bytes(), want), how+": restored content was signed under its header", h.Name+": "+s.Buf.String())
		}
		if rerr == nil {
			// nothing is restored for an entry without content
			w.assert((h.Size == 0 && len(b) == 0) || (ok && bytes.Equal(b, want)), how+": content read was signed under its header", h.Name+": "+string(b))
		}
	}
}

// writeOn goes on writing to an altered tape; what the index learns is what the call wrote.
func (w *world) writeOn(x *hx.Env, acc *accepted) {
	acc.keys = nil
	err := x.FS.Mkdir("/mk", 0o700)
	if err == nil {
		x.FS.Chmod("/mk", 0o711)
	}
	for _, k := range acc.keys {
		own := false
		for _, op := range []string{"upsert ", "update "} {
			for _, name := range []string{"/mk", "mk"} {
				own = own || strings.HasPrefix(k, fmt.Sprint(op, int(tar.TypeDir), "|", name, "|"))
			}
		}
		w.assert(w.keys[k] || own, "a later call indexes only what was signed", k)
	}
}

// ---- attacks ----

// edit changes the JSON of a header.
func edit(js string, change func(h *tar.Header)) string {
	var h tar.Header
	hx.Must(json.Unmarshal([]byte(js), &h), "unmarshal")
	change(&h)
	return canon(&h)
}

func clonePAX(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (w *world) pick(label string) (int, *rec) {
	// one record of each kind
	from := []int{}
	seen := map[string]bool{}
	for i, r := range w.recs {
		var h tar.Header
		hx.Must(json.Unmarshal([]byte(r.hdr.PAXRecords[embedded]), &h), "unmarshal")
		kind := fmt.Sprint(h.Typeflag, h.PAXRecords["STFS.Action"], h.PAXRecords["STFS.ReplacesName"] != "", h.PAXRecords["STFS.ReplacesContent"])
		if !seen[kind] || thorough() || (label != "record" && i == len(w.recs)-1) {
			from = append(from, i)
		}
		seen[kind] = true
	}
	if label != "record" && !thorough() {
		from = []int{0, from[len(from)/2], len(w.recs) - 1}
	}
	i := from[sym.Choice(label, len(from))]
	w.hit = i
	r := &w.recs[i]
	r.hdr.PAXRecords = clonePAX(r.hdr.PAXRecords)
	return i, r
}

var edits = []func(h *tar.Header){
	func(h *tar.Header) { h.Name += "x" },
	func(h *tar.Header) { h.Name = "/f" },
	func(h *tar.Header) { h.Linkname = "/evil" },
	func(h *tar.Header) { h.Size++ },
	func(h *tar.Header) { h.Size = 0; h.PAXRecords = nil },
	func(h *tar.Header) { h.Mode ^= 0o4002 },
	func(h *tar.Header) { h.Uid, h.Gid = 12, 34 },
	func(h *tar.Header) { h.Uname, h.Gname = "evil", "evil" },
	func(h *tar.Header) { h.ModTime = hx.T0.Add(1e9) },
	func(h *tar.Header) { h.Typeflag = tar.TypeSymlink },
	func(h *tar.Header) { h.Typeflag = tar.TypeDir },
	func(h *tar.Header) { h.Typeflag = tar.TypeReg },
	func(h *tar.Header) { pax(h, "STFS.Action", "DELETE") },
	func(h *tar.Header) { pax(h, "STFS.Action", "CREATE") },
	func(h *tar.Header) { pax(h, "STFS.Action", "UPDATE"); pax(h, "STFS.ReplacesName", "/f") },
	func(h *tar.Header) { pax(h, "STFS.ReplacesContent", "true") },
	func(h *tar.Header) { pax(h, "STFS.UncompressedSize", "0") },
	func(h *tar.Header) { delete(h.PAXRecords, signedRec) },
	func(h *tar.Header) { pax(h, signedRec, "") },
}

func pax(h *tar.Header, k, v string) {
	h.PAXRecords = clonePAX(h.PAXRecords)
	h.PAXRecords[k] = v
}

// notSignatures are values which are no signature at all, or no well-formed one.
func notSignatures(good string) []string {
	raw, err := base64.StdEncoding.DecodeString(good)
	hx.Must(err, "signature")
	enc := base64.StdEncoding.EncodeToString
	half := append([]byte{}, raw[:len(raw)/2]...)
	flipped := append([]byte{}, raw...)
	flipped[len(flipped)-1] ^= 1
	return []string{
		"", "!", "AAAA", "=", good[:len(good)-1], good[:len(good)/2], "x" + good, good + "AAAA", good + good,
		enc(half), enc(flipped), enc(append(append([]byte{}, raw...), 0)), enc([]byte("-----BEGIN PGP SIGNATURE-----\n\n-----END PGP SIGNATURE-----\n")),
		enc([]byte{0xcb, 6, 'b', 0, 0, 0, 0, 0}), // an OpenPGP literal packet
		enc([]byte("untrusted comment: \n\n")), base64.URLEncoding.EncodeToString(raw) + "=", strings.ToLower(good), "\n" + good + "\r\n", " " + good,
	}
}

// other is a pair that is not the legitimate one.
func (w *world) other() hx.Keys { return hx.MakeKeys("", w.e.Opt.Sig) }

func (w *world) sign(js string, id interface{}) string {
	s, err := signature.SignString(js, true, w.e.Opt.Sig, id)
	hx.Must(err, "sign")
	return s
}

// conf picks the formats; quick runs use some pairs of them.
func conf(from ...int) hx.Opt {
	if !thorough() {
		return []hx.Opt{
			{Sig: sigs[0], Enc: encs[0], Comp: comps[0]},
			{Sig: sigs[1], Enc: encs[1], Comp: comps[1]},
			{Sig: sigs[1], Enc: encs[2], Comp: comps[0]},
			{Sig: sigs[0], Enc: encs[1], Comp: comps[4]},
			{Sig: sigs[1], Enc: encs[2], Comp: comps[1]},
		}[from[sym.Choice("pipes", len(from))]]
	}
	n := len(comps)
	return hx.Opt{Sig: sigs[sym.Choice("signature", 2)], Enc: encs[sym.Choice("encryption", 3)], Comp: comps[sym.Choice("compression", n)]}
}

// HHeader: the embedded header or its signature are not what was written.
func HHeader() {
	w := build(conf(0, 1), false, nil)
	attack := sym.Choice("attack", 8)
	which := "record"
	if attack == 3 {
		which = "malformed"
	}
	if attack == 7 {
		which = "wrapper"
	}
	_, r := w.pick(which)
	p := r.hdr.PAXRecords
	name := ""
	switch attack {
	case 0:
		p[embedded] = edit(p[embedded], edits[sym.Choice("edit", len(edits))])
		name = "edited header, kept signature"
	case 1:
		n := 2
		if thorough() {
			n = len(edits)
		}
		js := edit(p[embedded], edits[sym.Choice("edit", n)])
		p[embedded], p[signedRec] = js, w.sign(js, w.other().SigID)
		name = "edited header, signed by another key"
	case 2:
		if sym.Fork(sym.Bool("edited")) {
			p[embedded] = edit(p[embedded], edits[0])
		}
		delete(p, signedRec)
		name = "removed signature"
	case 3:
		bad := notSignatures(p[signedRec])
		k := sym.Choice("bad", len(bad))
		s := bad[k]
		if (!thorough() && k%2 == 0) || (thorough() && sym.Fork(sym.Bool("edited"))) {
			p[embedded] = edit(p[embedded], edits[0])
		}
		p[signedRec] = s
		name = "malformed signature"
	case 4:
		_, o := w.pick("other")
		p[signedRec] = o.hdr.PAXRecords[signedRec]
		name = "swapped signature"
	case 5:
		h := tar.Header{}
		hx.Must(json.Unmarshal([]byte(p[embedded]), &h), "unmarshal")
		h.Format = tar.FormatPAX
		if sym.Fork(sym.Bool("edited")) {
			h.Name = "/evil"
		}
		if sym.Fork(sym.Bool("signature")) {
			pax(&h, signedRec, p[signedRec])
		}
		r.hdr = h
		name = "header which is not embedded"
	case 6:
		p[embedded] = []string{"", "{}", "null", `{"Name":"/evil"}`, " " + p[embedded], p[embedded] + p[embedded], "[]"}[sym.Choice("json", 7)]
		name = "other JSON"
	case 7:
		// a wrapper which looks like a header itself, and lacks parts of what makes it a wrapper
		h := &r.hdr
		h.Name, h.Mode, h.Uid, h.Uname = "/evil", 0o777, 99, "evil"
		h.Typeflag = []byte{tar.TypeReg, tar.TypeDir, tar.TypeSymlink}[sym.Choice("type", 3)]
		switch h.Typeflag {
		case tar.TypeDir:
			h.Name, r.body = "/evil/", nil
		case tar.TypeSymlink:
			h.Linkname, r.body = "/f", nil
		}
		switch sym.Choice("embedded", 3+sym.Tier()) {
		case 1:
			delete(p, embedded)
		case 2:
			p[embedded] = edit(p[embedded], edits[0])
		case 3:
			p[embedded] = ""
		}
		switch sym.Choice("signature", 3) {
		case 1:
			delete(p, signedRec)
		case 2:
			p[signedRec] = ""
		}
		if thorough() && sym.Fork(sym.Bool("action")) {
			p["STFS.Action"] = "DELETE"
		}
		name = "wrapper which is a header"
	}
	w.write(w.recs)
	w.check(true)
	sym.Reach(name)
}

// HBody: the content is not what was written, or the outer header says something else.
func HBody() {
	w := build(conf(0, 4), false, nil)
	i, r := w.pick("record")
	name := ""
	switch sym.Choice("attack", 8) {
	case 0:
		_, o := w.pick("other")
		r.body = o.body
		name = "content of another record"
	case 1:
		r.body = w.encrypted(append(w.decrypted(r.body), "more"...))
		name = "extended content"
	case 2:
		d := w.decrypted(r.body)
		r.body = w.encrypted(d[:len(d)/2])
		name = "cut content"
	case 3:
		r.body = nil
		name = "removed content"
	case 4:
		d := append([]byte{}, w.decrypted(r.body)...)
		if len(d) > 0 {
			// any byte to any other value
			at := 0
			if thorough() {
				at = sym.Choice("at", len(d))
			} else {
				at = []int{0, len(d) / 2, len(d) - 1}[sym.Choice("at", 3)]
			}
			v := sym.Byte("value", "")
			sym.Assume(v != d[at])
			d[at] = v
		} else {
			d = []byte{sym.Byte("value", "")}
		}
		r.body = w.encrypted(d)
		name = "altered byte"
	case 5:
		r.body = []byte("in clear")
		name = "unencrypted content"
	case 6:
		// the outer header is only a wrapper
		h := &r.hdr
		switch sym.Choice("outer", 6) {
		case 0:
			h.Typeflag = tar.TypeSymlink
			h.Linkname = "/evil"
			r.body = nil
		case 1:
			h.Typeflag = tar.TypeDir
			h.Name = "evil/"
			r.body = nil
		case 2:
			h.Name = "/evil"
		case 3:
			pax(h, "STFS.Action", "DELETE")
		case 4:
			pax(h, "STFS.UncompressedSize", "1")
		case 5:
			h.Mode, h.Uid = 0o777, 99
		}
		name = "outer header"
	case 7:
		// together with its header, so that only one of the two is original
		_, o := w.pick("other")
		r.hdr, r.body = o.hdr, w.recs[i].body
		name = "header of another record"
	}
	w.write(w.recs)
	w.check(true)
	sym.Reach(name)
}

// HSplice: records are added, repeated, removed and reordered.
func HSplice() {
	w := build(conf(1, 3), false, nil)
	n := len(w.recs)
	places := []int{0, n / 2, n, 1}
	if !thorough() {
		places = places[:3]
	}
	at := places[sym.Choice("at", len(places))]
	var more []rec
	name := ""
	plain := tar.Header{Typeflag: tar.TypeReg, Name: "/evil", Mode: 0o666, Size: 4, Format: tar.FormatPAX, ModTime: hx.T0}
	switch sym.Choice("attack", 7) {
	case 0:
		switch sym.Choice("plain", 4) {
		case 1:
			plain.Format = tar.FormatUSTAR
		case 2:
			pax(&plain, "STFS.Action", "UPDATE")
			pax(&plain, "STFS.ReplacesContent", "true")
			plain.Name = "/f"
		case 3:
			plain.Typeflag, plain.Size, plain.Name = tar.TypeDir, 0, "/evil/"
		}
		more = []rec{{hdr: plain, body: []byte("evil")[:plain.Size], raw: true}}
		name = "foreign record"
	case 1:
		more = []rec{{hdr: plain, body: w.encrypted([]byte("evil"))}}
		name = "unsigned record"
	case 2:
		o := w.other()
		h := plain
		if sym.Fork(sym.Bool("content")) {
			r, sign, err := signature.Sign(strings.NewReader("evil"), true, w.e.Opt.Sig, o.SigID)
			hx.Must(err, "sign")
			io.Copy(io.Discard, r)
			s, err := sign()
			hx.Must(err, "sign")
			pax(&h, signedRec, s)
		}
		hx.Must(signature.SignHeader(&h, true, w.e.Opt.Sig, o.SigID), "sign")
		more = []rec{{hdr: h, body: w.encrypted([]byte("evil"))}}
		name = "record by another key"
	case 3:
		_, r := w.pick("record")
		more = []rec{*r}
		name = "repeated record"
	case 4:
		i, _ := w.pick("record")
		w.recs = append(append([]rec{}, w.recs[:i]...), w.recs[i+1:]...)
		if at > len(w.recs) {
			at = len(w.recs)
		}
		name = "removed record"
	case 5:
		i, a := w.pick("record")
		j, b := w.pick("with")
		w.recs[i], w.recs[j] = *b, *a
		name = "swapped records"
	case 6:
		// the parts of two records
		_, a := w.pick("record")
		_, b := w.pick("with")
		x := *a
		x.hdr.PAXRecords = map[string]string{embedded: a.hdr.PAXRecords[embedded], signedRec: b.hdr.PAXRecords[signedRec]}
		x.body = b.body
		more = []rec{x}
		name = "record of parts"
	}
	recs := append(append(append([]rec{}, w.recs[:at]...), more...), w.recs[at:]...)
	w.write(recs)
	w.check(true)
	sym.Reach(name)
}

// HAppend: foreign records appear on the tape while an instance is running.
func HAppend() {
	w := build(conf(0, 1, 2, 3), false, nil)
	plain := tar.Header{Typeflag: tar.TypeReg, Name: []string{"/evil", "/f", "/mk"}[sym.Choice("name", 3)], Mode: 0o666, Uid: 4321, Size: 4, Format: tar.FormatPAX, ModTime: hx.T0}
	if sym.Fork(sym.Bool("update")) {
		pax(&plain, "STFS.Action", "UPDATE")
		pax(&plain, "STFS.ReplacesContent", "true")
	}
	h := plain
	if k := sym.Choice("signed", 3); k > 0 {
		id := w.other().SigID
		hx.Must(signature.SignHeader(&h, true, w.e.Opt.Sig, id), "sign")
		if k == 2 {
			h.PAXRecords[signedRec] = w.recs[0].hdr.PAXRecords[signedRec]
		}
	}
	r := rec{hdr: h, body: w.encrypted([]byte("evil")), raw: sym.Fork(sym.Bool("raw"))}
	if r.raw {
		r.body = []byte("evil")
		r.hdr.Size = 4
	}
	old, err := os.ReadFile(w.e.Drive)
	hx.Must(err, "read tape")
	w.write([]rec{r})
	b, err := os.ReadFile(w.e.Drive)
	hx.Must(err, "read tape")
	hx.Must(os.WriteFile(w.e.Drive, append(old, b...), 0o600), "write tape")
	// the running instance
	w.running(w.e)
	sym.Reach("appended")
}

// running uses an instance which was opened before the tape was altered.
func (w *world) running(x *hx.Env) {
	err := x.FS.Mkdir("/mk", 0o700)
	sym.Observe("mkdir", err == nil)
	x.FS.Chmod("/f", 0o640)
	x.Write("/n", []byte("mine"))
	w.any["mine"] = true
	w.grown = true
	for _, h := range x.Headers() {
		w.assert(hx.Abs(h.Name) != "/evil" && h.UID != 4321, "a running instance does not take over foreign records", h.Name)
	}
	w.contentsOf(x, "running")
	y, _ := w.open(true)
	sym.Assert(y.Index(true, false) != nil, "a rebuild rejects foreign records", "")
	for _, h := range y.Headers() {
		w.assert(hx.Abs(h.Name) != "/evil" && h.UID != 4321, "a rebuild does not take over foreign records", h.Name)
	}
}

// HContent: content which was signed is not a header.
func HContent() {
	h := tar.Header{Typeflag: tar.TypeDir, Name: "/evil", Mode: 0o777, Format: tar.FormatPAX}
	js := canon(&h)
	w := build(conf(0, 1, 2, 3), true, func(e *hx.Env) {
		hx.Must(e.Archive(false, false, hx.Item{Path: "/js", Data: []byte(js)}), "archive")
	})
	last := w.recs[len(w.recs)-1]
	var in tar.Header
	hx.Must(json.Unmarshal([]byte(last.hdr.PAXRecords[embedded]), &in), "unmarshal")
	forged := rec{hdr: tar.Header{Format: tar.FormatPAX, PAXRecords: map[string]string{embedded: js, signedRec: in.PAXRecords[signedRec]}}}
	w.known = true
	w.write(append(w.recs, forged))
	w.check(true)
	sym.Reach("content as header")
}

// HByte: one byte of the tape is altered, without anybody knowing the keys.
func HByte() {
	o := hx.Opt{Sig: sigs[sym.Choice("signature", 2)], Enc: encs[0], Comp: comps[0]}
	if thorough() {
		o.Enc = encs[sym.Choice("encryption", 3)]
	}
	w := build(o, true, nil)
	w.quiet = true // what a byte means depends on the signatures
	tapeBytes, err := os.ReadFile(w.e.Drive)
	hx.Must(err, "read tape")
	step := 24
	if thorough() {
		step = 1
	}
	at := step*sym.Choice("at", len(tapeBytes)/step) + step/2
	v := sym.Byte("value", "")
	sym.Assume(v != tapeBytes[at])
	tapeBytes[at] = v
	hx.Must(os.WriteFile(w.e.Drive, tapeBytes, 0o600), "write tape")
	w.check(true)
	sym.Reach("byte")
}
