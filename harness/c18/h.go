// Package c18: generated keys work, and only with the right password.
package c18

import (
	"bytes"
	"io"
	"strings"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/utility"
)

var (
	encs = []string{config.EncryptionFormatAgeKey, config.EncryptionFormatPGPKey}
	sigs = []string{config.SignatureFormatMinisignKey, config.SignatureFormatPGPKey}
)

// pair is a generated key pair in its serialised form.
type pair struct {
	sig       bool
	format    string
	priv, pub []byte
}

func keygen(sig bool, format, password string) pair {
	pipes := config.PipeConfig{Compression: config.NoneKey, Encryption: format, Signature: config.NoneKey}
	if sig {
		pipes.Encryption, pipes.Signature = config.NoneKey, format
	}
	priv, pub, err := utility.Keygen(pipes, config.PasswordConfig{Password: password})
	sym.Assert(err == nil, "key generation", hx.E(err))
	sym.Assert(len(priv) > 0 && len(pub) > 0, "keys are not empty", format)
	return pair{sig, format, priv, pub}
}

func (p pair) identity(password string) (interface{}, error) {
	if p.sig {
		return keys.ParseSignerIdentity(p.format, p.priv, password)
	}
	return keys.ParseIdentity(p.format, p.priv, password)
}

func (p pair) recipient() interface{} {
	var r interface{}
	var err error
	if p.sig {
		r, err = keys.ParseSignerRecipient(p.format, p.pub)
	} else {
		r, err = keys.ParseRecipient(p.format, p.pub)
	}
	sym.Assert(err == nil, "public half parses", hx.E(err))
	return r
}

func (p pair) open(password string) interface{} {
	i, err := p.identity(password)
	sym.Assert(err == nil, "private half parses with its password", hx.E(err))
	return i
}

// word is a password: a filler and up to four arbitrary bytes.
func word(label string, fills []int, max int) string {
	f := fills[sym.Choice(label+".fill", len(fills))]
	n := sym.Choice(label+".len", max+1)
	return strings.Repeat("x", f) + sym.Str(label, n, "")
}

// seal encrypts data both ways and returns what decrypts it.
func encrypted(format string, rec interface{}, data []byte, cut int) ([]byte, string) {
	var b bytes.Buffer
	w, err := encryption.Encrypt(&b, format, rec)
	sym.Assert(err == nil, "encrypt", hx.E(err))
	_, err = w.Write(data[:cut])
	sym.Assert(err == nil, "encrypt: write", hx.E(err))
	_, err = w.Write(data[cut:])
	sym.Assert(err == nil, "encrypt: write", hx.E(err))
	sym.Assert(w.Close() == nil, "encrypt: close", "")
	s, err := encryption.EncryptString(string(data), format, rec)
	sym.Assert(err == nil, "encrypt string", hx.E(err))
	return b.Bytes(), s
}

func decrypt(format string, id interface{}, c []byte) ([]byte, error) {
	r, err := encryption.Decrypt(bytes.NewReader(c), format, id)
	if err != nil {
		return nil, err
	}
	defer r.Close()
	return io.ReadAll(r)
}

// signed signs data both ways.
func signed(format string, id interface{}, data []byte) (string, string) {
	r, sign, err := signature.Sign(bytes.NewReader(data), true, format, id)
	sym.Assert(err == nil, "sign", hx.E(err))
	_, err = io.Copy(io.Discard, r)
	sym.Assert(err == nil, "sign: read", hx.E(err))
	a, err := sign()
	sym.Assert(err == nil, "signature", hx.E(err))
	b, err := signature.SignString(string(data), true, format, id)
	sym.Assert(err == nil, "sign string", hx.E(err))
	return a, b
}

func verify(format string, rec interface{}, data []byte, sig string) error {
	r, check, err := signature.Verify(bytes.NewReader(data), true, format, rec, sig)
	if err != nil {
		return err
	}
	got, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	sym.Assert(bytes.Equal(got, data), "verified data is unchanged", "")
	return check()
}

// works asserts that id and rec fit, and that the ones of another pair do not.
func works(p pair, id, rec, otherID, otherRec interface{}, data []byte, cut int) {
	if p.sig {
		a, b := signed(p.format, id, data)
		sym.Assert(verify(p.format, rec, data, a) == nil, "stream verifies", "")
		err := signature.VerifyString(string(data), true, p.format, rec, b)
		sym.Assert(err == nil, "string verifies", hx.E(err))
		if otherRec != nil {
			sym.Assert(verify(p.format, otherRec, data, a) != nil, "stream does not verify under another pair", "")
			sym.Assert(signature.VerifyString(string(data), true, p.format, otherRec, b) != nil, "string does not verify under another pair", "")
			a, b = signed(p.format, otherID, data)
			sym.Assert(verify(p.format, rec, data, a) != nil, "stream signed under another pair does not verify", "")
			sym.Assert(signature.VerifyString(string(data), true, p.format, rec, b) != nil, "string signed under another pair does not verify", "")
		}
		return
	}
	if cut < 0 { // only the stream
		var b bytes.Buffer
		w, err := encryption.Encrypt(&b, p.format, rec)
		sym.Assert(err == nil, "encrypt", hx.E(err))
		_, err = w.Write(data)
		sym.Assert(err == nil, "encrypt: write", hx.E(err))
		sym.Assert(w.Close() == nil, "encrypt: close", "")
		got, err := decrypt(p.format, id, b.Bytes())
		sym.Assert(err == nil, "stream decrypts", hx.E(err))
		sym.Assert(bytes.Equal(got, data), "decrypted stream", "")
		_, err = decrypt(p.format, otherID, b.Bytes())
		sym.Assert(err != nil, "stream does not decrypt under another pair", "")
		return
	}
	c, s := encrypted(p.format, rec, data, cut)
	got, err := decrypt(p.format, id, c)
	sym.Assert(err == nil, "stream decrypts", hx.E(err))
	sym.Assert(bytes.Equal(got, data), "decrypted stream", "")
	str, err := encryption.DecryptString(s, p.format, id)
	sym.Assert(err == nil, "string decrypts", hx.E(err))
	sym.Assert(str == string(data), "decrypted string", "")
	if otherID != nil {
		_, err = decrypt(p.format, otherID, c)
		sym.Assert(err != nil, "stream does not decrypt under another pair", "")
		_, err = encryption.DecryptString(s, p.format, otherID)
		sym.Assert(err != nil, "string does not decrypt under another pair", "")
		c, s = encrypted(p.format, otherRec, data, cut)
		_, err = decrypt(p.format, id, c)
		sym.Assert(err != nil, "stream encrypted under another pair does not decrypt", "")
		_, err = encryption.DecryptString(s, p.format, id)
		sym.Assert(err != nil, "string encrypted under another pair does not decrypt", "")
	}
}

func format() (bool, string) {
	k := sym.Choice("format", 4)
	if k < 2 {
		return false, encs[k]
	}
	return true, sigs[k-2]
}

// padding reports whether two passwords of up to 64 bytes differ only in NULs at the end.
func padding(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	return len(b) <= 64 && sym.Fork(a+strings.Repeat("\x00", len(b)-len(a)) == b)
}

// HPassword: a pair opens with its password, and with no other one.
func HPassword() {
	sig, f := format()
	fills, max := []int{0, 7, 62, 126}, 3
	if sym.Tier() > 0 {
		fills, max = []int{0, 5, 13, 29, 61, 69, 125, 253, 1021}, 4
	}
	pw := word("password", fills, max)
	p := keygen(sig, f, pw)
	other := word("other", fills, max)
	sym.Assume(other != pw)
	padded := f != config.EncryptionFormatPGPKey && padding(pw, other) && (sig || pw != "" && other != "")
	_, err := p.identity(other)
	sym.AssertKnown(err != nil, padded, "private half does not parse with another password", f, "C18-nul-padding")
	id := p.open(pw)
	works(p, id, p.recipient(), nil, nil, []byte("data"), 1)
	_, err = p.identity(other)
	sym.AssertKnown(err != nil, padded, "private half does not parse with another password afterwards", f, "C18-nul-padding")
	sym.Reach("password " + f)
}

// HData: data of every size works with its own pair, and not with another one.
func HData() {
	sig, f := format()
	pws := []string{"", "p", "pä\x00ß\xff", strings.Repeat("long ", 30)}
	a, b := pws[sym.Choice("a", len(pws))], pws[sym.Choice("b", len(pws))]
	p, o := keygen(sig, f, a), keygen(sig, f, b)
	sym.Assert(!bytes.Equal(p.priv, o.priv), "private halves differ", f)
	sym.Assert(!bytes.Equal(p.pub, o.pub), "public halves differ", f)
	var data []byte
	cut := 0
	if sym.Fork(sym.Bool("bytes")) {
		data = []byte(sym.Str("data", sym.Choice("n", 5), ""))
		if cut = sym.Choice("cut", len(data)+1); len(data) > 1 && !sig {
			cut = -1 // base64 of many symbolic bytes is out of reach
		}
	} else {
		data = sym.Fill([]int64{16, 17, 511, 512, 4096, 32768, 65535, 65536, 65537, 200000}[sym.Choice("size", 10)], 'z')
		cut = -1
	}
	works(p, p.open(a), p.recipient(), o.open(b), o.recipient(), data, cut)
	if a != b {
		_, err := p.identity(b)
		sym.Assert(err != nil, "does not open with the password of another pair", f)
	}
	sym.Reach("data " + f)
}

// HTwice: parsing is repeatable, and one process may hold many pairs.
func HTwice() {
	sig, f := format()
	n := 3
	var ps []pair
	var pws []string
	for i := 0; i < n; i++ {
		pws = append(pws, []string{"", "same", "\xe2\x82\xac"}[sym.Choice("password", 3)])
		ps = append(ps, keygen(sig, f, pws[i]))
	}
	for i := range ps {
		id, again := ps[i].open(pws[i]), ps[i].open(pws[i])
		o := (i + 1) % n
		works(ps[i], id, ps[i].recipient(), ps[o].open(pws[o]), ps[o].recipient(), []byte("one"), 0)
		works(ps[i], again, ps[i].recipient(), nil, nil, nil, 0)
	}
	sym.Reach("twice " + f)
}

// HEnv: the pairs work in a filesystem: written by one instance, read by another with freshly parsed keys.
func HEnv() {
	enc := append([]string{""}, encs...)[sym.Choice("encryption", 3)]
	sg := append([]string{""}, sigs...)[sym.Choice("signature", 3)]
	pw := []string{"", "ä €", "pass"}[sym.Choice("password", 3)]
	parse := func(e, s pair) *hx.Keys {
		k := &hx.Keys{}
		if enc != "" {
			k.EncID, k.EncRec = e.open(pw), e.recipient()
		}
		if sg != "" {
			k.SigID, k.SigRec = s.open(pw), s.recipient()
		}
		return k
	}
	gen := func() (e, s pair) {
		if enc != "" {
			e = keygen(false, enc, pw)
		}
		if sg != "" {
			s = keygen(true, sg, pw)
		}
		return e, s
	}
	e, s := gen()
	env := hx.NewFS(hx.Opt{Rec: 3, Enc: enc, Sig: sg, Keys: parse(e, s)})
	data := sym.Fill([]int64{0, 9, 700}[sym.Choice("size", 3)], 'd')
	hx.Must(env.Write("/f", data), "write")
	env.Opt.Keys = parse(e, s)
	r := env.Reopen(true)
	_, err := r.FS.Initialize("/", 0o777)
	sym.Assert(err == nil, "opens with freshly parsed keys", hx.E(err))
	got, err := r.ReadAll("/f")
	sym.Assert(err == nil && bytes.Equal(got, data), "reads with freshly parsed keys", hx.E(err))
	e2, s2 := gen()
	env.Opt.Keys = parse(e2, s2)
	r = env.Reopen(true)
	if enc+sg != "" {
		_, err = r.FS.Initialize("/", 0o777)
		if err == nil {
			_, err = r.ReadAll("/f")
		}
		sym.Assert(err != nil, "does not open with another pair", "")
	}
	sym.Reach("env " + enc + sg)
}
