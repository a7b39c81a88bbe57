// Package hx builds filesystems for the harnesses and provides the reference models.
package hx

import (
	"archive/tar"
	"bytes"
	"context"
	"io"
	"io/fs"
	"os"
	"path"
	"time"

	golog "github.com/fclairamb/go-log"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	stfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/persisters"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/tape"
	"github.com/pojntfx/stfs/pkg/utility"
	"github.com/spf13/afero"
)

// Log is a silent logger.
type Log struct{}

func (Log) Debug(string, ...interface{})       {}
func (Log) Info(string, ...interface{})        {}
func (Log) Warn(string, ...interface{})        {}
func (Log) Error(string, ...interface{})       {}
func (Log) Panic(string, ...interface{})       {}
func (Log) Trace(string, ...interface{})       {}
func (l Log) With(...interface{}) golog.Logger { return l }

// Keys holds one identity.
type Keys struct {
	EncID, EncRec, SigID, SigRec interface{}
}

// MakeKeys generates key pairs through the real key generator and parsers.
func MakeKeys(enc, sig string) Keys {
	k := Keys{}
	if enc != "" {
		priv, pub, err := utility.Keygen(config.PipeConfig{Encryption: enc}, config.PasswordConfig{})
		Must(err, "keygen")
		k.EncID, err = keys.ParseIdentity(enc, priv, "")
		Must(err, "identity")
		k.EncRec, err = keys.ParseRecipient(enc, pub)
		Must(err, "recipient")
	}
	if sig != "" {
		priv, pub, err := utility.Keygen(config.PipeConfig{Signature: sig}, config.PasswordConfig{})
		Must(err, "keygen")
		k.SigID, err = keys.ParseSignerIdentity(sig, priv, "")
		Must(err, "signer identity")
		k.SigRec, err = keys.ParseSignerRecipient(sig, pub)
		Must(err, "signer recipient")
	}
	return k
}

// Must aborts the harness when its own set-up fails.
func Must(err error, what string) {
	if err != nil {
		sym.Assert(false, "setup", what+": "+err.Error())
	}
}

// Opt selects a configuration.
type Opt struct {
	Rec        int
	Comp       string
	Level      string
	Enc        string
	Sig        string
	Cache      string
	ReadOnly   bool
	PermRead   bool
	NonRegular bool
	Keys       *Keys
	Wrap       func(config.BackendConfig) config.BackendConfig
	WrapMeta   func(config.MetadataPersister) config.MetadataPersister
	WrapCache  func(cache.WriteCache) cache.WriteCache
	NoWrite    bool
	Quiet      bool // record no events
}

func (o Opt) Pipes() config.PipeConfig {
	return config.PipeConfig{Compression: o.Comp, Encryption: o.Enc, Signature: o.Sig, RecordSize: o.Rec}
}

// Env is one instance over a drive file and an index file.
type Env struct {
	Opt     Opt
	K       Keys
	Dir     string
	Drive   string
	DB      string
	TM      *tape.TapeManager
	Meta    *persisters.MetadataPersister
	MetaCfg config.MetadataConfig
	Back    config.BackendConfig
	R, W    *operations.Operations
	FS      *stfs.STFS
	View    afero.Fs // what the user sees, if that is not FS itself
	Root    string
	Events  []*config.HeaderEvent
	Tape    *Tape // with NonRegular
	Links   bool  // walks do not follow symbolic links
}

// New makes an empty environment (not initialised).
func New(o Opt) *Env {
	d := sym.Dir()
	return Open(o, d, d+"/drive.tar", d+"/meta.sqlite")
}

// Open builds the stack over existing files.
func Open(o Opt, dir, drive, db string) *Env { return open(o, dir, drive, db, nil) }

func open(o Opt, dir, drive, db string, t *Tape) *Env {
	if o.Rec == 0 {
		o.Rec = 20
	}
	if o.Level == "" {
		o.Level = config.CompressionLevelFastestKey
	}
	if o.Cache == "" {
		o.Cache = config.WriteCacheTypeMemory
	}
	e := &Env{Opt: o, Dir: dir, Drive: drive, DB: db, Tape: t}
	if o.Keys != nil {
		e.K = *o.Keys
	} else {
		e.K = MakeKeys(o.Enc, o.Sig)
		k := e.K
		e.Opt.Keys = &k
	}
	e.build()
	return e
}

func (e *Env) build() {
	o := e.Opt
	mt := mtio.MagneticTapeIO{}
	e.TM = tape.NewTapeManager(e.Drive, mt, o.Rec, false)
	e.Meta = persisters.NewMetadataPersister(e.DB)
	Must(e.Meta.Open(), "open index")
	var mp config.MetadataPersister = e.Meta
	if o.WrapMeta != nil {
		mp = o.WrapMeta(mp)
	}
	e.MetaCfg = config.MetadataConfig{Metadata: mp}
	e.Back = config.BackendConfig{
		GetWriter: e.TM.GetWriter, CloseWriter: e.TM.Close,
		GetReader: e.TM.GetReader, CloseReader: e.TM.Close,
		MagneticTapeIO: mt,
	}
	if o.NonRegular {
		if e.Tape == nil {
			e.Tape = NewTape(o.Rec)
		}
		t := e.Tape
		e.Back = config.BackendConfig{
			GetWriter: t.GetWriter, CloseWriter: t.Close,
			GetReader: t.GetReader, CloseReader: t.Close,
			MagneticTapeIO: t,
		}
	}
	if o.Wrap != nil {
		e.Back = o.Wrap(e.Back)
	}
	e.ops()
}

func (e *Env) ops() {
	o := e.Opt
	ev := func(h *config.HeaderEvent) {
		if !o.Quiet {
			e.Events = append(e.Events, h)
		}
	}
	e.R = operations.NewOperations(e.Back, e.MetaCfg, o.Pipes(), config.CryptoConfig{Recipient: e.K.SigRec, Identity: e.K.EncID}, ev)
	if !o.NoWrite {
		e.W = operations.NewOperations(e.Back, e.MetaCfg, o.Pipes(), config.CryptoConfig{Recipient: e.K.EncRec, Identity: e.K.SigID}, ev)
	}
	dir := e.Dir
	typ := o.Cache
	e.FS = stfs.NewSTFS(e.R, e.W, e.MetaCfg, o.Level,
		func() (cache.WriteCache, func() error, error) {
			c, done, err := cache.NewCacheWrite(dir, typ)
			if err == nil && o.WrapCache != nil {
				c = o.WrapCache(c)
			}
			return c, done, err
		},
		o.ReadOnly, o.PermRead, func(h *config.Header) {}, Log{})
}

// SetOverwrite gives the instance a drive manager that truncates on its first writer.
func (e *Env) SetOverwrite() {
	e.TM = tape.NewTapeManager(e.Drive, mtio.MagneticTapeIO{}, e.Opt.Rec, true)
	b := e.Back
	b.GetWriter, b.CloseWriter, b.GetReader, b.CloseReader = e.TM.GetWriter, e.TM.Close, e.TM.GetReader, e.TM.Close
	e.Back = b
	e.ops()
}

// Init initialises the filesystem and asserts success.
func (e *Env) Init() *Env {
	r, err := e.FS.Initialize("/", os.ModePerm)
	Must(err, "initialize")
	e.Root = r
	return e
}

// NewFS is New + Init.
func NewFS(o Opt) *Env { return New(o).Init() }

// Reopen builds a second instance over the same drive; fresh selects an empty index.
func (e *Env) Reopen(fresh bool) *Env {
	db := e.DB
	if fresh {
		db = sym.Dir() + "/meta.sqlite"
	}
	return open(e.Opt, e.Dir, e.Drive, db, e.Tape)
}

// OpenCfg is Reopen(true) with other options.
func (e *Env) With(o Opt, fresh bool) *Env {
	db := e.DB
	if fresh {
		db = sym.Dir() + "/meta.sqlite"
	}
	if o.Keys == nil {
		o.Keys = e.Opt.Keys
	}
	return open(o, e.Dir, e.Drive, db, e.Tape)
}

// Index replays the tape into the instance's index.
func (e *Env) Index(overwrite, initializing bool) error {
	rd, err := e.Back.GetReader()
	if err != nil {
		return err
	}
	defer e.Back.CloseReader()
	return recovery.Index(rd, e.Back.MagneticTapeIO, e.MetaCfg, e.Opt.Pipes(), e.R.GetCrypto(), 0, 0, overwrite, initializing, 0,
		func(h *tar.Header, i int) error { return encryption.DecryptHeader(h, e.Opt.Enc, e.K.EncID) },
		func(h *tar.Header, reg bool) error { return signature.VerifyHeader(h, reg, e.Opt.Sig, e.K.SigRec) },
		func(h *config.Header) {})
}

// Rebuild makes a second instance with an index rebuilt from the tape alone.
func (e *Env) Rebuild() (*Env, error) {
	n := e.Reopen(true)
	err := n.Index(true, false)
	return n, err
}

// Headers lists the live rows.
func (e *Env) Headers() []*config.Header {
	h, err := e.Meta.GetHeaders(context.Background())
	Must(err, "get headers")
	return h
}

// Header finds the live row.
func (e *Env) Header(name string) *config.Header {
	for _, h := range e.Headers() {
		if sym.Fork(h.Name == name) {
			return h
		}
	}
	return nil
}

// ---- sources ----

type info struct {
	name string
	size int64
	mode os.FileMode
	mod  time.Time
	sys  interface{}
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() os.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return i.mod }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() interface{}   { return i.sys }

type src struct {
	*bytes.Reader
}

func (src) Close() error { return nil }

// T0 is the modification time used for generated members.
var T0 = time.Unix(1600000000, 0)

// Item is one member for the archive interface.
type Item struct {
	Path string
	Link string
	Dir  bool
	Data []byte
	Mode os.FileMode
	Get  func() (io.ReadSeekCloser, error)
	Sym  bool
	Sys  interface{} // e.g. a *tar.Header with owners
	Mod  time.Time
	Zero bool // no permission bits
}

func (it Item) Config() config.FileConfig {
	m := it.Mode
	if m == 0 && !it.Zero {
		m = 0o644
	}
	if it.Dir {
		m |= os.ModeDir
	}
	if it.Sym {
		m |= os.ModeSymlink
	}
	get := it.Get
	if get == nil {
		data := it.Data
		get = func() (io.ReadSeekCloser, error) { return src{bytes.NewReader(data)}, nil }
	}
	mod := it.Mod
	if mod.IsZero() {
		mod = T0
	}
	return config.FileConfig{GetFile: get, Info: info{it.Path, int64(len(it.Data)), m, mod, it.Sys}, Path: it.Path, Link: it.Link}
}

// Items iterates over members.
func Items(its ...Item) func() (config.FileConfig, error) {
	i := 0
	return func() (config.FileConfig, error) {
		if i >= len(its) {
			return config.FileConfig{}, io.EOF
		}
		i++
		return its[i-1].Config(), nil
	}
}

// Archive appends members.
func (e *Env) Archive(overwrite, initializing bool, its ...Item) error {
	_, err := e.W.Archive(Items(its...), e.Opt.Level, overwrite, initializing)
	return err
}

// Update replaces content (or only metadata).
func (e *Env) Update(replace bool, it Item) error {
	_, err := e.W.Update(Items(it), e.Opt.Level, replace, false)
	return err
}

// ---- sinks ----

type Sink struct {
	Buf    bytes.Buffer
	Closed bool
	Path   string
	Mode   os.FileMode
	N      int
}

func (s *Sink) Write(p []byte) (int, error)         { s.N++; return s.Buf.Write(p) }
func (s *Sink) ReadFrom(r io.Reader) (int64, error) { s.N++; return s.Buf.ReadFrom(r) }
func (s *Sink) Close() error                        { s.Closed = true; return nil }

// FetchAt restores what lies at a tape position.
func (e *Env) FetchAt(record, block int64) (*Sink, bool, error) {
	rd, err := e.Back.GetReader()
	if err != nil {
		return nil, false, err
	}
	defer e.Back.CloseReader()
	s := &Sink{}
	dir := false
	err = recovery.Fetch(rd, e.Back.MagneticTapeIO, e.Opt.Pipes(), e.R.GetCrypto(),
		func(p string, m fs.FileMode) (io.WriteCloser, error) { s.Path, s.Mode = p, m; return s, nil },
		func(p string, m fs.FileMode) error { dir = true; s.Path, s.Mode = p, m; return nil },
		int(record), int(block), "", false, nil)
	return s, dir, err
}

// RestoreOne restores one regular entry through the archive interface.
func (e *Env) RestoreOne(name string) (*Sink, error) {
	s := &Sink{}
	err := e.R.Restore(
		func(p string, m fs.FileMode) (io.WriteCloser, error) { s.Path, s.Mode = p, m; return s, nil },
		func(p string, m fs.FileMode) error { return nil },
		name, "", true)
	return s, err
}

// Mount initialises the filesystem and composes it the documented way.
func (e *Env) Mount(cacheType string) (err error) {
	if e.Root, err = e.FS.Initialize("/", os.ModePerm); err != nil {
		return err
	}
	e.View, err = cache.NewCacheFilesystem(e.FS, e.Root, cacheType, 0, "")
	return err
}

// V is the filesystem that the user sees.
func (e *Env) V() afero.Fs {
	if e.View != nil {
		return e.View
	}
	return e.FS
}

// ReadAll opens and reads a file through the filesystem.
func (e *Env) ReadAll(name string) ([]byte, error) {
	f, err := e.V().Open(name)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(f)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return b, err
}

// Write creates or replaces a file through the filesystem.
func (e *Env) Write(name string, data []byte) error {
	f, err := e.V().Create(name)
	if err != nil {
		return err
	}
	if len(data) > 0 {
		if _, err := f.Write(data); err != nil {
			f.Close()
			return err
		}
	}
	return f.Close()
}

// Abs spells a stored name from the root (a rebuilt index may store the root as "").
func Abs(name string) string { return path.Join("/", name) }

// E renders an error (or nothing) for messages.
func E(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

// Inner is content which looks like an archive, cut off after n bytes.
func Inner(n int) []byte {
	b := &bytes.Buffer{}
	tw := tar.NewWriter(b)
	for _, x := range []string{"/evil", "/evil2", "/f"} {
		Must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: x, Size: 5, Mode: 0o644, ModTime: T0}), "inner header")
		_, err := tw.Write([]byte("evil!"))
		Must(err, "inner content")
	}
	Must(tw.Close(), "inner")
	return b.Bytes()[:n]
}

// InnerSizes are lengths of contents which end in or behind a header.
var InnerSizes = []int{500, 512, 511, 517, 1024, 1524, 1536, 2048, 4096}
