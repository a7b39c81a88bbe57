// Package verifdemo demonstrates one change of behaviour against the compiled code.
package verifdemo

import (
	"archive/tar"
	"bytes"
	"context"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"testing"
	"time"

	golog "github.com/fclairamb/go-log"
	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	stfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/persisters"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/tape"
	"github.com/pojntfx/stfs/pkg/utility"
	"github.com/spf13/afero"
)

type nolog struct{}

func (nolog) Debug(string, ...interface{})       {}
func (nolog) Info(string, ...interface{})        {}
func (nolog) Warn(string, ...interface{})        {}
func (nolog) Error(string, ...interface{})       {}
func (nolog) Panic(string, ...interface{})       {}
func (nolog) Trace(string, ...interface{})       {}
func (l nolog) With(...interface{}) golog.Logger { return l }

type ids struct{ encID, encRec, sigID, sigRec interface{} }

func mkIDs(t testing.TB, enc, sig string) (k ids) {
	if enc != "" {
		priv, pub, err := utility.Keygen(config.PipeConfig{Encryption: enc}, config.PasswordConfig{})
		ok(t, err)
		k.encID, err = keys.ParseIdentity(enc, priv, "")
		ok(t, err)
		k.encRec, err = keys.ParseRecipient(enc, pub)
		ok(t, err)
	}
	if sig != "" {
		priv, pub, err := utility.Keygen(config.PipeConfig{Signature: sig}, config.PasswordConfig{})
		ok(t, err)
		k.sigID, err = keys.ParseSignerIdentity(sig, priv, "")
		ok(t, err)
		k.sigRec, err = keys.ParseSignerRecipient(sig, pub)
		ok(t, err)
	}
	return k
}

type opt struct {
	rec            int
	comp, enc, sig string
	cache          string
	ro             bool
	overwrite      bool
	ids            *ids
	back           func(config.BackendConfig) config.BackendConfig
	meta           func(config.MetadataPersister) config.MetadataPersister
}

type env struct {
	t         testing.TB
	o         opt
	dir       string
	drive, db string
	meta      *persisters.MetadataPersister
	metaCfg   config.MetadataConfig
	back      config.BackendConfig
	r, w      *operations.Operations
	fs        *stfs.STFS
}

func ok(t testing.TB, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func open(t testing.TB, o opt, dir, drive, db string) *env {
	if o.rec == 0 {
		o.rec = 20
	}
	if o.cache == "" {
		o.cache = config.WriteCacheTypeMemory
	}
	if o.ids == nil {
		k := mkIDs(t, o.enc, o.sig)
		o.ids = &k
	}
	e := &env{t: t, o: o, dir: dir, drive: drive, db: db}
	mt := mtio.MagneticTapeIO{}
	tm := tape.NewTapeManager(drive, mt, o.rec, o.overwrite)
	e.meta = persisters.NewMetadataPersister(db)
	ok(t, e.meta.Open())
	var mp config.MetadataPersister = e.meta
	if o.meta != nil {
		mp = o.meta(mp)
	}
	e.metaCfg = config.MetadataConfig{Metadata: mp}
	e.back = config.BackendConfig{GetWriter: tm.GetWriter, CloseWriter: tm.Close, GetReader: tm.GetReader, CloseReader: tm.Close, MagneticTapeIO: mt}
	if o.back != nil {
		e.back = o.back(e.back)
	}
	p := config.PipeConfig{Compression: o.comp, Encryption: o.enc, Signature: o.sig, RecordSize: o.rec}
	ev := func(*config.HeaderEvent) {}
	e.r = operations.NewOperations(e.back, e.metaCfg, p, config.CryptoConfig{Recipient: o.ids.sigRec, Identity: o.ids.encID}, ev)
	e.w = operations.NewOperations(e.back, e.metaCfg, p, config.CryptoConfig{Recipient: o.ids.encRec, Identity: o.ids.sigID}, ev)
	e.fs = stfs.NewSTFS(e.r, e.w, e.metaCfg, config.CompressionLevelFastestKey,
		func() (cache.WriteCache, func() error, error) { return cache.NewCacheWrite(dir, o.cache) },
		o.ro, true, func(*config.Header) {}, nolog{})
	return e
}

// newFS makes an initialised filesystem on an empty drive.
func newFS(t testing.TB, o opt) *env {
	e := newEnv(t, o)
	_, err := e.fs.Initialize("/", os.ModePerm)
	ok(t, err)
	return e
}

func newEnv(t testing.TB, o opt) *env {
	d := t.TempDir()
	return open(t, o, d, filepath.Join(d, "drive.tar"), filepath.Join(d, "meta.sqlite"))
}

// reopen opens the same drive, with the same or an empty index.
func (e *env) reopen(fresh bool) *env { return e.with(e.o, fresh) }

func (e *env) with(o opt, fresh bool) *env {
	db := e.db
	if fresh {
		db = filepath.Join(e.t.TempDir(), "meta.sqlite")
	}
	if o.ids == nil {
		o.ids = e.o.ids
	}
	return open(e.t, o, e.dir, e.drive, db)
}

func (e *env) index(overwrite bool) error {
	rd, err := e.back.GetReader()
	if err != nil {
		return err
	}
	defer e.back.CloseReader()
	return recovery.Index(rd, e.back.MagneticTapeIO, e.metaCfg, e.r.GetPipes(), e.r.GetCrypto(), 0, 0, overwrite, false, 0,
		func(h *tar.Header, i int) error { return encryption.DecryptHeader(h, e.o.enc, e.o.ids.encID) },
		func(h *tar.Header, reg bool) error { return signature.VerifyHeader(h, reg, e.o.sig, e.o.ids.sigRec) },
		func(*config.Header) {})
}

// rebuild indexes the drive into an empty index.
func (e *env) rebuild() (*env, error) {
	n := e.reopen(true)
	return n, n.index(true)
}

func (e *env) fetch(record, block int64) ([]byte, error) {
	rd, err := e.back.GetReader()
	if err != nil {
		return nil, err
	}
	defer e.back.CloseReader()
	s := &sink{}
	err = recovery.Fetch(rd, e.back.MagneticTapeIO, e.r.GetPipes(), e.r.GetCrypto(),
		func(string, fs.FileMode) (io.WriteCloser, error) { return s, nil },
		func(string, fs.FileMode) error { return nil }, int(record), int(block), "", false, nil)
	return s.Bytes(), err
}

type sink struct{ bytes.Buffer }

func (s *sink) Close() error { return nil }

func (e *env) write(name string, data []byte) {
	e.t.Helper()
	f, err := e.fs.Create(name)
	ok(e.t, err)
	_, err = f.Write(data)
	ok(e.t, err)
	ok(e.t, f.Close())
}

func read(f afero.Fs, name string) ([]byte, error) {
	h, err := f.Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return io.ReadAll(h)
}

func (e *env) header(name string) *config.Header {
	hs, err := e.meta.GetHeaders(context.Background())
	ok(e.t, err)
	for _, h := range hs {
		if path.Join("/", h.Name) == path.Join("/", name) {
			return h
		}
	}
	return nil
}

// tree describes everything which a user of the filesystem sees.
func tree(f afero.Fs, dir string) (out []string) {
	h, err := f.Open(dir)
	if err != nil {
		return []string{dir + " open: " + err.Error()}
	}
	defer h.Close()
	infos, err := h.Readdir(-1)
	if err != nil {
		return []string{dir + " readdir: " + err.Error()}
	}
	for _, i := range infos {
		p := path.Join(dir, i.Name())
		line := fmt.Sprintf("%v dir=%v size=%v mode=%v mtime=%v", p, i.IsDir(), i.Size(), i.Mode(), i.ModTime().UnixNano())
		if st, ok := i.Sys().(*stfs.Stat); ok {
			line += fmt.Sprintf(" uid=%v gid=%v", st.Uid, st.Gid)
		}
		if !i.IsDir() {
			data, err := read(f, p)
			line += fmt.Sprintf(" %x %v", data, err)
		}
		out = append(out, line)
		if i.IsDir() {
			out = append(out, tree(f, p)...)
		}
	}
	sort.Strings(out)
	return out
}

func same(t testing.TB, what string, a, b []string) {
	t.Helper()
	if fmt.Sprint(a) != fmt.Sprint(b) {
		t.Fatalf("%v:\n%q\n%q", what, a, b)
	}
}

type item struct {
	name string
	data []byte
	dir  bool
}

type fileInfo struct{ it item }

func (i fileInfo) Name() string { return path.Base(i.it.name) }
func (i fileInfo) Size() int64  { return int64(len(i.it.data)) }
func (i fileInfo) Mode() os.FileMode {
	if i.it.dir {
		return 0o755 | os.ModeDir
	}
	return 0o644
}
func (i fileInfo) ModTime() time.Time { return time.Unix(1600000000, 0) }
func (i fileInfo) IsDir() bool        { return i.it.dir }
func (i fileInfo) Sys() interface{}   { return nil }

type source struct{ *bytes.Reader }

func (source) Close() error { return nil }

func items(its ...item) func() (config.FileConfig, error) {
	i := 0
	return func() (config.FileConfig, error) {
		if i >= len(its) {
			return config.FileConfig{}, io.EOF
		}
		it := its[i]
		i++
		return config.FileConfig{
			GetFile: func() (io.ReadSeekCloser, error) { return source{bytes.NewReader(it.data)}, nil },
			Info:    fileInfo{it}, Path: it.name,
		}, nil
	}
}

func (e *env) archive(overwrite bool, its ...item) error {
	_, err := e.w.Archive(items(its...), config.CompressionLevelFastestKey, overwrite, false)
	return err
}

// within fails if f takes too long.
func within(t testing.TB, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatal(what + ": does not return")
	}
}
