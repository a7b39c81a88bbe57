// Package c10: every call returns and leaves the drive free, even when something fails.
package c10

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"os"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/tape"
)

var errFault = errors.New("injected fault")

// faults fails the k-th operation on the drive, the index or the data.
type faults struct {
	on      bool
	k, n    int
	partial bool // a failing write writes a part, a failing read returns data
	fired   string
}

const maxFaults = 400

func (f *faults) hit(kind string) error {
	if f == nil || !f.on {
		return nil
	}
	f.n++
	if f.n >= maxFaults {
		sym.Assert(false, "bound on the operations of one call", kind)
	}
	if f.fired == "" && f.k == f.n {
		f.fired = kind
		return errFault
	}
	return nil
}

func newFaults() *faults { return &faults{k: int(sym.Int("k", 1, maxFaults))} }

// ---- drive ----

type reader struct {
	config.ReadSeekFder
	f *faults
}

func (r reader) Read(p []byte) (int, error) {
	if err := r.f.hit("drive read"); err != nil {
		if r.f.partial && len(p) > 1 {
			n, _ := r.ReadSeekFder.Read(p[:len(p)/2])
			return n, err
		}
		return 0, err
	}
	return r.ReadSeekFder.Read(p)
}

func (r reader) Seek(o int64, w int) (int64, error) {
	if err := r.f.hit("drive seek"); err != nil {
		return 0, err
	}
	return r.ReadSeekFder.Seek(o, w)
}

type writer struct {
	io.Writer
	f *faults
}

func (w writer) Write(p []byte) (int, error) {
	if err := w.f.hit("drive write"); err != nil {
		if w.f.partial && len(p) > 1 {
			n, _ := w.Writer.Write(p[:len(p)/2])
			return n, err
		}
		return 0, err
	}
	return w.Writer.Write(p)
}

type seekWriter struct{ writer }

func (w seekWriter) Seek(o int64, wh int) (int64, error) {
	if err := w.f.hit("drive seek"); err != nil {
		return 0, err
	}
	return w.Writer.(io.Seeker).Seek(o, wh)
}

type mt struct {
	config.MagneticTapeIO
	f *faults
}

func (m mt) GetCurrentRecordFromTape(fd uintptr) (int64, error) {
	if err := m.f.hit("tape position"); err != nil {
		return 0, err
	}
	return m.MagneticTapeIO.GetCurrentRecordFromTape(fd)
}

func (m mt) GoToEndOfTape(fd uintptr) error {
	if err := m.f.hit("tape end"); err != nil {
		return err
	}
	return m.MagneticTapeIO.GoToEndOfTape(fd)
}

func (m mt) GoToNextFileOnTape(fd uintptr) error {
	if err := m.f.hit("tape next file"); err != nil {
		return err
	}
	return m.MagneticTapeIO.GoToNextFileOnTape(fd)
}

func (m mt) SeekToRecordOnTape(fd uintptr, r int32) error {
	if err := m.f.hit("tape seek"); err != nil {
		return err
	}
	return m.MagneticTapeIO.SeekToRecordOnTape(fd, r)
}

func (f *faults) drive(b config.BackendConfig) config.BackendConfig {
	o := b
	o.GetReader = func() (config.DriveReaderConfig, error) {
		if err := f.hit("open for reading"); err != nil {
			return config.DriveReaderConfig{}, err
		}
		c, err := b.GetReader()
		if err == nil {
			c.Drive = reader{c.Drive, f}
		}
		return c, err
	}
	o.GetWriter = func() (config.DriveWriterConfig, error) {
		if err := f.hit("open for writing"); err != nil {
			return config.DriveWriterConfig{}, err
		}
		c, err := b.GetWriter()
		if err == nil {
			w := writer{c.Drive, f}
			c.Drive = w
			if _, ok := w.Writer.(io.Seeker); ok {
				c.Drive = seekWriter{w}
			}
		}
		return c, err
	}
	o.CloseReader = func() error {
		err := b.CloseReader()
		if e := f.hit("close reader"); e != nil {
			return e
		}
		return err
	}
	o.CloseWriter = func() error {
		err := b.CloseWriter()
		if e := f.hit("close writer"); e != nil {
			return e
		}
		return err
	}
	o.MagneticTapeIO = mt{b.MagneticTapeIO, f}
	return o
}

// ---- index ----

type index struct {
	config.MetadataPersister
	f *faults
}

func (m index) UpsertHeader(ctx context.Context, h *config.Header, i bool) error {
	if err := m.f.hit("index upsert"); err != nil {
		return err
	}
	return m.MetadataPersister.UpsertHeader(ctx, h, i)
}

func (m index) UpdateHeaderMetadata(ctx context.Context, h *config.Header) error {
	if err := m.f.hit("index update"); err != nil {
		return err
	}
	return m.MetadataPersister.UpdateHeaderMetadata(ctx, h)
}

func (m index) MoveHeader(ctx context.Context, a, b string, r, bl int64) error {
	if err := m.f.hit("index move"); err != nil {
		return err
	}
	return m.MetadataPersister.MoveHeader(ctx, a, b, r, bl)
}

func (m index) GetHeaders(ctx context.Context) ([]*config.Header, error) {
	if err := m.f.hit("index list"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.GetHeaders(ctx)
}

func (m index) GetHeader(ctx context.Context, n string) (*config.Header, error) {
	if err := m.f.hit("index get"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.GetHeader(ctx, n)
}

func (m index) GetHeaderByLinkname(ctx context.Context, n string) (*config.Header, error) {
	if err := m.f.hit("index get link"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.GetHeaderByLinkname(ctx, n)
}

func (m index) GetHeaderChildren(ctx context.Context, n string) ([]*config.Header, error) {
	if err := m.f.hit("index children"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.GetHeaderChildren(ctx, n)
}

func (m index) GetRootPath(ctx context.Context) (string, error) {
	if err := m.f.hit("index root"); err != nil {
		return "", err
	}
	return m.MetadataPersister.GetRootPath(ctx)
}

func (m index) GetHeaderDirectChildren(ctx context.Context, n string, l int) ([]*config.Header, error) {
	if err := m.f.hit("index direct children"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.GetHeaderDirectChildren(ctx, n, l)
}

func (m index) DeleteHeader(ctx context.Context, n string, r, b int64) (*config.Header, error) {
	if err := m.f.hit("index delete"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.DeleteHeader(ctx, n, r, b)
}

func (m index) GetLastIndexedRecordAndBlock(ctx context.Context, rs int) (int64, int64, error) {
	if err := m.f.hit("index position"); err != nil {
		return 0, 0, err
	}
	return m.MetadataPersister.GetLastIndexedRecordAndBlock(ctx, rs)
}

func (m index) PurgeAllHeaders(ctx context.Context) error {
	if err := m.f.hit("index purge"); err != nil {
		return err
	}
	return m.MetadataPersister.PurgeAllHeaders(ctx)
}

// ---- data ----

type data struct {
	io.ReadSeekCloser
	f *faults
}

func (d data) Read(p []byte) (int, error) {
	if err := d.f.hit("data read"); err != nil {
		if d.f.partial && len(p) > 1 {
			n, _ := d.ReadSeekCloser.Read(p[:len(p)/2])
			return n, err
		}
		return 0, err
	}
	return d.ReadSeekCloser.Read(p)
}

func (d data) Seek(o int64, w int) (int64, error) {
	if err := d.f.hit("data seek"); err != nil {
		return 0, err
	}
	return d.ReadSeekCloser.Seek(o, w)
}

func (d data) Close() error {
	err := d.ReadSeekCloser.Close()
	if e := d.f.hit("data close"); e != nil {
		return e
	}
	return err
}

// source iterates over items and may fail anywhere.
func (f *faults) source(its ...hx.Item) func() (config.FileConfig, error) {
	next := hx.Items(its...)
	return func() (config.FileConfig, error) {
		if err := f.hit("next source"); err != nil {
			return config.FileConfig{}, err
		}
		c, err := next()
		get := c.GetFile
		c.GetFile = func() (io.ReadSeekCloser, error) {
			if err := f.hit("open source"); err != nil {
				return nil, err
			}
			r, err := get()
			return data{r, f}, err
		}
		return c, err
	}
}

type sink struct {
	hx.Sink
	f *faults
}

func (s *sink) Write(p []byte) (int, error) {
	if err := s.f.hit("destination write"); err != nil {
		return 0, err
	}
	return s.Buf.Write(p)
}

func (s *sink) Close() error { return s.f.hit("destination close") }

// buffer is a write cache that may fail.
type buffer struct {
	cache.WriteCache
	f *faults
}

func (b buffer) Read(p []byte) (int, error) {
	if err := b.f.hit("cache read"); err != nil {
		return 0, err
	}
	return b.WriteCache.Read(p)
}

func (b buffer) Write(p []byte) (int, error) {
	if err := b.f.hit("cache write"); err != nil {
		return 0, err
	}
	return b.WriteCache.Write(p)
}

func (b buffer) Seek(o int64, w int) (int64, error) {
	if err := b.f.hit("cache seek"); err != nil {
		return 0, err
	}
	return b.WriteCache.Seek(o, w)
}

func (b buffer) Truncate(n int64) error {
	if err := b.f.hit("cache truncate"); err != nil {
		return err
	}
	return b.WriteCache.Truncate(n)
}

func (b buffer) Size() (int64, error) {
	if err := b.f.hit("cache size"); err != nil {
		return 0, err
	}
	return b.WriteCache.Size()
}

func (b buffer) Sync() error {
	if err := b.f.hit("cache sync"); err != nil {
		return err
	}
	return b.WriteCache.Sync()
}

func (b buffer) Close() error {
	err := b.WriteCache.Close()
	if e := b.f.hit("cache close"); e != nil {
		return e
	}
	return err
}

// ---- calls ----

// build makes a filesystem of a few entries whose drive, index and data can fail.
func build(o hx.Opt, f *faults, caches bool) *hx.Env {
	o.Wrap = f.drive
	o.WrapMeta = func(m config.MetadataPersister) config.MetadataPersister { return index{m, f} }
	if caches {
		o.WrapCache = func(c cache.WriteCache) cache.WriteCache { return buffer{c, f} }
	}
	e := hx.NewFS(o)
	hx.Must(e.Archive(false, false, hx.Item{Path: "/d", Dir: true, Mode: 0o755}, hx.Item{Path: "/d/f", Data: sym.Fill(700, 'f')}, hx.Item{Path: "/d/g", Data: sym.Fill(3, 'g')},
		hx.Item{Path: "/d/s", Dir: true, Mode: 0o755}, hx.Item{Path: "/h", Data: sym.Fill(5, 'h')}), "populate")
	return e
}

type call struct {
	name string
	do   func(e *hx.Env, f *faults) error
}

func handle(flags int, use func(f interface {
	io.ReadWriteSeeker
	Truncate(int64) error
	Sync() error
	Close() error
}) error) func(e *hx.Env, f *faults) error {
	return func(e *hx.Env, _ *faults) error {
		h, err := e.FS.OpenFile("/d/f", flags, 0o600)
		if err != nil {
			return err
		}
		err = use(h)
		if cerr := h.Close(); err == nil {
			err = cerr
		}
		return err
	}
}

type rw = interface {
	io.ReadWriteSeeker
	Truncate(int64) error
	Sync() error
	Close() error
}

func dst(f *faults) (func(string, fs.FileMode) (io.WriteCloser, error), func(string, fs.FileMode) error) {
	return func(string, fs.FileMode) (io.WriteCloser, error) {
			if err := f.hit("destination open"); err != nil {
				return nil, err
			}
			return &sink{f: f}, nil
		}, func(string, fs.FileMode) error {
			return f.hit("destination directory")
		}
}

var calls = []call{
	{"mkdir", func(e *hx.Env, f *faults) error { return e.FS.Mkdir("/n", 0o700) }},
	{"mkdirall", func(e *hx.Env, f *faults) error { return e.FS.MkdirAll("/n/m", 0o700) }},
	{"create", func(e *hx.Env, f *faults) error { return e.Write("/n", []byte("new")) }},
	{"replace", func(e *hx.Env, f *faults) error { return e.Write("/d/f", []byte("new")) }},
	{"remove", func(e *hx.Env, f *faults) error { return e.FS.Remove("/d/f") }},
	{"remove missing", func(e *hx.Env, f *faults) error { return e.FS.Remove("/nope") }},
	{"removeall", func(e *hx.Env, f *faults) error { return e.FS.RemoveAll("/d") }},
	{"removeall missing", func(e *hx.Env, f *faults) error { return e.FS.RemoveAll("/nope") }},
	{"rename", func(e *hx.Env, f *faults) error { return e.FS.Rename("/d", "/n") }},
	{"rename onto", func(e *hx.Env, f *faults) error { return e.FS.Rename("/h", "/d/f") }},
	{"rename missing", func(e *hx.Env, f *faults) error { return e.FS.Rename("/nope", "/n") }},
	{"chmod", func(e *hx.Env, f *faults) error { return e.FS.Chmod("/d/f", 0o600) }},
	{"chown", func(e *hx.Env, f *faults) error { return e.FS.Chown("/d", 1, 2) }},
	{"chtimes", func(e *hx.Env, f *faults) error { return e.FS.Chtimes("/h", hx.T0, hx.T0) }},
	{"symlink", func(e *hx.Env, f *faults) error { return e.FS.SymlinkIfPossible("/h", "/l") }},
	{"stat", func(e *hx.Env, f *faults) error { _, err := e.FS.Stat("/d/f"); return err }},
	{"read", func(e *hx.Env, f *faults) error { _, err := e.ReadAll("/d/f"); return err }},
	{"list", func(e *hx.Env, f *faults) error {
		d, err := e.FS.Open("/d")
		if err != nil {
			return err
		}
		_, err = d.Readdir(-1)
		d.Close()
		return err
	}},
	{"read some", handle(os.O_RDONLY, func(h rw) error {
		_, err := h.Read(make([]byte, 3))
		if err == nil {
			_, err = h.Seek(100, io.SeekCurrent)
		}
		return err
	})},
	{"append", handle(os.O_RDWR|os.O_APPEND, func(h rw) error {
		_, err := h.Write([]byte("abc"))
		if err == nil {
			err = h.Sync()
		}
		if err == nil {
			_, err = h.Write([]byte("def"))
		}
		return err
	})},
	{"truncate", handle(os.O_RDWR, func(h rw) error {
		err := h.Truncate(5)
		if err == nil {
			_, err = h.Seek(0, io.SeekEnd)
		}
		return err
	})},
	{"initialize", func(e *hx.Env, f *faults) error { _, err := e.FS.Initialize("/", os.ModePerm); return err }},
	{"archive", func(e *hx.Env, f *faults) error {
		_, err := e.W.Archive(f.source(hx.Item{Path: "/x", Data: sym.Fill(600, 'x')}, hx.Item{Path: "/y", Dir: true}, hx.Item{Path: "/z"}), e.Opt.Level, false, false)
		return err
	}},
	{"archive overwriting", func(e *hx.Env, f *faults) error {
		_, err := e.W.Archive(f.source(hx.Item{Path: "/", Dir: true}, hx.Item{Path: "/x", Data: sym.Fill(600, 'x')}), e.Opt.Level, true, true)
		return err
	}},
	{"update", func(e *hx.Env, f *faults) error {
		_, err := e.W.Update(f.source(hx.Item{Path: "/d/f", Data: sym.Fill(600, 'x')}, hx.Item{Path: "/d", Dir: true}), e.Opt.Level, true, false)
		return err
	}},
	{"update metadata", func(e *hx.Env, f *faults) error {
		_, err := e.W.Update(f.source(hx.Item{Path: "/d/f", Data: sym.Fill(600, 'x')}, hx.Item{Path: "/d", Dir: true}), e.Opt.Level, false, false)
		return err
	}},
	{"delete", func(e *hx.Env, f *faults) error { return e.W.Delete("/d") }},
	{"delete missing", func(e *hx.Env, f *faults) error { return e.W.Delete("/nope") }},
	{"move", func(e *hx.Env, f *faults) error { return e.W.Move("/d", "/n") }},
	{"move missing", func(e *hx.Env, f *faults) error { return e.W.Move("/nope", "/n") }},
	{"restore", func(e *hx.Env, f *faults) error {
		d, m := dst(f)
		return e.R.Restore(d, m, "/d", "", false)
	}},
	{"restore missing", func(e *hx.Env, f *faults) error {
		d, m := dst(f)
		return e.R.Restore(d, m, "/nope", "", false)
	}},
	{"rebuild", func(e *hx.Env, f *faults) error { return e.Index(true, false) }},
}

// probe asserts that the drive is free and that further calls return.
func probe(e *hx.Env) {
	_, err := e.Back.GetWriter()
	sym.Assert(err == nil, "drive opens for writing", hx.E(err))
	sym.Assert(e.Back.CloseWriter() == nil, "drive closes", "")
	_, err = e.Back.GetReader()
	sym.Assert(err == nil, "drive opens for reading", hx.E(err))
	sym.Assert(e.Back.CloseReader() == nil, "drive closes", "")
	e.Write("/probe", []byte("probe"))
	e.ReadAll("/d/g")
	e.FS.Rename("/h", "/h2")
	e.FS.RemoveAll("/d")
	e.RestoreOne("/probe")
	e.W.Delete("/nope")
	_, err = e.Back.GetWriter()
	sym.Assert(err == nil, "drive opens for writing afterwards", hx.E(err))
	sym.Assert(e.Back.CloseWriter() == nil, "drive closes afterwards", "")
	sym.Settle()
}

// run performs a call with a fault at a symbolic point.
func run(o hx.Opt, l []call, caches bool) {
	sym.HangIsBug()
	f := newFaults()
	f.partial = (sym.Tier() > 0 || o.Comp+o.Enc+o.Sig == "") && sym.Fork(sym.Bool("partial"))
	c := l[sym.Choice("call", len(l))]
	e := build(o, f, caches)
	if c.name == "initialize" {
		// over a tape, with and without an index
		e = e.Reopen(sym.Fork(sym.Bool("fresh")))
	}
	f.on = true
	err := c.do(e, f)
	f.on = false
	if f.fired == "" {
		sym.Assume(f.k == maxFaults) // one path for all faults that are not reached
	} else {
		sym.Observe("fired "+f.fired, err != nil)
	}
	if sym.Tier() > 0 {
		calls[sym.Choice("next", len(calls))].do(e, f)
	}
	probe(e)
	sym.Reach(c.name)
}

// HFault: every fault point of every call.
func HFault() { run(hx.Opt{Rec: 3}, calls, false) }

// HCache: also the write cache fails.
func HCache() {
	l := []call{}
	for _, c := range calls {
		switch c.name {
		case "create", "replace", "read", "read some", "append", "truncate":
			l = append(l, c)
		}
	}
	run(hx.Opt{Rec: 3, Cache: []string{config.WriteCacheTypeMemory, config.WriteCacheTypeFile}[sym.Choice("cache", 2)]}, l, true)
}

// HTape: a tape drive fails.
func HTape() { run(hx.Opt{Rec: 3, NonRegular: true}, calls, false) }

// HConf: pipelines.
func HConf() {
	confs := []hx.Opt{
		{Comp: config.CompressionFormatGZipKey, Sig: config.SignatureFormatMinisignKey},
		{Comp: config.CompressionFormatZStandardKey, Enc: config.EncryptionFormatAgeKey},
		{Enc: config.EncryptionFormatPGPKey, Sig: config.SignatureFormatPGPKey},
	}
	l := []call{}
	for _, c := range calls {
		switch c.name {
		case "create", "read", "archive", "update", "restore", "rebuild", "rename", "removeall":
			l = append(l, c)
		}
	}
	run(confs[sym.Choice("conf", len(confs))], l, false)
}

// HReject: calls that are rejected because of the configuration or their arguments.
func HReject() {
	sym.HangIsBug()
	e := hx.NewFS(hx.Opt{Rec: 3})
	hx.Must(e.Archive(false, false, hx.Item{Path: "/d", Dir: true, Mode: 0o755}, hx.Item{Path: "/d/f", Data: sym.Fill(700, 'f')}, hx.Item{Path: "/d/g", Data: sym.Fill(3, 'g')}, hx.Item{Path: "/h", Data: sym.Fill(5, 'h')}), "populate")
	o := e.Opt
	l := []hx.Opt{
		{Level: "nope", Comp: config.CompressionFormatGZipKey}, {Comp: "nope"}, {Enc: "nope"}, {Sig: "nope"},
		{Enc: config.EncryptionFormatAgeKey}, {Enc: config.EncryptionFormatPGPKey}, {Sig: config.SignatureFormatMinisignKey}, {Sig: config.SignatureFormatPGPKey},
		{Level: "nope", Comp: config.CompressionFormatLZ4Key}, {Level: "nope", Comp: config.CompressionFormatZStandardKey}, {Level: "nope", Comp: config.CompressionFormatBrotliKey},
		{Level: "nope", Comp: config.CompressionFormatBzip2Key}, {Level: "nope", Comp: config.CompressionFormatBzip2ParallelKey}, {Level: "nope", Comp: config.CompressionFormatParallelGZipKey},
		{NonRegular: true, Sig: config.SignatureFormatMinisignKey}, {NonRegular: true, Comp: config.CompressionFormatLZ4Key}, {Cache: "nope"}, {ReadOnly: true}, {ReadOnly: true, NoWrite: true},
	}
	n := l[sym.Choice("conf", len(l))]
	// The keys do not fit the formats
	n.Rec, n.Keys = o.Rec, o.Keys
	x := hx.Open(n, e.Dir, e.Drive, e.DB)
	c := calls[sym.Choice("call", len(calls))]
	if n.NoWrite && x.W == nil {
		switch c.name {
		case "archive", "archive overwriting", "update", "update metadata", "delete", "delete missing", "move", "move missing":
			sym.Stop()
		}
	}
	first := c.name
	c.do(x, nil)
	_, err := x.Back.GetWriter()
	sym.Assert(err == nil, "drive opens for writing", hx.E(err))
	sym.Assert(x.Back.CloseWriter() == nil, "drive closes", "")
	c = calls[[]int{2, 16, 17, 22, 30}[sym.Choice("next", 5)]]
	if n.NoWrite && c.name == "archive" {
		sym.Stop()
	}
	c.do(x, nil)
	_, err = x.Back.GetReader()
	sym.Assert(err == nil, "drive opens for reading", hx.E(err))
	sym.Assert(x.Back.CloseReader() == nil, "drive closes", "")
	// The original instance still works
	err = e.Write("/probe", []byte("probe"))
	sym.Assert(err == nil || c.name == "rebuild" || first == "rebuild", "the original instance writes", hx.E(err))
	sym.Settle()
}

// HManager: sequences of calls to the drive manager over drives that can and can not be opened.
func HManager() {
	sym.HangIsBug()
	d := sym.Dir()
	drive := hx.Pick2("drive", []string{d + "/drive.tar", d, d + "/missing/drive.tar", "/dev/null", d + "/file/drive.tar"})
	hx.Must(os.WriteFile(d+"/file", []byte("f"), 0o600), "file")
	if sym.Fork(sym.Bool("exists")) && drive == d+"/drive.tar" {
		hx.Must(os.WriteFile(drive, make([]byte, 700), 0o600), "drive")
	}
	f := newFaults()
	f.on = true
	m := tape.NewTapeManager(drive, mt{hx.NewTape(3), f}, 3, sym.Fork(sym.Bool("overwrite")))
	for i := 0; i < 3; i++ {
		switch sym.Choice("call", 3) {
		case 0:
			if _, err := m.GetWriter(); err == nil {
				m.Close()
			}
		case 1:
			if _, err := m.GetReader(); err == nil {
				if sym.Fork(sym.Bool("again")) {
					_, err := m.GetReader()
					sym.Assert(err == nil, "an open reader can be reused", hx.E(err))
				}
				m.Close()
			}
		case 2:
			m.Close()
		}
	}
	f.on = false
	if f.fired == "" {
		sym.Assume(f.k == maxFaults)
	}
	if _, err := m.GetWriter(); err == nil {
		m.Close()
	}
	if _, err := m.GetReader(); err == nil {
		m.Close()
	}
	sym.Reach("manager")
}

// HDrives: a filesystem over drives that can not be opened.
func HDrives() {
	sym.HangIsBug()
	e := hx.NewFS(hx.Opt{Rec: 3})
	hx.Must(e.Archive(false, false, hx.Item{Path: "/d", Dir: true, Mode: 0o755}, hx.Item{Path: "/d/f", Data: sym.Fill(700, 'f')}, hx.Item{Path: "/h", Data: sym.Fill(5, 'h')}), "populate")
	d := e.Dir
	drive := hx.Pick2("drive", []string{d, d + "/missing/drive.tar", d + "/drive.tar/drive.tar", d + "/missing.tar"})
	x := hx.Open(e.Opt, d, drive, []string{e.DB, d + "/other.sqlite"}[sym.Choice("index", 2)])
	if sym.Fork(sym.Bool("initialized")) {
		x.FS.Initialize("/", os.ModePerm)
	}
	calls[sym.Choice("call", len(calls))].do(x, nil)
	calls[[]int{2, 16, 17, 22, 30}[sym.Choice("next", 5)]].do(x, nil)
	x.FS.Initialize("/", os.ModePerm)
	sym.Reach("drives")
}
