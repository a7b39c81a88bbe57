// Package c11: concurrent callers see a linearizable, race-free filesystem.
package c11

import (
	"context"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// ---- seams ----

// index yields before and after it is used.
type index struct{ config.MetadataPersister }

func (m index) UpsertHeader(ctx context.Context, h *config.Header, i bool) error {
	sym.Yield()
	defer sym.Yield()
	return m.MetadataPersister.UpsertHeader(ctx, h, i)
}

func (m index) UpdateHeaderMetadata(ctx context.Context, h *config.Header) error {
	sym.Yield()
	return m.MetadataPersister.UpdateHeaderMetadata(ctx, h)
}

func (m index) MoveHeader(ctx context.Context, a, b string, r, bl int64) error {
	sym.Yield()
	return m.MetadataPersister.MoveHeader(ctx, a, b, r, bl)
}

func (m index) GetHeader(ctx context.Context, n string) (*config.Header, error) {
	sym.Yield()
	return m.MetadataPersister.GetHeader(ctx, n)
}

func (m index) GetHeaderByLinkname(ctx context.Context, n string) (*config.Header, error) {
	sym.Yield()
	return m.MetadataPersister.GetHeaderByLinkname(ctx, n)
}

func (m index) GetHeaderChildren(ctx context.Context, n string) ([]*config.Header, error) {
	sym.Yield()
	return m.MetadataPersister.GetHeaderChildren(ctx, n)
}

func (m index) GetHeaderDirectChildren(ctx context.Context, n string, l int) ([]*config.Header, error) {
	sym.Yield()
	return m.MetadataPersister.GetHeaderDirectChildren(ctx, n, l)
}

func (m index) DeleteHeader(ctx context.Context, n string, r, b int64) (*config.Header, error) {
	sym.Yield()
	return m.MetadataPersister.DeleteHeader(ctx, n, r, b)
}

func (m index) GetRootPath(ctx context.Context) (string, error) {
	sym.Yield()
	return m.MetadataPersister.GetRootPath(ctx)
}

func (m index) PurgeAllHeaders(ctx context.Context) error {
	sym.Yield()
	return m.MetadataPersister.PurgeAllHeaders(ctx)
}

func (m index) GetLastIndexedRecordAndBlock(ctx context.Context, r int) (int64, int64, error) {
	sym.Yield()
	return m.MetadataPersister.GetLastIndexedRecordAndBlock(ctx, r)
}

func drive(b config.BackendConfig) config.BackendConfig {
	o := b
	o.GetWriter = func() (config.DriveWriterConfig, error) { sym.Yield(); return b.GetWriter() }
	o.CloseWriter = func() error { sym.Yield(); return b.CloseWriter() }
	o.GetReader = func() (config.DriveReaderConfig, error) { sym.Yield(); return b.GetReader() }
	o.CloseReader = func() error { sym.Yield(); return b.CloseReader() }
	return o
}

type buffer struct{ cache.WriteCache }

func (b buffer) Read(p []byte) (int, error)  { sym.Yield(); return b.WriteCache.Read(p) }
func (b buffer) Write(p []byte) (int, error) { sym.Yield(); return b.WriteCache.Write(p) }
func (b buffer) Truncate(n int64) error      { sym.Yield(); return b.WriteCache.Truncate(n) }
func (b buffer) Close() error                { sym.Yield(); return b.WriteCache.Close() }

// ---- programs ----

// client is what one goroutine holds.
type client struct {
	h   afero.File
	err error
}

// call is one call of a client; its result is everything that it returns.
type call struct {
	name string
	do   func(e *hx.Env, c *client) string
}

func plain(name string, f func(e *hx.Env) error) []call {
	return []call{{name, func(e *hx.Env, c *client) string { return hx.E(f(e)) }}}
}

// file opens, uses and closes a handle; every step is a call of its own.
func file(name, path string, flags int, use ...call) []call {
	p := []call{{fmt.Sprint("open ", path, " ", flags), func(e *hx.Env, c *client) string {
		c.h, c.err = e.FS.OpenFile(path, flags, 0o640)
		if c.err != nil {
			c.h = nil
		}
		return hx.E(c.err)
	}}}
	p = append(p, use...)
	return append(p, call{"close", func(e *hx.Env, c *client) string {
		if c.h == nil {
			return "-"
		}
		err := c.h.Close()
		return hx.E(err)
	}})
}

// on is a call on the handle.
func on(name string, f func(h afero.File) string) call {
	return call{name, func(e *hx.Env, c *client) string {
		if c.h == nil {
			return "-"
		}
		return f(c.h)
	}}
}

func write(s string) call {
	return on("write "+s, func(h afero.File) string {
		n, err := h.Write([]byte(s))
		return fmt.Sprint(n, hx.E(err))
	})
}

func read(n int) call {
	return on(fmt.Sprint("read ", n), func(h afero.File) string {
		b := make([]byte, n)
		k, err := io.ReadFull(h, b)
		return string(b[:k]) + " " + hx.E(err)
	})
}

var list = on("list", func(h afero.File) string {
	l, err := h.Readdir(-1)
	names := []string{}
	for _, i := range l {
		names = append(names, fmt.Sprint(i.Name(), i.Size(), i.Mode()))
	}
	sort.Strings(names)
	return strings.Join(names, ",") + " " + hx.E(err)
})

func info(i os.FileInfo, err error) string {
	if err != nil {
		return hx.E(err)
	}
	return fmt.Sprint(i.Name(), i.Size(), i.Mode(), old(i.ModTime()))
}

// old is a time which was set, not the time of a call.
func old(t time.Time) int64 {
	if t.Unix() > 1500000000 && t.Unix() < 1650000000 {
		return t.Unix()
	}
	return 0
}

func stat(p string) []call {
	return []call{{"stat " + p, func(e *hx.Env, c *client) string { return info(e.FS.Stat(p)) }}}
}

const (
	creat = os.O_RDWR | os.O_CREATE | os.O_TRUNC
	excl  = os.O_RDWR | os.O_CREATE | os.O_EXCL
	appnd = os.O_WRONLY | os.O_APPEND
)

var programs = [][]call{
	file("create", "/n", creat, write("new")),
	file("replace", "/f", creat, write("replaced")),
	file("read", "/f", os.O_RDONLY, read(2), read(9)),
	plain("rename", func(e *hx.Env) error { return e.FS.Rename("/f", "/d/f") }),
	plain("rename directory", func(e *hx.Env) error { return e.FS.Rename("/d", "/r") }),
	plain("remove all", func(e *hx.Env) error { return e.FS.RemoveAll("/d") }),
	plain("chmod", func(e *hx.Env) error { return e.FS.Chmod("/f", 0o600) }),
	plain("mkdir all", func(e *hx.Env) error { return e.FS.MkdirAll("/d/x/y", 0o700) }),
	file("list", "/d", os.O_RDONLY, list),
	stat("/d/g"),
	// thorough
	plain("remove", func(e *hx.Env) error { return e.FS.Remove("/f") }),
	file("append", "/f", appnd, write("+")),
	plain("mkdir", func(e *hx.Env) error { return e.FS.Mkdir("/d/x", 0o711) }),
	file("exclusive", "/n", excl, write("mine")),
	plain("chtimes", func(e *hx.Env) error { return e.FS.Chtimes("/d", hx.T0, hx.T0.Add(time.Hour)) }),
	plain("chown", func(e *hx.Env) error { return e.FS.Chown("/d/g", 12, 34) }),
	file("read other", "/d/g", os.O_RDONLY, read(3)),
	file("replace other", "/d/g", creat, write("w")),
	plain("rename over", func(e *hx.Env) error { return e.FS.Rename("/d/g", "/f") }),
	plain("remove directory", func(e *hx.Env) error { return e.FS.Remove("/d") }),
	plain("symlink", func(e *hx.Env) error { return e.FS.SymlinkIfPossible("/f", "/s") }),
	plain("initialize", func(e *hx.Env) error { _, err := e.FS.Initialize("/", 0o777); return err }),
	stat("/f"),
	stat("/n"),
	file("list root", "/", os.O_RDONLY, list),
	{{"lstat", func(e *hx.Env, c *client) string { i, _, err := e.FS.LstatIfPossible("/f"); return info(i, err) }}},
	{{"readlink", func(e *hx.Env, c *client) string { l, err := e.FS.ReadlinkIfPossible("/s"); return l + hx.E(err) }}},
	plain("remove new", func(e *hx.Env) error { return e.FS.Remove("/n") }),
	file("truncate", "/f", os.O_RDWR, on("truncate", func(h afero.File) string { return hx.E(h.Truncate(1)) }), on("sync", func(h afero.File) string { return hx.E(h.Sync()) })),
	// attributes of the same entries
	plain("chtimes file", func(e *hx.Env) error { return e.FS.Chtimes("/f", hx.T0, hx.T0.Add(time.Hour)) }),
	plain("chown file", func(e *hx.Env) error { return e.FS.Chown("/f", 56, 78) }),
	plain("chmod directory", func(e *hx.Env) error { return e.FS.Chmod("/d", 0o711) }),
	plain("chmod other", func(e *hx.Env) error { return e.FS.Chmod("/d/g", 0o611) }),
	plain("rename back", func(e *hx.Env) error { return e.FS.Rename("/d/g", "/n") }),
}

const quick = 10

// ---- runs ----

type event struct {
	client, seq int
	name, res   string
	from, to    int
}

type world struct {
	o       hx.Opt
	what    string // what prepare does
	prepare func(e *hx.Env, cs []*client)
	finish  func(e *hx.Env, cs []*client) string
	progs   [][]call
	turns   int // switches between calls, apart from preemptions in calls
}

func (w *world) build() (*hx.Env, []*client) {
	o := w.o
	o.Quiet = true
	e := hx.NewFS(o)
	hx.Must(e.Archive(false, false, hx.Item{Path: "/f", Data: []byte("first"), Mode: 0o644}, hx.Item{Path: "/d", Dir: true, Mode: 0o755}, hx.Item{Path: "/d/g", Data: []byte("other"), Mode: 0o644}, hx.Item{Path: "/d/h", Dir: true, Mode: 0o755}), "populate")
	cs := []*client{}
	for range w.progs {
		cs = append(cs, &client{})
	}
	if w.prepare != nil {
		w.prepare(e, cs)
	}
	return e, cs
}

// tree is what can be seen in the end.
func tree(e *hx.Env) string {
	e.Links = true
	l := []string{}
	for p, s := range e.Walk(false) {
		link, err := "", os.ErrNotExist
		if p != "/" {
			link, err = e.FS.ReadlinkIfPossible(p)
		}
		data := ""
		if err != nil && !s.Dir {
			b, err := e.ReadAll(p)
			data = string(b) + " " + hx.E(err)
		}
		l = append(l, fmt.Sprint(p, " ", s.Dir, s.Size, s.Mode, s.Uid, s.Gid, old(s.Mod), " ", link, " ", data))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// run lets the clients loose.
func (w *world) run(preempts int) (*hx.Env, []*client, []*event) {
	o := w.o
	w.o.Wrap = drive
	w.o.WrapMeta = func(m config.MetadataPersister) config.MetadataPersister { return index{m} }
	w.o.WrapCache = func(c cache.WriteCache) cache.WriteCache { return buffer{c} }
	e, cs := w.build()
	w.o = o
	evs := make([][]*event, len(w.progs))
	all := []*event{}
	for i, p := range w.progs {
		for j, c := range p {
			ev := &event{client: i, seq: j, name: c.name}
			evs[i] = append(evs[i], ev)
			all = append(all, ev)
		}
	}
	sym.HangIsBug()
	start := make(chan bool)
	wg := sync.WaitGroup{}
	sym.Explore(0)
	for i := range w.progs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			sym.Client(i)
			for j, c := range w.progs[i] {
				sym.Turn()
				ev := evs[i][j]
				ev.from = sym.Stamp()
				ev.res = c.do(e, cs[i])
				ev.to = sym.Stamp()
			}
		}(i)
	}
	sym.Settle()
	sym.Turns(w.turns)
	sym.Explore(preempts)
	close(start)
	wg.Wait()
	sym.EndExplore()
	return e, cs, all
}

// orders calls f with sequential orders which respect the programs and real time, those closest to
// the order of the responses first, until f is satisfied. f returns how many events were useful.
func orders(all []*event, f func(o []*event) (int, bool)) bool {
	bad := map[string]bool{}
	n := 0
	var rec func(done []*event, key string) bool
	rec = func(done []*event, key string) bool {
		if bad[key] || n > 200 {
			return false
		}
		if len(done) == len(all) {
			n++
			k, ok := f(done)
			if ok {
				return true
			}
			p := ""
			for i := 0; i <= k && i < len(done); i++ {
				p += fmt.Sprint(done[i].client)
			}
			bad[p] = true
			return false
		}
		took := map[*event]bool{}
		for _, e := range done {
			took[e] = true
		}
		next := []*event{}
		for _, e := range all {
			if took[e] {
				continue
			}
			ok := true
			for _, x := range all {
				if !took[x] && x != e && (x.to < e.from || (x.client == e.client && x.seq < e.seq)) {
					ok = false
				}
			}
			if ok {
				next = append(next, e)
			}
		}
		sort.Slice(next, func(i, j int) bool { return next[i].to < next[j].to })
		for _, e := range next {
			if rec(append(append([]*event{}, done...), e), key+fmt.Sprint(e.client)) {
				return true
			}
		}
		return false
	}
	return rec(nil, "")
}

// sequential runs the calls one after the other and returns their results and what can be seen in the end.
func (w *world) sequential(o []*event) (res []string) {
	key := fmt.Sprint(w.what, w.o.Enc, w.o.Cache)
	for _, ev := range o {
		key += fmt.Sprintf("|%d %s", ev.client, ev.name)
	}
	if s, ok := sym.Cached(key); ok {
		return strings.Split(s, "\x01")
	}
	s, cs := w.build()
	for _, ev := range o {
		res = append(res, w.progs[ev.client][ev.seq].do(s, cs[ev.client]))
	}
	end := ""
	if w.finish != nil {
		end = w.finish(s, cs)
	}
	res = append(res, end, tree(s))
	sym.Store(key, strings.Join(res, "\x01"))
	return res
}

func (w *world) check(preempts int) {
	e, cs, all := w.run(preempts)
	end := ""
	if w.finish != nil {
		end = w.finish(e, cs)
	}
	got := tree(e)
	r, err := e.Rebuild()
	sym.Assert(err == nil, "the tape rebuilds", hx.E(err))
	re := tree(r)
	sym.Assert(re == got, "the tape reproduces the final filesystem", got+"\n instead \n"+re)
	hist := ""
	for _, ev := range all {
		hist += fmt.Sprintf("client %d: %s = %s [%d,%d]\n", ev.client, ev.name, ev.res, ev.from, ev.to)
	}
	ok := orders(all, func(o []*event) (int, bool) {
		want := w.sequential(o)
		for i, ev := range o {
			if want[i] != ev.res {
				return i, false
			}
		}
		return len(o), want[len(o)] == end && want[len(o)+1] == got
	})
	sym.Assert(ok, "the results and the final filesystem are those of a sequential order", hist+got)
	sym.Reach("checked")
}

func opt() hx.Opt {
	if sym.Tier() > 0 && sym.Fork(sym.Bool("pipes")) {
		return hx.Opt{Rec: 3, Enc: config.EncryptionFormatAgeKey, Sig: config.SignatureFormatMinisignKey, Comp: config.CompressionFormatGZipKey, Cache: config.WriteCacheTypeFile}
	}
	return hx.Opt{Rec: 3}
}

func name(p []call) string {
	l := []string{}
	for _, c := range p {
		l = append(l, c.name)
	}
	return strings.Join(l, "; ")
}

// HPair: two clients.
func HPair() {
	n, k := quick, 1
	if sym.Tier() > 0 {
		n, k = len(programs), 2
	}
	a := sym.Choice("first", n)
	b := sym.Choice("second", n)
	sym.Assume(a <= b)
	w := &world{o: opt(), progs: [][]call{programs[a], programs[b]}}
	w.check(k)
}

// HMore: two clients with one of the other programs, twice or next to one which it depends on.
func HMore() {
	if sym.Tier() > 0 {
		return // see HPair
	}
	pairs := [][2]int{{10, 10}, {11, 11}, {12, 12}, {13, 13}, {14, 14}, {16, 17}, {18, 8}, {19, 12}, {20, 20}, {20, 26}, {21, 0}, {24, 0}, {25, 3}, {28, 11}, {27, 23},
		{29, 6}, {30, 6}, {29, 30}, {31, 14}, {32, 15}, {14, 7}, {29, 3}, {30, 11}, {15, 5}, {29, 29}, {32, 18}, {33, 0}, {33, 18}, {14, 4}, {10, 18}}
	p := pairs[sym.Choice("pair", len(pairs))]
	w := &world{o: opt(), progs: [][]call{programs[p[0]], programs[p[1]]}}
	w.check(1)
}

// HSequence: two clients with two programs each, preempted only between calls and where a lock is held.
func HSequence() {
	set, k := []int{1, 3, 5}, 0
	if sym.Tier() > 0 {
		set, k = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 18, 19, 21, 28}, 1
	}
	pick := func(label string) int { return sym.Choice(label, len(set)) }
	cat := func(a, b []call) []call { return append(append([]call{}, a...), b...) }
	w := &world{o: opt(), turns: 1}
	a, b := pick("first"), pick("then")
	c, d := pick("second"), pick("finally")
	sym.Assume(a*len(set)+b <= c*len(set)+d)
	sym.Assume(sym.Tier() > 0 || (a != b && c != d))
	w.progs = [][]call{cat(programs[set[a]], programs[set[b]]), cat(programs[set[c]], programs[set[d]])}
	w.check(k)
}

// HThree: three clients (thorough: four).
func HThree() {
	set, n, k := []int{1, 3, 5}, 3, 0
	if sym.Tier() > 0 {
		set = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 17, 18, 19}
		if sym.Fork(sym.Bool("four")) {
			n = 4
		} else {
			k = 1
		}
	}
	w := &world{o: opt(), turns: 1 + sym.Tier()}
	last := 0
	for i := 0; i < n; i++ {
		c := sym.Choice("client", len(set))
		sym.Assume(c >= last)
		last = c + 1 - sym.Tier()
		w.progs = append(w.progs, programs[set[c]])
	}
	w.check(k)
}

// HHandle: two goroutines share a handle.
func HHandle() {
	uses := []call{
		write("xyz"),
		on("write at", func(h afero.File) string { n, err := h.WriteAt([]byte("Q"), 1); return fmt.Sprint(n, hx.E(err)) }),
		read(2),
		on("read at", func(h afero.File) string {
			b := make([]byte, 3)
			n, err := h.ReadAt(b, 1)
			return string(b[:n]) + hx.E(err)
		}),
		on("seek", func(h afero.File) string { n, err := h.Seek(3, io.SeekStart); return fmt.Sprint(n, hx.E(err)) }),
		on("truncate", func(h afero.File) string { return hx.E(h.Truncate(2)) }),
		on("stat", func(h afero.File) string { return info(h.Stat()) }),
		on("sync", func(h afero.File) string { return hx.E(h.Sync()) }),
		on("close", func(h afero.File) string { return hx.E(h.Close()) }),
		on("write string", func(h afero.File) string { n, err := h.WriteString("s"); return fmt.Sprint(n, hx.E(err)) }),
		on("name", func(h afero.File) string { return h.Name() }),
		list,
	}
	n, k := 1, 1
	handles := 3
	if sym.Tier() > 0 {
		n, k = 2, 2
		handles = 4
	} else {
		uses = uses[:9]
	}
	// calls which do not go through the handle
	uses = append(uses, programs[3][0])
	path, flags := "/f", os.O_RDWR
	dirty := false
	switch sym.Choice("handle", handles) {
	case 3:
		flags = os.O_RDWR | os.O_TRUNC
	case 2:
		// with something to write back
		dirty = true
		if sym.Tier() == 0 {
			uses = []call{uses[0], uses[2], uses[5], uses[6], uses[7], uses[8], programs[1][0]}
		}
	case 1:
		path, flags = "/d", os.O_RDONLY
		uses = []call{list, uses[6], on("name", func(h afero.File) string { return h.Name() }), uses[8], on("names", func(h afero.File) string {
			l, err := h.Readdirnames(-1)
			sort.Strings(l)
			return strings.Join(l, ",") + hx.E(err)
		}), programs[4][0], {"make", func(e *hx.Env, c *client) string { return hx.E(e.FS.Mkdir("/d/x", 0o700)) }}}
	}
	var progs [][]call
	last := 0
	for i := 0; i < 2; i++ {
		p := []call{}
		for j := 0; j < n; j++ {
			c := sym.Choice("use", len(uses))
			if n == 1 {
				sym.Assume(c >= last)
				last = c
			}
			p = append(p, uses[c])
		}
		progs = append(progs, p)
	}
	// in the end one of them closes it
	w := &world{o: opt(), progs: progs, what: fmt.Sprint(path, flags, dirty)}
	w.prepare = func(e *hx.Env, cs []*client) {
		h, err := e.FS.OpenFile(path, flags, 0)
		hx.Must(err, "open")
		if dirty {
			_, err = h.Write([]byte("long content"))
			hx.Must(err, "write")
		}
		for _, c := range cs {
			c.h = h
		}
	}
	w.finish = func(e *hx.Env, cs []*client) string { return hx.E(cs[0].h.Close()) }
	w.check(k)
}
