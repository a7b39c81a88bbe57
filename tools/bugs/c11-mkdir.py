id = 'c11-mkdir'
prop = 'C11'
needs = 'two callers making the same directory at the same time'
breaks = 'the lock is only taken after it has been checked that the directory does not exist'
edits = [('pkg/fs/filesystem.go', '\tname = cleanName(name)\n\n\tf.ioLock.Lock()\n\tdefer f.ioLock.Unlock()\n\n\tif err := f.checkParentWithoutLocking(name); err != nil {\n\t\treturn err\n\t}\n\n\tif hdr, err := inventory.Stat(\n\t\tf.metadata,\n\n\t\tname,\n\t\tfalse,\n\n\t\tf.onHeader,\n\t); err == nil && hdr != nil {\n\t\treturn os.ErrExist\n\t}\n\n\tif hdr, err := inventory.Stat(\n\t\tf.metadata,\n\n\t\tname,\n\t\ttrue,\n\n\t\tf.onHeader,\n\t); err == nil && hdr != nil {\n\t\treturn os.ErrExist\n\t}\n', '\tname = cleanName(name)\n\n\tif hdr, err := inventory.Stat(\n\t\tf.metadata,\n\n\t\tname,\n\t\tfalse,\n\n\t\tf.onHeader,\n\t); err == nil && hdr != nil {\n\t\treturn os.ErrExist\n\t}\n\n\tf.ioLock.Lock()\n\tdefer f.ioLock.Unlock()\n\n\tif err := f.checkParentWithoutLocking(name); err != nil {\n\t\treturn err\n\t}\n\n\tif hdr, err := inventory.Stat(\n\t\tf.metadata,\n\n\t\tname,\n\t\ttrue,\n\n\t\tf.onHeader,\n\t); err == nil && hdr != nil {\n\t\treturn os.ErrExist\n\t}\n')]
demo = r"""
package verifdemo

import (
	"context"
	"github.com/pojntfx/stfs/pkg/config"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// The first look-up of every caller waits for the others'.
type meeting struct {
	config.MetadataPersister
	on *atomic.Bool
	wg *sync.WaitGroup
	n  *atomic.Int32
}

func (m meeting) GetHeader(ctx context.Context, name string) (*config.Header, error) {
	h, err := m.MetadataPersister.GetHeader(ctx, name)
	if m.on.Load() && name == "/d" && m.n.Add(1) <= 2 {
		m.wg.Done()
		done := make(chan struct{})
		go func() { m.wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(2 * time.Second):
		}
	}
	return h, err
}

func TestDemo(t *testing.T) {
	on, n, wg := &atomic.Bool{}, &atomic.Int32{}, &sync.WaitGroup{}
	e := newFS(t, opt{meta: func(m config.MetadataPersister) config.MetadataPersister { return meeting{m, on, wg, n} }})
	wg.Add(2)
	on.Store(true)
	errs := make(chan error, 2)
	for i := 0; i < 2; i++ {
		go func() { errs <- e.fs.Mkdir("/d", 0o755) }()
	}
	a, b := <-errs, <-errs
	if a == nil && b == nil {
		t.Fatal("both callers made the directory")
	}
}
"""
