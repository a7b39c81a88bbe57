id = 'c11-readdir'
prop = 'C11'
needs = 'a listing at the same time as a change'
breaks = 'Readdir and Stat of an open file do not take the lock'
edits = [('pkg/fs/file.go', '\tf.ioLock.Lock()\n\tdefer f.ioLock.Unlock()\n\n\tif !f.info.IsDir() {\n\t\treturn []os.FileInfo{}, config.ErrIsFile\n\t}\n\thdrs, err', '\tif !f.info.IsDir() {\n\t\treturn []os.FileInfo{}, config.ErrIsFile\n\t}\n\thdrs, err')]
demo = r"""
package verifdemo

import (
	"context"
	"github.com/pojntfx/stfs/pkg/config"
	"os"
	"sync/atomic"
	"testing"
	"time"
)

// Listings must not see a rename of a directory half-done.
type paused struct {
	config.MetadataPersister
	on      *atomic.Bool
	reached chan struct{}
	goOn    chan struct{}
}

func (m paused) MoveHeader(ctx context.Context, o, n string, r, b int64) error {
	err := m.MetadataPersister.MoveHeader(ctx, o, n, r, b)
	if m.on.CompareAndSwap(true, false) {
		close(m.reached)
		select {
		case <-m.goOn:
		case <-time.After(2 * time.Second):
		}
	}
	return err
}

func TestDemo(t *testing.T) {
	on, reached, goOn := &atomic.Bool{}, make(chan struct{}), make(chan struct{})
	e := newFS(t, opt{meta: func(m config.MetadataPersister) config.MetadataPersister { return paused{m, on, reached, goOn} }})
	ok(t, e.fs.Mkdir("/d", 0o755))
	ok(t, e.fs.Mkdir("/d/x", 0o755))
	h, err := e.fs.Open("/d")
	ok(t, err)
	on.Store(true)
	done := make(chan error, 1)
	go func() { done <- e.fs.Rename("/d", "/e") }()
	<-reached
	seen := make(chan []os.FileInfo, 1)
	go func() { i, _ := h.Readdir(-1); seen <- i }()
	select {
	case <-seen:
		t.Error("listed in the middle of a rename")
		close(goOn)
	case <-time.After(500 * time.Millisecond):
		close(goOn)
		<-seen
	}
	ok(t, <-done)
}
"""
