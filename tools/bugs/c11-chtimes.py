id = 'c11-chtimes'
prop = 'C11'
needs = 'a chmod between the look-up and the write of a chtimes of the same entry'
breaks = 'chtimes reads the attributes before it takes the lock, so a concurrent change is lost'
edits = [('pkg/fs/filesystem.go', '\tf.log.Debug("FileSystem.Chtimes", map[string]interface{}{\n\t\t"name":  name,\n\t\t"atime": atime,\n\t\t"mtime": mtime,\n\t})\n\n\tif f.readOnly {\n\t\treturn os.ErrPermission\n\t}\n\n\tif checkName(name) {\n\t\treturn os.ErrInvalid\n\t}\n\n\tname = cleanName(name)\n\n\tf.ioLock.Lock()\n\tdefer f.ioLock.Unlock()\n\n', '\tf.log.Debug("FileSystem.Chtimes", map[string]interface{}{\n\t\t"name":  name,\n\t\t"atime": atime,\n\t\t"mtime": mtime,\n\t})\n\n\tif f.readOnly {\n\t\treturn os.ErrPermission\n\t}\n\n\tif checkName(name) {\n\t\treturn os.ErrInvalid\n\t}\n\n\tname = cleanName(name)\n\n'), ('pkg/fs/filesystem.go', '\thdr.AccessTime = atime\n\thdr.ModTime = mtime\n\n', '\thdr.AccessTime = atime\n\thdr.ModTime = mtime\n\n\tf.ioLock.Lock()\n\tdefer f.ioLock.Unlock()\n\n')]
demo = r"""
package verifdemo

import (
	"context"
	"github.com/pojntfx/stfs/pkg/config"
	"os"
	"sync"
	"testing"
	"time"
)

type hook struct {
	config.MetadataPersister
	mu sync.Mutex
	f  func()
}

func (h *hook) GetHeader(ctx context.Context, name string) (*config.Header, error) {
	hdr, err := h.MetadataPersister.GetHeader(ctx, name)
	h.mu.Lock()
	f := h.f
	h.f = nil
	h.mu.Unlock()
	if f != nil {
		f()
	}
	return hdr, err
}

func TestDemo(t *testing.T) {
	var h *hook
	e := newFS(t, opt{meta: func(m config.MetadataPersister) config.MetadataPersister {
		h = &hook{MetadataPersister: m}
		return h
	}})
	e.write("/f", []byte("x"))
	done := make(chan struct{})
	h.mu.Lock()
	h.f = func() {
		go func() {
			defer close(done)
			ok(t, e.fs.Chmod("/f", 0o600))
		}()
		select {
		case <-done:
		case <-time.After(time.Second):
		}
	}
	h.mu.Unlock()
	ok(t, e.fs.Chtimes("/f", time.Unix(5, 0), time.Unix(6, 0)))
	<-done
	st, err := e.fs.Stat("/f")
	ok(t, err)
	if st.Mode() != os.FileMode(0o600) || st.ModTime().Unix() != 6 {
		t.Fatal("a change was lost:", st.Mode(), st.ModTime())
	}
}
"""
