id = 'c10-reader'
prop = 'C10'
needs = 'an index which fails while a deletion is being indexed'
breaks = 'the reader stays open, so that the next call waits for the drive forever'
edits = [('pkg/operations/delete.go', '\tdefer o.backend.CloseReader()\n\n\treturn recovery.Index(', '\n\tif err := recovery.Index('), ('pkg/operations/delete.go', '\t\t\t\tType:    config.HeaderEventTypeDelete,\n\t\t\t\tIndexed: true,\n\t\t\t\tHeader:  hdr,\n\t\t\t})\n\t\t},\n\t)\n}', '\t\t\t\tType:    config.HeaderEventTypeDelete,\n\t\t\t\tIndexed: true,\n\t\t\t\tHeader:  hdr,\n\t\t\t})\n\t\t},\n\t); err != nil {\n\t\treturn err\n\t}\n\n\treturn o.backend.CloseReader()\n}')]
demo = r"""
package verifdemo

import (
	"context"
	"errors"
	"github.com/pojntfx/stfs/pkg/config"
	"testing"
	"time"
)

type failing struct {
	config.MetadataPersister
	fail *bool
}

func (f failing) DeleteHeader(ctx context.Context, name string, r, b int64) (*config.Header, error) {
	if *f.fail {
		return nil, errors.New("index failed")
	}
	return f.MetadataPersister.DeleteHeader(ctx, name, r, b)
}

func TestDemo(t *testing.T) {
	fail := false
	e := newFS(t, opt{meta: func(m config.MetadataPersister) config.MetadataPersister { return failing{m, &fail} }})
	ok(t, e.fs.Mkdir("/a", 0o755))
	fail = true
	if e.fs.Remove("/a") == nil {
		t.Fatal("no error")
	}
	fail = false
	within(t, 10*time.Second, "Mkdir", func() { _ = e.fs.Mkdir("/b", 0o755) })
}
"""
