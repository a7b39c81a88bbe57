id = 'c10-restore'
prop = 'C10'
needs = 'a restore whose destination can not be made'
breaks = 'a restore which fails keeps the drive'
edits = [('pkg/operations/restore.go', '\tdefer o.backend.CloseReader()\n', '\n'), ('pkg/operations/restore.go', '\t\t\treturn err\n\t\t}\n\t}\n\n\treturn nil\n}\n', '\t\t\treturn err\n\t\t}\n\t}\n\n\treturn o.backend.CloseReader()\n}\n')]
demo = r"""
package verifdemo

import (
	"errors"
	"io"
	"io/fs"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/f", []byte("x"))
	err := e.r.Restore(func(string, fs.FileMode) (io.WriteCloser, error) { return nil, errors.New("full") },
		func(string, fs.FileMode) error { return nil }, "/f", "", true)
	if err == nil {
		t.Fatal("the error was lost")
	}
	within(t, 5*time.Second, "a write after a failed restore", func() { e.write("/g", []byte("y")) })
}
"""
