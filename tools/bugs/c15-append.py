id = 'c15-append'
prop = 'C15'
needs = 'a read-only filesystem and a file opened with O_RDWR'
breaks = 'a file opened for reading and writing on a read-only filesystem can be written'
edits = [('pkg/fs/filesystem.go', '\t\t\tflags.Read = true\n\t\t}\n\t} else {\n\t\tif (flag', '\t\t\tflags.Read = true\n\t\t\tflags.Write = flag&os.O_APPEND != 0\n\t\t}\n\t} else {\n\t\tif (flag')]
demo = r"""
package verifdemo

import (
	"bytes"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/f", []byte("abc"))
	before, err := os.ReadFile(e.drive)
	ok(t, err)
	o := e.o
	o.ro = true
	n := e.with(o, false)
	if h, err := n.fs.OpenFile("/f", os.O_RDWR|os.O_APPEND, 0); err == nil {
		_, _ = h.Write([]byte("d"))
		_ = h.Close()
	}
	after, err := os.ReadFile(e.drive)
	ok(t, err)
	if !bytes.Equal(before, after) {
		t.Fatal("the tape changed")
	}
}
"""
