id = 'c15-rdwr'
prop = 'C15'
needs = 'a read-only filesystem and a file opened for reading and writing'
breaks = 'a file opened with O_RDWR on a read-only filesystem can not be read'
edits = [('pkg/fs/filesystem.go', '\t\tif (flag&O_ACCMODE) == os.O_RDONLY || (flag&O_ACCMODE) == os.O_RDWR {\n', '\t\tif (flag & O_ACCMODE) == os.O_RDONLY {\n')]
demo = r"""
package verifdemo

import (
	"io"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/f", []byte("x"))
	n := e.with(opt{ro: true, ids: e.o.ids}, false)
	f, err := n.fs.OpenFile("/f", os.O_RDWR, 0)
	ok(t, err)
	data, err := io.ReadAll(f)
	if err != nil || string(data) != "x" {
		t.Fatal(string(data), err)
	}
}
"""
