id = 'c14-append'
prop = 'C14'
needs = 'a file opened write-only with O_APPEND'
breaks = 'O_APPEND is only honoured for files which can be read as well'
edits = [('pkg/fs/filesystem.go', '\t\tif flag&os.O_APPEND != 0 {\n', '\t\tif flag&os.O_APPEND != 0 && flag&os.O_WRONLY == 0 {\n')]
demo = r"""
package verifdemo

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/f", []byte("abc"))
	h, err := e.fs.OpenFile("/f", os.O_WRONLY|os.O_APPEND, 0)
	ok(t, err)
	_, err = h.Write([]byte("d"))
	ok(t, err)
	ok(t, h.Close())
	data, err := read(e.fs, "/f")
	ok(t, err)
	if string(data) != "abcd" {
		t.Fatal(string(data))
	}
}
"""
