id = 'c14-size'
prop = 'C14'
needs = 'the in-memory write cache, a truncate and a write afterwards'
breaks = 'truncating the buffer moves the position of the handle, so the next write lands elsewhere'
edits = [('pkg/cache/write.go', '\tf.Buff.Truncate(int(size))\n', '\tf.Buff.Truncate(int(size))\n\tif f.Index > size {\n\t\tf.Index = size\n\t}\n')]
demo = r"""
package verifdemo

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/f", []byte("abcdef"))
	h, err := e.fs.OpenFile("/f", os.O_RDWR, 0)
	ok(t, err)
	_, err = h.Seek(4, 0)
	ok(t, err)
	ok(t, h.Truncate(2))
	_, err = h.Write([]byte("x"))
	ok(t, err)
	ok(t, h.Close())
	data, err := read(e.fs, "/f")
	ok(t, err)
	if string(data) != "ab\x00\x00x" {
		t.Fatalf("%q", data)
	}
}
"""
