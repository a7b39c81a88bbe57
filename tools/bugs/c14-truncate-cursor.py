id = 'c14-truncate-cursor'
prop = 'C14'
needs = 'a truncation to less than the cursor, followed by a write'
breaks = 'truncating moves the cursor of a file which is buffered in memory'
edits = [('pkg/cache/write.go', '\tf.Buff.Truncate(int(size))\n', '\tf.Buff.Truncate(int(size))\n\tif f.Index > size {\n\t\tf.Index = size\n\t}\n')]
demo = r"""
package verifdemo

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	f, err := e.fs.OpenFile("/f", os.O_RDWR|os.O_CREATE, 0o644)
	ok(t, err)
	_, err = f.Write([]byte("abcdef"))
	ok(t, err)
	ok(t, f.Truncate(2))
	_, err = f.Write([]byte("X"))
	ok(t, err)
	ok(t, f.Close())
	data, err := read(e.fs, "/f")
	if err != nil || string(data) != "ab\x00\x00\x00\x00X" {
		t.Fatalf("%q %v", data, err)
	}
}
"""
