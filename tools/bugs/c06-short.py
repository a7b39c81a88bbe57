id = 'c06-short'
prop = 'C06'
needs = "a tape cut inside of a file's content and a restore of that file"
breaks = 'the restore of a torn file succeeds with a part of the content'
edits = [('pkg/recovery/fetch.go', '\t\tif _, err := io.Copy(dstFile, verifier); err != nil {\n\t\t\treturn err\n\t\t}\n', '\t\tif _, err := io.Copy(dstFile, verifier); err != nil && err != io.ErrUnexpectedEOF {\n\t\t\treturn err\n\t\t}\n')]
demo = r"""
package verifdemo

import (
	"bytes"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	st, err := os.Stat(e.drive)
	ok(t, err)
	at := st.Size()
	ok(t, e.archive(false, item{name: "/f", data: bytes.Repeat([]byte("x"), 3000)}))
	ok(t, os.Truncate(e.drive, at+512+1500))
	n, err := e.rebuild()
	ok(t, err)
	if h := n.header("/f"); h != nil {
		if data, err := read(n.fs, "/f"); err == nil {
			t.Fatal("read", len(data), "bytes of a torn file")
		}
	}
}
"""
