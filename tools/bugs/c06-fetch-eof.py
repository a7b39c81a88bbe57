id = 'c06-fetch-eof'
prop = 'C06'
needs = 'a write which was cut off inside of the content of a file'
breaks = 'the missing part of torn content is not reported when the file is restored'
edits = [('pkg/recovery/fetch.go', '\t\tif _, err := io.Copy(dstFile, verifier); err != nil {\n', '\t\tif _, err := io.Copy(dstFile, verifier); err != nil && err != io.ErrUnexpectedEOF {\n')]
demo = r"""
package verifdemo

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	st, err := os.Stat(e.drive)
	ok(t, err)
	ok(t, e.archive(false, item{name: "/g", data: make([]byte, 5000)}))
	en, err := os.Stat(e.drive)
	ok(t, err)
	ok(t, os.Truncate(e.drive, (st.Size()+en.Size())/2))
	n, err := e.rebuild()
	ok(t, err)
	if h := n.header("/g"); h == nil {
		t.Skip()
	}
	if data, err := read(n.fs, "/g"); err == nil {
		t.Fatal("read", len(data), "bytes of torn content")
	}
}
"""
