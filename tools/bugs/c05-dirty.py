id = 'c05-dirty'
prop = 'C05'
needs = 'a call which fails its precondition or has nothing to write'
breaks = 'a trailer is appended even if nothing was written'
edits = [('internal/tarext/write.go', '\t\t// Only write the trailer if we wrote to the archive\n\t\tif *dirty {\n', '\t\t// Only write the trailer if we wrote to the archive\n\t\tif *dirty || isRegular {\n')]
demo = r"""
package verifdemo

import (
	"bytes"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	before, err := os.ReadFile(e.drive)
	ok(t, err)
	ok(t, e.archive(false))
	after, err := os.ReadFile(e.drive)
	ok(t, err)
	if !bytes.Equal(before, after) {
		t.Fatal("appended", len(after)-len(before), "bytes")
	}
}
"""
