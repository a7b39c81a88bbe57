id = 'c05-overwrote'
prop = 'C05'
needs = 'a drive manager which was asked to overwrite and at least three writers'
breaks = 'every second writer empties the tape again'
edits = [('pkg/tape/manager.go', '\toverwrite := m.overwrite\n\tif m.overwrote {\n\t\toverwrite = false\n\t}\n\tm.overwrote = true\n', '\toverwrite := m.overwrite\n\tif m.overwrote {\n\t\toverwrite = false\n\t}\n\tm.overwrote = overwrite\n')]
demo = r"""
package verifdemo

import (
	"bytes"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{overwrite: true})
	var last []byte
	for _, n := range []string{"/a", "/b", "/c"} {
		ok(t, e.fs.Mkdir(n, 0o755))
		data, err := os.ReadFile(e.drive)
		ok(t, err)
		if !bytes.HasPrefix(data, last) {
			t.Fatal("the tape lost content at " + n)
		}
		last = data
	}
}
"""
