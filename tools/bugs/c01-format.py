id = 'c01-format'
prop = 'C01'
needs = 'an entry whose modification time has a fraction of a second and an index rebuild'
breaks = 'the record is no longer always written as PAX, so the tape keeps whole seconds while the index keeps the exact time'
edits = [('pkg/operations/update.go', '\t\thdr.Format = tar.FormatPAX\n', '\t\tif replace {\n\t\t\thdr.Format = tar.FormatPAX\n\t\t}\n')]
demo = r"""
package verifdemo

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/f", []byte("x"))
	ok(t, e.fs.Chtimes("/f", time.Unix(1500000000, 700000000), time.Unix(1500000001, 600000000)))
	n, err := e.rebuild()
	ok(t, err)
	same(t, "rebuild", tree(e.fs, "/"), tree(n.fs, "/"))
}
"""
