id = 'c12-dots'
prop = 'C12'
needs = 'an instance over a rebuilt index, and a new name which starts with a dot'
breaks = 'leading dots of the new name are cut off as well'
edits = [('pkg/operations/move.go', '\t\tto = strings.TrimPrefix(to, "/")\n', '\t\tto = strings.TrimLeft(to, "./")\n')]
demo = r"""
package verifdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	ok(t, e.fs.Mkdir("/d", 0o755))
	e.write("/d/f", []byte("x"))
	n, err := e.rebuild()
	ok(t, err)
	ok(t, n.fs.Rename("/d", "/.d"))
	if _, err := n.fs.Stat("/.d/f"); err != nil {
		t.Fatal(err, tree(n.fs, "/"))
	}
}
"""
