id = 'c16-purge'
prop = 'C16'
needs = 'an index which knows more than the tape holds, because the tape was cut off'
breaks = 'the index is only emptied when the tape is initialized, so entries which are no longer on the tape stay visible'
edits = [('pkg/recovery/index.go', '\tif overwrite {\n', '\tif overwrite && (initializing || offset > 0) {\n')]
demo = r"""
package verifdemo

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/a", []byte("a"))
	st, err := os.Stat(e.drive)
	ok(t, err)
	e.write("/b", []byte("b"))
	ok(t, os.Truncate(e.drive, st.Size()))
	n := e.reopen(false)
	_, err = n.fs.Initialize("/", os.ModePerm)
	ok(t, err)
	m := e.reopen(true)
	_, err = m.fs.Initialize("/", os.ModePerm)
	ok(t, err)
	same(t, "reopen", tree(m.fs, "/"), tree(n.fs, "/"))
}
"""
