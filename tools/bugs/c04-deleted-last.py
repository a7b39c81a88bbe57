id = 'c04-deleted-last'
prop = 'C04'
needs = 'the last record on the tape deletes an entry and the index is opened again (or another entry is appended)'
breaks = 'the position of the last record ignores deletions'
edits = [('pkg/persisters/metadata.go', 'as location from %v order by location desc limit 1`, // We include deleted headers here as they are still physically on the tape and have to be considered when re-indexing\n', 'as location from %v where deleted != 1 order by location desc limit 1`,\n')]
demo = r"""
package verifdemo

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/a", []byte("a"))
	e.write("/b", []byte("b"))
	ra, ba, err := e.meta.GetLastIndexedRecordAndBlock(context.Background(), 20)
	ok(t, err)
	ok(t, e.fs.Remove("/b"))
	rb, bb, err := e.meta.GetLastIndexedRecordAndBlock(context.Background(), 20)
	ok(t, err)
	if rb*20+bb <= ra*20+ba {
		t.Fatal("the last position did not advance", ra, ba, rb, bb)
	}
}
"""
