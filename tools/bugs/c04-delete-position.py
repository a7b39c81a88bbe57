id = 'c04-delete-position'
prop = 'C04'
needs = 'deleting the entry which was written last'
breaks = 'a deletion does not advance the entry to the block of the deletion record'
edits = [('pkg/persisters/metadata.go', '\thdr.Lastknownrecord = lastknownrecord\n\thdr.Lastknownblock = lastknownblock\n\n\tif _, err := hdr.Update', '\tif lastknownrecord > hdr.Lastknownrecord {\n\t\thdr.Lastknownrecord = lastknownrecord\n\t\thdr.Lastknownblock = lastknownblock\n\t}\n\n\tif _, err := hdr.Update')]
demo = r"""
package verifdemo

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/a", []byte("a"))
	ra, ba, err := e.meta.GetLastIndexedRecordAndBlock(context.Background(), 20)
	ok(t, err)
	ok(t, e.fs.Remove("/a"))
	rb, bb, err := e.meta.GetLastIndexedRecordAndBlock(context.Background(), 20)
	ok(t, err)
	if rb*20+bb <= ra*20+ba {
		t.Fatal("the last position did not advance", ra, ba, rb, bb)
	}
}
"""
