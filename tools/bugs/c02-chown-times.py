id = 'c02-chown-times'
prop = 'C02'
needs = 'a chown that keeps the user id and changes the group id'
breaks = 'Chown with an unchanged user id ignores the new group id'
edits = [('pkg/fs/filesystem.go', '\thdr.Uid = uid\n\thdr.Gid = gid\n', '\tif hdr.Uid == uid {\n\t\t// Nothing to change\n\t\treturn nil\n\t}\n\n\thdr.Uid = uid\n\thdr.Gid = gid\n')]
demo = r"""
package verifdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/f", []byte("x"))
	ok(t, e.fs.Chown("/f", 7, 8))
	ok(t, e.fs.Chown("/f", 7, 9))
	if h := e.header("/f"); h.UID != 7 || h.Gid != 9 {
		t.Fatal("the group is ", h.Gid)
	}
}
"""
