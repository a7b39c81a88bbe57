id = 'c08-skip-delete'
prop = 'C08'
needs = 'a spliced record which deletes an entry, without a valid signature'
breaks = 'signatures of records without content are not verified'
edits = [('pkg/signature/verify.go', '\tif err := VerifyString(embeddedHeader, isRegular, signatureFormat, recipient, signature); err != nil {\n\t\treturn err\n\t}\n\n\tvar newHdr tar.Header\n\tif err := json.Unmarshal([]byte(embeddedHeader), &newHdr); err != nil {\n\t\treturn err\n\t}\n', '\tvar newHdr tar.Header\n\tif err := json.Unmarshal([]byte(embeddedHeader), &newHdr); err != nil {\n\t\treturn err\n\t}\n\n\t// There is nothing to restore from headers without content\n\tif newHdr.Size > 0 || newHdr.PAXRecords[records.STFSRecordAction] == "" {\n\t\tif err := VerifyString(embeddedHeader, isRegular, signatureFormat, recipient, signature); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n')]
demo = r"""
package verifdemo

import (
	"github.com/pojntfx/stfs/pkg/config"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{sig: config.SignatureFormatMinisignKey})
	e.write("/f", []byte("content"))
	// An intruder with other keys deletes the file
	o := e.o
	o.ids = nil
	k := mkIDs(t, "", o.sig)
	o.ids = &k
	x := e.with(o, false)
	ok(t, x.fs.Remove("/f"))
	n := e.reopen(true)
	if err := n.index(true); err == nil && n.header("/f") == nil {
		t.Fatal("a deletion by somebody else was accepted")
	}
}
"""
