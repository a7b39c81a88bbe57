id = 'c09-link'
prop = 'C09'
needs = 'an encrypted filesystem with a symbolic link'
breaks = 'the target of the link is written in clear to the wrapper'
edits = [('pkg/encryption/encrypt.go', '\t\tSize:       hdr.Size,\n', '\t\tLinkname:   hdr.Linkname,\n\t\tSize:       hdr.Size,\n')]
demo = r"""
package verifdemo

import (
	"bytes"
	"os"
	"testing"
	"github.com/pojntfx/stfs/pkg/config"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{enc: config.EncryptionFormatAgeKey})
	e.write("/target-name", []byte("x"))
	ok(t, e.fs.SymlinkIfPossible("/target-name", "/link-name"))
	data, err := os.ReadFile(e.drive)
	ok(t, err)
	if bytes.Contains(data, []byte("target-name")) || bytes.Contains(data, []byte("link-name")) {
		t.Fatal("the tape reveals a name")
	}
}
"""
