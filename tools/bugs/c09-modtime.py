id = 'c09-modtime'
prop = 'C09'
needs = 'encryption'
breaks = 'the modification time is kept in clear in the outer record header'
edits = [('pkg/encryption/encrypt.go', '\t\tSize:       hdr.Size,\n\t\tPAXRecords: map[string]string{},\n\t}\n', '\t\tSize:       hdr.Size,\n\t\tModTime:    hdr.ModTime,\n\t\tPAXRecords: map[string]string{},\n\t}\n')]
demo = r"""
package verifdemo

import (
	"archive/tar"
	"bytes"
	"github.com/pojntfx/stfs/pkg/config"
	"os"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{enc: config.EncryptionFormatAgeKey})
	e.write("/f", []byte("content"))
	ok(t, e.fs.Chtimes("/f", time.Unix(1234567890, 0), time.Unix(1234567891, 0)))
	data, err := os.ReadFile(e.drive)
	ok(t, err)
	r := bytes.NewReader(data)
	for r.Len() > 0 {
		tr := tar.NewReader(r)
		for {
			h, err := tr.Next()
			if err != nil {
				break
			}
			if h.ModTime.Unix() == 1234567891 {
				t.Fatal("the time is in clear")
			}
		}
	}
}
"""
