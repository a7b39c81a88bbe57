id = 'c03-suffix'
prop = 'C03'
needs = 'a compressed filesystem and a file whose own name ends like the compression suffix'
breaks = 'the suffix is only added if it is missing, but always removed, so the file is filed under another name'
edits = [('internal/suffix/add.go', '\t\tname += CompressionFormatZStandardSuffix\n', '\t\tname = strings.TrimSuffix(name, CompressionFormatZStandardSuffix) + CompressionFormatZStandardSuffix\n'), ('internal/suffix/add.go', 'import "github.com/pojntfx/stfs/pkg/config"', 'import (\n\t"strings"\n\n\t"github.com/pojntfx/stfs/pkg/config"\n)')]
demo = r"""
package verifdemo

import (
	"github.com/pojntfx/stfs/pkg/config"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{comp: config.CompressionFormatZStandardKey})
	ok(t, e.archive(false, item{name: "/f.zst", data: []byte("content")}))
	data, err := read(e.fs, "/f.zst")
	if err != nil || string(data) != "content" {
		t.Fatal(string(data), err)
	}
}
"""
