id = 'c13-mkdirall'
prop = 'C13'
needs = 'MkdirAll with a path which leads through an existing file'
breaks = 'directories are made beneath a file'
edits = [('pkg/fs/filesystem.go', '\t\t} else if hdr.Typeflag != tar.TypeDir {\n\t\t\treturn config.ErrIsFile\n\t\t}\n\t}\n\n\treturn nil\n}\n', '\t\t} else if hdr.Typeflag != tar.TypeDir && currentPath == path {\n\t\t\treturn config.ErrIsFile\n\t\t}\n\t}\n\n\treturn nil\n}\n')]
demo = r"""
package verifdemo

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	e.write("/f", []byte("x"))
	before := tree(e.fs, "/")
	if err := e.fs.MkdirAll("/f/d", os.ModePerm); err == nil {
		t.Fatal("made a directory beneath a file")
	}
	same(t, "refused", before, tree(e.fs, "/"))
	if _, err := e.fs.Stat("/f/d"); err == nil {
		t.Fatal("there is a directory beneath a file")
	}
}
"""
