id = 'c17-dot'
prop = 'C17'
needs = 'an archive with a named top directory whose name starts with a dot'
breaks = 'every name below a top directory like ".config" is looked up as if the archive were relative to "./"'
edits = [('pkg/persisters/metadata.go', 'strings.HasPrefix(p.root, "/") || strings.HasPrefix(p.root, "./")) {', 'strings.HasPrefix(p.root, "/") || strings.HasPrefix(p.root, ".")) {')]
demo = r"""
package verifdemo

import (
	"archive/tar"
	"bytes"
	"os"
	"testing"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
)

func TestDemo(t *testing.T) {
	e := newEnv(t, opt{})
	buf := &bytes.Buffer{}
	w := tar.NewWriter(buf)
	ok(t, w.WriteHeader(&tar.Header{Typeflag: tar.TypeDir, Name: ".config/", Mode: 0o755}))
	ok(t, w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: ".config/f", Mode: 0o644, Size: 1}))
	_, err := w.Write([]byte("x"))
	ok(t, err)
	ok(t, w.Close())
	ok(t, os.WriteFile(e.drive, buf.Bytes(), 0o600))
	root, err := e.fs.Initialize("/", os.ModePerm)
	ok(t, err)
	f, err := cache.NewCacheFilesystem(e.fs, root, config.NoneKey, 0, t.TempDir())
	ok(t, err)
	if got, err := read(f, "/f"); err != nil || string(got) != "x" {
		t.Fatalf("%q %v", got, err)
	}
}
"""
