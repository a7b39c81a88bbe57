id = 'c12-children'
prop = 'C12'
needs = "a directory which contains a subdirectory starting with the directory's own name (/d/d)"
breaks = 'entries beneath such a subdirectory are left out of recursive calls'
edits = [('pkg/persisters/metadata.go', '\touthdrs := []*config.Header{}\n\tfor _, hdr := range headers {\n\t\tprefix := strings.TrimSuffix(hdr.Name, "/")\n\t\tif name != prefix && name != prefix+"/" {\n\t\t\touthdrs = append(outhdrs, converters.DBHeaderToConfigHeader(hdr))', '\touthdrs := []*config.Header{}\n\tfor _, hdr := range headers {\n\t\tprefix := strings.TrimSuffix(hdr.Name, "/")\n\t\tif !strings.HasSuffix(prefix, name) && name != prefix+"/" {\n\t\t\touthdrs = append(outhdrs, converters.DBHeaderToConfigHeader(hdr))')]
demo = r"""
package verifdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	e := newFS(t, opt{})
	ok(t, e.fs.MkdirAll("/d/d", 0o755))
	e.write("/d/d/d", []byte("x"))
	ok(t, e.fs.RemoveAll("/d"))
	for _, n := range []string{"/d", "/d/d", "/d/d/d"} {
		if h := e.header(n); h != nil {
			t.Fatal(n + " is left")
		}
	}
}
"""
