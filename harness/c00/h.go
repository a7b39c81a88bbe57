package c00

import (
	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
)

func HSmoke() {
	e := hx.NewFS(hx.Opt{})
	sym.Reach("init")
	hx.Must(e.FS.Mkdir("/a", 0o755), "mkdir")
	sym.Reach("mkdir")
	n := sym.Int("n", 0, 3000)
	err := e.Write("/a/f", sym.Fill(n, 'x'))
	sym.Assert(err == nil, "write", hx.E(err))
	sym.Reach("write")
	b, err := e.ReadAll("/a/f")
	sym.Assert(err == nil, "read", hx.E(err))
	sym.Assert(int64(len(b)) == n, "len", "wrong length")
	sym.Observe("n", len(b))
	r, err := e.Rebuild()
	sym.Assert(err == nil, "rebuild", hx.E(err))
	for _, h := range r.Headers() {
		sym.Observe("h", h.Name, h.Record, h.Block, h.Size)
	}
}
