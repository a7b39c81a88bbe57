package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Packages whose initialisers are not run: their state is provided by intrinsics or never read.
func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "net", "internal/poll", "runtime/debug", "os/signal", "internal/godebug", "crypto/rand", "math/rand", "math/rand/v2", "os/exec",
		"internal/cpu", "internal/abi", "internal/goos", "encoding/json", "golang.org/x/sys/unix", "golang.org/x/sys/cpu", "os/user", "text/template", "net/http", "internal/syscall/unix", "flag", "testing":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "net/") || strings.HasPrefix(path, "crypto/internal") || strings.HasPrefix(path, "vendor/")
}

// initAll interprets the package initialisers once, in dependency order, and keeps the resulting
// globals as the snapshot that every path starts from.
func (e *Engine) initAll() []string {
	e.initing = true
	defer func() { e.initing = false }()
	var notes []string
	inits := map[string]*Fn{}
	for _, lp := range e.ld.order {
		sp := e.ld.SSA[lp.lp.ImportPath]
		if f := sp.Func("init"); f != nil {
			fn := e.Fn(f)
			fn.intr = nop
			inits[lp.lp.ImportPath] = fn
		}
	}
	for _, lp := range e.ld.order {
		ip := lp.lp.ImportPath
		fn := inits[ip]
		if fn == nil || skipInit(ip) {
			continue
		}
		p := e.newPath(nil, &Job{})
		p.budget = 20e6
		p.softBudget = 20e6
		g := p.newGor("init " + ip)
		p.cur = g
		func() {
			defer func() {
				if r := recover(); r != nil {
					notes = append(notes, fmt.Sprintf("init %s: %v", ip, describeAbort(p, r)))
				}
			}()
			p.exts["initnotes"] = &notes
			p.exts["initpkg"] = ip
			g.callBody(nil, fn, nil)
		}()
	}
	if debugFlag {
		for _, n := range notes {
			fmt.Fprintln(os.Stderr, "note:", n)
		}
	}
	return notes
}

func describeAbort(p *Path, r any) string {
	switch x := r.(type) {
	case *goPanic:
		return p.panicMsg(x)
	case pathAbort:
		return x.kind + ": " + x.msg
	}
	return fmt.Sprint(r)
}

// tolerant wraps one instruction of a package initialiser so that a failure only loses its value.
func (c *compiler) tolerant(in ssa.Instruction, x func(fr *Frame)) func(fr *Frame) {
	slot := -1
	v, isV := in.(ssa.Value)
	if isV {
		slot = c.slots[v]
	}
	return func(fr *Frame) {
		g, p := fr.g, fr.p
		top, nch, depth := g.top, len(g.chunks), p.depth
		defer func() {
			if r := recover(); r != nil {
				if len(g.chunks) > nch {
					g.arena = g.chunks[nch].a
					g.chunks = g.chunks[:nch]
				}
				g.top, p.depth = top, depth
				g.fr = fr
				if notes, ok := p.exts["initnotes"].(*[]string); ok {
					*notes = append(*notes, fmt.Sprintf("init %v: %s: %s", p.exts["initpkg"], in, describeAbort(p, r)))
				}
				if slot >= 0 {
					func() {
						defer func() { recover() }()
						fr.regs[slot] = zeroValue(v.Type())
					}()
				}
			}
		}()
		x(fr)
	}
}
