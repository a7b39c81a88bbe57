package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Native runs a harness compiled by the Go toolchain on one assignment.
type Native struct {
	verif, repo, goBin string
	pkg                string
	bin                string
	raceBin            string
	ready              chan struct{}
	err                error
	mu                 sync.Mutex
	runs               int
	tmp                string
}

// harnessOverlay maps the harness packages into the repository's module.
func harnessOverlay(verif, repo, pkg, tmp string, funcs []string) map[string]string {
	ov := map[string]string{}
	for _, d := range []string{"sym", "hx", pkg} {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", d, "*.go"))
		for _, f := range fs {
			ov[filepath.Join(repo, "internal/verifh", d, filepath.Base(f))] = f
		}
	}
	if tmp != "" {
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n\t\"os\"\n\n\t\"github.com/pojntfx/stfs/internal/verifh/sym\"\n\th \"github.com/pojntfx/stfs/internal/verifh/" + pkg + "\"\n)\n\nfunc main() {\n\tsym.Start()\n\tswitch os.Args[1] {\n")
		for _, f := range funcs {
			fmt.Fprintf(&sb, "\tcase %q:\n\t\th.%s()\n", f, f)
		}
		sb.WriteString("\tdefault:\n\t\tos.Exit(6)\n\t}\n\tsym.Finish()\n}\n")
		mf := filepath.Join(tmp, "main_"+pkg+".go")
		os.WriteFile(mf, []byte(sb.String()), 0o644)
		ov[filepath.Join(repo, "internal/verifh/main_"+pkg, "main.go")] = mf
	}
	return ov
}

// harnessFuncs lists the exported H* functions of a harness package by scanning its source.
func harnessFuncs(verif, pkg string) []string {
	var out []string
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", pkg, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func H") {
				n := strings.TrimPrefix(l, "func ")
				if i := strings.IndexByte(n, '('); i > 0 && strings.HasPrefix(n[i:], "()") {
					out = append(out, n[:i])
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

func nativeEnv(verif string) []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOCACHE=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOCACHE="+filepath.Join(verif, ".cache/gocache"))
}

func (n *Native) build(funcs []string, race bool) {
	defer close(n.ready)
	ov := harnessOverlay(n.verif, n.repo, n.pkg, n.tmp, funcs)
	ovf := filepath.Join(n.tmp, "native-overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	os.WriteFile(ovf, b, 0o644)
	n.bin = filepath.Join(n.tmp, "native-"+n.pkg)
	args := []string{"build", "-overlay", ovf, "-o", n.bin, "./internal/verifh/main_" + n.pkg}
	cmd := exec.Command(n.goBin, args...)
	cmd.Dir = n.repo
	cmd.Env = append(nativeEnv(n.verif), "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v: %s", err, trunc(string(out), 2000))
		return
	}
	if race {
		n.raceBin = n.bin + "-race"
		cmd := exec.Command(n.goBin, "build", "-race", "-overlay", ovf, "-o", n.raceBin, "./internal/verifh/main_"+n.pkg)
		cmd.Dir = n.repo
		cmd.Env = append(nativeEnv(n.verif), "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintln(os.Stderr, "race build:", err, trunc(string(out), 1000))
			n.raceBin = ""
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

type nativeResult struct {
	code    int
	timeout bool
	stderr  string
	obs     string
}

func (n *Native) exec(bin, harness string, inputs []InputVal, findID string, limit time.Duration) nativeResult {
	n.mu.Lock()
	n.runs++
	id := n.runs
	n.mu.Unlock()
	d := filepath.Join(n.tmp, fmt.Sprintf("run%d", id))
	os.MkdirAll(filepath.Join(d, "s"), 0o755)
	defer os.RemoveAll(d)
	vals := []InputVal{}
	yields := []int64{}
	for _, iv := range inputs {
		if iv.Label == "@yield" {
			yields = append(yields, iv.Val)
		}
		if !strings.HasPrefix(iv.Label, "@") {
			vals = append(vals, iv)
		}
	}
	b, _ := json.Marshal(vals)
	ys, _ := json.Marshal(yields)
	in, out := filepath.Join(d, "in.json"), filepath.Join(d, "out.txt")
	os.WriteFile(in, b, 0o644)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, harness)
	cmd.Dir = filepath.Join(d, "s")
	cmd.Env = append(os.Environ(), "SYM_INPUT="+in, "SYM_OUT="+out, "SYM_YIELDS="+string(ys), "SYM_SCRATCH="+filepath.Join(d, "s"), "SYM_FIND="+findID, "HOME="+filepath.Join(d, "s"), "TMPDIR="+filepath.Join(d, "s"), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	var res nativeResult
	if err := cmd.Start(); err != nil {
		res.code = -1
		res.stderr = err.Error()
		return res
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		res.timeout = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	if cmd.ProcessState != nil {
		res.code = cmd.ProcessState.ExitCode()
	}
	res.stderr = eb.String()
	if o, err := os.ReadFile(out); err == nil {
		res.obs = string(o)
	}
	return res
}

// limit is the time one native run may take; harnesses with a SLOW file use slow key derivation.
func (n *Native) limit() time.Duration {
	if _, err := os.Stat(filepath.Join(n.verif, "harness", n.pkg, "SLOW")); err == nil {
		return 90 * time.Second
	}
	return 15 * time.Second
}

// confirm replays a candidate against the compiled real code.
func (n *Native) confirm(harness string, c Candidate) (bool, string) {
	limit := n.limit()
	if c.kind == "deadlock" {
		limit = 8 * time.Second
	}
	if c.kind == "race" {
		if n.raceBin == "" {
			return false, "no race build"
		}
		for i := 0; i < 15; i++ {
			r := n.exec(n.raceBin, harness, c.inputs, c.findID, limit)
			if r.code == 66 || strings.Contains(r.stderr, "WARNING: DATA RACE") {
				return true, trunc(r.stderr, 3000)
			}
			if strings.Contains(r.stderr, "concurrent map") {
				return true, trunc(r.stderr, 3000)
			}
		}
		return false, "race detector stayed quiet"
	}
	tries := 1
	if c.conc {
		tries = 25
	}
	var last string
	for i := 0; i < tries; i++ {
		bin := n.bin
		r := n.exec(bin, harness, c.inputs, c.findID, limit)
		last = fmt.Sprintf("exit %d timeout=%v %s", r.code, r.timeout, trunc(r.stderr, 1500))
		switch c.kind {
		case "assert":
			if r.code == 3 && strings.Contains(r.stderr, "sym: assertion failed: "+c.label+":") {
				return true, last
			}
		case "panic":
			if r.code == 2 && (strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "fatal error:")) && !r.timeout && !strings.Contains(r.stderr, "all goroutines are asleep") {
				return true, last
			}
		case "deadlock":
			if r.timeout || strings.Contains(r.stderr, "all goroutines are asleep") {
				return true, last
			}
		}
	}
	return false, last
}
