// Package sym is the vocabulary of the harnesses. Under the symbolic executor every function
// here is intercepted; natively they read the values of one counterexample from a file.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type input struct {
	L string `json:"l"`
	V int64  `json:"v"`
}

var (
	mu    sync.Mutex
	ins   []input
	pos   int
	out   *os.File
	dirs  int
	snaps [][]byte
)

// Start loads an assignment (native runs only).
func Start() {
	b, err := ioutil.ReadFile(os.Getenv("SYM_INPUT"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "sym: no input:", err)
		os.Exit(6)
	}
	if err := json.Unmarshal(b, &ins); err != nil {
		fmt.Fprintln(os.Stderr, "sym: bad input:", err)
		os.Exit(6)
	}
	if o := os.Getenv("SYM_YIELDS"); o != "" {
		json.Unmarshal([]byte(o), &order)
	}
	if o := os.Getenv("SYM_OUT"); o != "" {
		out, _ = os.Create(o)
	}
}

// Finish ends a native run.
func Finish() {
	if pos != len(ins) {
		fmt.Fprintf(os.Stderr, "sym: diverged: %d of %d inputs read\n", pos, len(ins))
		os.Exit(7)
	}
	os.Exit(0)
}

func next(label string) int64 {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(ins) {
		fmt.Fprintf(os.Stderr, "sym: diverged: no input left for %s\n", label)
		os.Exit(5)
	}
	in := ins[pos]
	pos++
	if in.L != label {
		fmt.Fprintf(os.Stderr, "sym: diverged: want %s, have %s\n", label, in.L)
		os.Exit(5)
	}
	return in.V
}

func Int(label string, lo, hi int64) int64 { return next(label) }
func Bool(label string) bool               { return next(label) != 0 }
func Choice(label string, n int) int       { return int(next(label)) }
func Byte(label, alphabet string) byte     { return byte(next(label)) }
func Str(label string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fmt.Sprintf("%s.%d", label, i)))
	}
	return string(b)
}
func Assume(c bool) {
	if !c {
		fmt.Fprintln(os.Stderr, "sym: assumption false")
		os.Exit(4)
	}
}
func Assert(c bool, label, detail string) {
	if !c {
		if known != "" && known != os.Getenv("SYM_FIND") {
			fmt.Fprintf(os.Stderr, "sym: known finding %s: %s: %s\n", known, label, detail)
			os.Exit(8)
		}
		fmt.Fprintf(os.Stderr, "sym: assertion failed: %s: %s\n", label, detail)
		os.Exit(3)
	}
}
func AssertKnown(c, in bool, label, detail, id string) {
	if !c && in {
		o := known
		known = id
		Assert(c, label, detail)
		known = o
	}
	Assert(c, label, detail)
}

var known string

// Known marks what follows as lying within the recorded finding id.
func Known(id string) { known = id }

func Stop()                  { os.Exit(0) }
func Reach(label string)     {}
func Concrete(x int64) int64 { return x }
func Fork(b bool) bool       { return b }
func Must(b bool) bool       { return b }
func Native() bool           { return true }
func Tier() int              { return int(next("tier")) }
func HangIsBug()             {}
func Settle()                { time.Sleep(50 * time.Millisecond) }
func Log(format string, args ...interface{}) {
	if os.Getenv("SYM_LOG") != "" {
		fmt.Printf("[log] "+format+"\n", args...)
	}
}
func Explore(preempts int) {}
func EndExplore()          {}

// Client names the calling goroutine for Yield.
func Client(id int) { register(id) }

// Yield is a point where another goroutine may go on; native runs follow the order of the
// counterexample as far as they can.
func Yield() { follow() }

// Turn is a Yield which does not count as a preemption but as one of Turns.
func Turn()       { follow() }
func Turns(n int) {}

// Cached returns what Store kept for the same key on another path; the computation in between must not
// depend on any input.
func Cached(key string) (string, bool) { return "", false }

func Store(key, value string) {}

// Stamp is a logical clock.
func Stamp() int { return int(atomic.AddInt64(&clock, 1)) }

var clock int64

// What follows must not synchronise goroutines, otherwise the race detector would see nothing.
var (
	order   []int
	at      int
	off     bool
	clients [64]struct {
		gid uint64
		id  int
	}
)

//go:norace
func gid() uint64 {
	var b [32]byte
	n := runtime.Stack(b[:], false)
	id := uint64(0)
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

//go:norace
func register(id int) {
	clients[id].gid = gid()
	clients[id].id = id
}

//go:norace
func follow() {
	g := gid()
	me := -1
	for i := range clients {
		if clients[i].gid == g {
			me = clients[i].id
		}
	}
	if me < 0 {
		return
	}
	for n := 0; !off && at < len(order); n++ {
		if order[at] == me {
			at++
			return
		}
		if n > 600 {
			off = true // somebody waits for a lock
			return
		}
		time.Sleep(100 * time.Microsecond)
	}
	if off {
		time.Sleep(time.Duration(g*7919%5) * 300 * time.Microsecond)
	}
}

func Observe(label string, vals ...interface{}) {
	if out == nil {
		return
	}
	var sb strings.Builder
	sb.WriteString(label)
	for _, v := range vals {
		sb.WriteByte(' ')
		switch x := v.(type) {
		case nil:
			sb.WriteString("nil")
		case string:
			fmt.Fprintf(&sb, "%q", x)
		case []byte:
			fmt.Fprintf(&sb, "%q", string(x))
		case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
			fmt.Fprint(&sb, x)
		default:
			sb.WriteString("?")
		}
	}
	sb.WriteByte('\n')
	out.WriteString(sb.String())
}

func Fill(n int64, b byte) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = b
	}
	return r
}

func Dir() string {
	dirs++
	d := fmt.Sprintf("%s/scratch%d", os.Getenv("SYM_SCRATCH"), dirs-1)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func Snap(path string) int {
	b, _ := ioutil.ReadFile(path)
	snaps = append(snaps, b)
	return len(snaps) - 1
}
func SnapLen(i int) int64           { return int64(len(snaps[i])) }
func Prefix(a, b int) bool          { return bytes.HasPrefix(snaps[b], snaps[a]) }
func Contains(a int, s string) bool { return bytes.Contains(snaps[a], []byte(s)) }
