package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var debugFlag = os.Getenv("SYMGO_DEBUG") != ""
var forkProf = os.Getenv("SYMGO_FORKS") == "1"
var traceFlag = os.Getenv("SYMGO_TRACE") != ""

// Job is one unexplored execution prefix.
type Job struct {
	dec   []Decision
	mod   Model
	depth int
}

type Worker struct {
	id    int
	run   *run
	sol   *Solver
	stats struct{ domFree int }
	gwg   sync.WaitGroup
	fatal chan any
}

type sample struct {
	inputs []InputVal
	obs    string
}

// run explores one harness function.
type run struct {
	cache sync.Map
	eng      *Engine
	fn       *Fn
	name     string
	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []*Job
	active   int
	stop     bool
	deadline time.Time
	start    time.Time
	rng      *rand.Rand
	budget   int64

	paths      int
	completed  int
	infeasible int
	budgetN    int
	timeN      int
	unsupp     map[string]int
	unknown    int64
	asserts    int64
	proved     int64
	concN      int64
	steps      int64
	maxDepth   int
	reach      map[string]int
	cands      []Candidate
	candKeys   map[string]int
	samples    []sample
	onCand     func(c Candidate)
	exhausted  bool
	left       int
	nsample    int
	maxPaths   int
	begun      bool
	halt       bool
	spent      time.Duration
	forks      map[string]int
}

func (r *run) addUnknown() { atomic.AddInt64(&r.unknown, 1) }

func (r *run) push(j *Job) {
	r.mu.Lock()
	r.jobs = append(r.jobs, j)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *run) addCandidate(c Candidate) {
	r.mu.Lock()
	k := c.kind + "|" + c.label + "|" + c.findID
	r.candKeys[k]++
	n := r.candKeys[k]
	if n <= 40 {
		r.cands = append(r.cands, c)
	}
	r.mu.Unlock()
	if n <= 40 && r.onCand != nil {
		r.onCand(c)
	}
}

// next takes a job; nil when the run is over.
func (r *run) next() *Job {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop || time.Now().After(r.deadline) || (r.maxPaths > 0 && r.paths >= r.maxPaths) {
			r.stop = true
			r.cond.Broadcast()
			return nil
		}
		if n := len(r.jobs); n > 0 {
			i := n - 1
			// mix depth-first with uniformly random picks for coverage under a time limit
			if r.rng.Intn(2) == 0 {
				i = r.rng.Intn(n)
			}
			j := r.jobs[i]
			r.jobs[i] = r.jobs[n-1]
			r.jobs = r.jobs[:n-1]
			r.active++
			r.paths++
			return j
		}
		if r.active == 0 {
			r.exhausted = true
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *run) finish(p *Path, kind, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.active--
	r.asserts += p.asserts
	r.proved += p.proved
	r.concN += p.concN
	r.steps += p.steps
	if len(p.dec) > r.maxDepth {
		r.maxDepth = len(p.dec)
	}
	for k := range p.reach {
		r.reach[k]++
	}
	switch kind {
	case "done":
		r.completed++
	case "infeasible":
		r.infeasible++
	case "budget":
		r.budgetN++
		r.unsupp["budget: "+msg]++
	case "time":
		r.timeN++
		r.jobs = append(r.jobs, p.job)
	case "unsupported":
		r.unsupp[msg]++
	}
	if r.active == 0 && len(r.jobs) == 0 {
		r.cond.Broadcast()
	}
}

func newRun(e *Engine, fn *Fn, name string, seed int64, dl time.Time) *run {
	r := &run{eng: e, fn: fn, name: name, deadline: dl, start: time.Now(), rng: rand.New(rand.NewSource(seed)), budget: 60e6,
		unsupp: map[string]int{}, reach: map[string]int{}, candKeys: map[string]int{}}
	r.cond = sync.NewCond(&r.mu)
	return r
}

func (r *run) explore(ws []*Worker) {
	if !r.begun {
		r.begun = true
		r.jobs = append(r.jobs, &Job{mod: Model{}})
	}
	r.stop = r.halt
	tm := time.AfterFunc(time.Until(r.deadline)+time.Millisecond, func() {
		r.mu.Lock()
		r.stop = true
		r.mu.Unlock()
		r.cond.Broadcast()
	})
	defer tm.Stop()
	var wg sync.WaitGroup
	for _, w := range ws {
		w.run = r
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				j := r.next()
				if j == nil {
					return
				}
				w.runPath(j)
			}
		}(w)
	}
	wg.Wait()
	r.left = len(r.jobs)
}

func (e *Engine) newPath(w *Worker, j *Job) *Path {
	p := &Path{eng: e, w: w, tc: NewTermCtx(), job: j, dec: j.dec[:len(j.dec):len(j.dec)],
		know: map[*Term]bool{}, bnd: map[*Term][2]int64{}, dom: map[*Term]*[4]uint64{}, link: map[*Term]bool{},
		globals: map[*Glob]*StructV{}, memo: map[any]any{}, locks: map[lockKey]*mutexState{}, wgs: map[lockKey]*wgState{},
		misc: map[lockKey]any{}, reach: map[string]bool{}, dbs: map[string]*DB{}, exts: map[string]any{}, finding: map[string]bool{}}
	if w != nil {
		p.sol = w.sol
		p.budget = w.run.budget
	}
	p.clock = 1700000000
	p.vfs = newVFS()
	if j.mod == nil {
		j.mod = Model{}
	}
	p.setModel(j.mod)
	return p
}

func (w *Worker) runPath(j *Job) {
	p := w.run.eng.newPath(w, j)
	w.sol.BeginPath()
	w.fatal = make(chan any, 1)
	g := p.newGor("main")
	g.main = true
	g.started = true
	p.cur = g
	w.gwg.Add(1)
	type mainDone struct{}
	g.start = func() { g.Call(nil, w.run.fn, nil, nil, nil) }
	go func() {
		defer w.gwg.Done()
		defer func() {
			r := recover()
			g.done = true
			if r == nil {
				p.fail(mainDone{})
				return
			}
			if pa, ok := r.(pathAbort); ok && pa.kind == "killed" {
				return
			}
			if _, ok := r.(*goPanic); !ok {
				if _, ok := r.(pathAbort); !ok {
					r = fmt.Sprintf("engine panic: %v\n%s", r, debug.Stack())
				}
			}
			p.fail(r)
		}()
		g.start()
	}()
	r := <-w.fatal
	// end all other goroutines
	for _, o := range p.gors {
		if o.started && !o.done {
			select {
			case o.wake <- false:
			default:
			}
		}
	}
	w.gwg.Wait()
	kind, msg := "done", ""
	switch x := r.(type) {
	case mainDone:
	case *goPanic:
		kind = "panic"
		msg = p.panicMsg(x)
		p.addCand(Candidate{label: "panic", kind: "panic", msg: msg, findID: p.curFinding}, p.mod)
	case pathAbort:
		kind, msg = x.kind, x.msg
		switch kind {
		case "deadlock":
			p.addCand(Candidate{label: "deadlock", kind: "deadlock", msg: msg, findID: p.curFinding}, p.mod)
		case "fatal":
			p.addCand(Candidate{label: "fatal", kind: "panic", msg: msg, findID: p.curFinding}, p.mod)
		case "exit":
			kind = "done"
		}
		if kind == "budget" && p.hangIsBug {
			p.addCand(Candidate{label: "hang", kind: "deadlock", msg: msg, findID: p.curFinding}, p.mod)
		}
	case string:
		kind, msg = "unsupported", firstLine(x)
		if debugFlag {
			fmt.Fprintln(os.Stderr, x)
		}
	case solverDied:
		kind, msg = "unsupported", "solver died"
		w.sol.Restart()
	default:
		kind, msg = "unsupported", fmt.Sprint(r)
	}
	if traceFlag {
		fmt.Fprintf(os.Stderr, "path %s %s dec=%d steps=%d inputs=%v\n", kind, msg, len(p.dec), p.steps, p.inputVals(p.mod))
		if p.cur != nil && p.cur.fr != nil && kind != "done" {
			fmt.Fprintf(os.Stderr, "   at %s\n", p.cur.fr.where())
		}
	}
	if kind == "unsupported" && p.cur != nil && p.cur.fr != nil {
		msg += " @ " + p.cur.fr.where()
	}
	if kind == "done" && len(p.cands) == 0 {
		w.run.mu.Lock()
		n := w.run.nsample
		w.run.nsample++
		take := n < 12 || w.run.rng.Intn(n) < 12
		w.run.mu.Unlock()
		if take && (!p.everConc || p.yielded()) {
			s := sample{inputs: p.inputVals(p.mod), obs: p.evalObs()}
			w.run.mu.Lock()
			if len(w.run.samples) < 12 {
				w.run.samples = append(w.run.samples, s)
			} else {
				w.run.samples[w.run.rng.Intn(12)] = s
			}
			w.run.mu.Unlock()
		}
	}
	w.run.finish(p, kind, msg)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (p *Path) panicMsg(x *goPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic at " + x.where
		}
	}()
	fr := &Frame{p: p, g: p.newGor("fmt")}
	s = "panic"
	if x.v.P != nil {
		if ifc, ok := x.v.P.(*Iface); ok {
			if c, ok := concStr(p.fmtValue(fr, Value{P: ifc}, 'v', "")); ok {
				s = "panic: " + c
			}
		}
	}
	return s + " at " + x.where
}

func sortedCounts(m map[string]int, max int) []string {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range m {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].n != l[j].n {
			return l[i].n > l[j].n
		}
		return l[i].k < l[j].k
	})
	var out []string
	for i, x := range l {
		if i >= max {
			break
		}
		out = append(out, fmt.Sprintf("%dx %s", x.n, x.k))
	}
	return out
}

var _ = json.Marshal

// yielded tells whether native runs can follow the schedule of the path.
func (p *Path) yielded() bool {
	for _, iv := range p.inputs {
		if iv.label == "@yield" {
			return true
		}
	}
	return false
}
