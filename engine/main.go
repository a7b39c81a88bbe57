package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	fVerif   = flag.String("verif", "/verif", "framework directory")
	fRepo    = flag.String("repo", "/repo", "repository")
	fGo      = flag.String("go", "/opt/veriftools/go1.23.12/bin/go", "go command of the repository")
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSecs    = flag.Int("secs", 0, "exploration time limit in seconds")
	fRun     = flag.String("run", "", "only harnesses matching this regexp (development)")
	fPaths   = flag.Int("paths", 0, "path limit per harness (development)")
	fDev     = flag.Bool("dev", false, "development mode: print everything, write no evidence")
	fWorkers = flag.Int("j", 8, "workers")
	fReplay  = flag.String("replay", "", "replay file")
	fNoNat   = flag.Bool("nonative", false, "skip native confirmation (development)")
	fProf    = flag.String("cpuprofile", "", "")
	fZ3      = flag.String("z3", "z3", "solver binary")
	fWarm    = flag.Bool("warm", false, "build every harness natively once, to fill the build cache")
)

type known struct {
	id, text string
}

func loadKnown(verif, prop string) map[string]known {
	out := map[string]known{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	re := regexp.MustCompile(`^known: property=(\S+) id=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			out[m[2]] = known{m[2], m[3]}
		}
	}
	return out
}

type confirmed struct {
	harness string
	c       Candidate
	log     string
}

type checker struct {
	prop    string
	known   map[string]known
	nat     *Native
	mu      sync.Mutex
	queue   []confirmed
	pending int
	cond    *sync.Cond
	closed  bool
	viol    []confirmed
	found   map[string]confirmed // findings reproduced
	unconf  map[string]int
	unconfX map[string]string
	tried   map[string]int
	okGroup map[string]bool
	fid     struct{ ok, diff, skipped int }
	fidX    []string
	stopAll func()
	native  int
}

func (k *checker) submit(h string, c Candidate) {
	k.mu.Lock()
	defer k.mu.Unlock()
	key := h + "|" + c.kind + "|" + c.label + "|" + c.findID
	if k.okGroup[key] || k.tried[key] >= 6 {
		return
	}
	k.tried[key]++
	k.queue = append(k.queue, confirmed{harness: h, c: c})
	k.cond.Signal()
}

func (k *checker) worker(wg *sync.WaitGroup) {
	defer wg.Done()
	for {
		k.mu.Lock()
		for len(k.queue) == 0 && !k.closed {
			k.cond.Wait()
		}
		if len(k.queue) == 0 {
			k.mu.Unlock()
			return
		}
		it := k.queue[0]
		k.queue = k.queue[1:]
		key := it.harness + "|" + it.c.kind + "|" + it.c.label + "|" + it.c.findID
		if k.okGroup[key] || len(k.viol) > 0 {
			k.mu.Unlock()
			continue
		}
		k.mu.Unlock()
		<-k.nat.ready
		ok, log := false, ""
		if k.nat.err == nil {
			ok, log = k.nat.confirm(it.harness, it.c)
		} else {
			log = "no native build"
		}
		k.mu.Lock()
		if *fDev {
			fmt.Printf("candidate %s %s/%s find=%q confirmed=%v\n   msg: %s\n   inputs: %v\n   native: %s\n", it.harness, it.c.kind, it.c.label, it.c.findID, ok, it.c.msg, showInputs(it.c.inputs), trunc(log, 1500))
		}
		if ok {
			k.okGroup[key] = true
			it.log = log
			if _, isKnown := k.known[it.c.findID]; it.c.findID != "" && isKnown {
				k.found[it.c.findID] = it
			} else {
				k.viol = append(k.viol, it)
				if !*fDev {
					k.stopAll()
				}
			}
		} else {
			k.unconf[key]++
			k.unconfX[key] = trunc(it.c.msg, 200) + " || native: " + trunc(log, 200)
		}
		k.mu.Unlock()
	}
}

func showInputs(in []InputVal) string {
	// group bytes of strings
	var out []string
	re := regexp.MustCompile(`^(.*)\.(\d+)$`)
	for i := 0; i < len(in); i++ {
		if m := re.FindStringSubmatch(in[i].Label); m != nil && m[2] == "0" {
			var b []byte
			j := i
			for ; j < len(in); j++ {
				if in[j].Label != fmt.Sprintf("%s.%d", m[1], j-i) {
					break
				}
				b = append(b, byte(in[j].Val))
			}
			out = append(out, fmt.Sprintf("%s=%q", m[1], b))
			i = j - 1
			continue
		}
		out = append(out, fmt.Sprintf("%s=%d", in[i].Label, in[i].Val))
	}
	return strings.Join(out, " ")
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	if *fReplay != "" {
		os.Exit(replay())
	}
	if *fWarm {
		warm()
		return
	}
	os.Exit(check())
}

type replayFile struct {
	Property string     `json:"property"`
	Pkg      string     `json:"pkg"`
	Harness  string     `json:"harness"`
	Kind     string     `json:"kind"`
	Label    string     `json:"label"`
	Message  string     `json:"message"`
	FindID   string     `json:"find,omitempty"`
	Conc     bool       `json:"concurrent,omitempty"`
	Inputs   []InputVal `json:"inputs"`
	Readable string     `json:"inputs_readable"`
	Native   string     `json:"native_run"`
	How      string     `json:"how_to_replay"`
}

func replay() int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "symgo-")
	defer os.RemoveAll(tmp)
	n := &Native{verif: *fVerif, repo: *fRepo, goBin: *fGo, pkg: rf.Pkg, ready: make(chan struct{}), tmp: tmp}
	n.build(harnessFuncs(*fVerif, rf.Pkg), rf.Kind == "race")
	if n.err != nil {
		fmt.Println(n.err)
		return 2
	}
	ok, log := n.confirm(rf.Harness, Candidate{label: rf.Label, kind: rf.Kind, inputs: rf.Inputs, findID: rf.FindID, conc: rf.Conc})
	fmt.Println(log)
	if ok {
		fmt.Println("reproduced")
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

// warm fills the native build cache.
func warm() {
	ds, _ := filepath.Glob(filepath.Join(*fVerif, "harness", "c[0-9]*"))
	for _, d := range ds {
		tmp, err := os.MkdirTemp("", "symgo-")
		if err != nil {
			return
		}
		_, err = os.Stat(filepath.Join(d, "RACE"))
		pkg := filepath.Base(d)
		n := &Native{verif: *fVerif, repo: *fRepo, goBin: *fGo, pkg: pkg, ready: make(chan struct{}), tmp: tmp}
		n.build(harnessFuncs(*fVerif, pkg), err == nil)
		fmt.Println(pkg, n.err)
		os.RemoveAll(tmp)
	}
}

func check() int {
	t0 := time.Now()
	prop := *fProp
	pkg := strings.ToLower(prop)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	if *fTier == "thorough" {
		tierFlag = 1
	}
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	secs := *fSecs
	if secs == 0 {
		secs = 110
		if tierFlag == 1 {
			secs = 600
		}
	}
	tmp, err := os.MkdirTemp("", "symgo-")
	if err != nil {
		fmt.Println("cannot make scratch:", err)
		return 0
	}
	defer os.RemoveAll(tmp)
	funcs := harnessFuncs(*fVerif, pkg)
	nat := &Native{verif: *fVerif, repo: *fRepo, goBin: *fGo, pkg: pkg, ready: make(chan struct{}), tmp: tmp}
	race := false
	if bs, err := os.ReadFile(filepath.Join(*fVerif, "harness", pkg, "RACE")); err == nil && len(bs) >= 0 {
		race = true
	}
	if *fNoNat {
		nat.err = fmt.Errorf("native disabled")
		close(nat.ready)
	} else {
		go nat.build(funcs, race)
	}
	ev := &evidence{prop: prop, tier: *fTier, seed: seed, t0: t0}
	ov := harnessOverlay(*fVerif, *fRepo, pkg, "", nil)
	ld, err := Load(loadCfg{repo: *fRepo, stubs: filepath.Join(*fVerif, "stubs"), overlay: ov, goBin: *fGo, patterns: []string{"./internal/verifh/" + pkg}})
	if err != nil {
		fmt.Printf("NOTE: %s: the tree does not load, nothing was decided: %s\n", prop, trunc(err.Error(), 1500))
		ev.note = "the tree does not load: " + trunc(err.Error(), 1500)
		<-nat.ready
		ev.write(nil, nil, nil)
		return 0
	}
	tLoad := time.Since(t0)
	e := NewEngine(ld)
	ev.initNotes = e.initAll()
	tInit := time.Since(t0) - tLoad
	if *fDev {
		fmt.Printf("load %.1fs init %.1fs notes %d packages %d\n", tLoad.Seconds(), tInit.Seconds(), len(ev.initNotes), len(ld.order))
	}
	k := &checker{prop: prop, known: loadKnown(*fVerif, prop), nat: nat, found: map[string]confirmed{}, unconf: map[string]int{}, unconfX: map[string]string{}, tried: map[string]int{}, okGroup: map[string]bool{}}
	k.cond = sync.NewCond(&k.mu)
	var cwg sync.WaitGroup
	for i := 0; i < 2; i++ {
		cwg.Add(1)
		go k.worker(&cwg)
	}
	var ws []*Worker
	for i := 0; i < *fWorkers; i++ {
		s, err := NewSolver(*fZ3, 4000)
		if err != nil {
			fmt.Println("no solver:", err)
			return 0
		}
		defer s.Close()
		ws = append(ws, &Worker{id: i, sol: s})
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	var runs []*run
	var runRe *regexp.Regexp
	if *fRun != "" {
		runRe = regexp.MustCompile(*fRun)
	}
	var stopped bool
	var curMu sync.Mutex
	var cur *run
	k.stopAll = func() {
		curMu.Lock()
		stopped = true
		r := cur
		curMu.Unlock()
		if r != nil {
			go func() {
				r.mu.Lock()
				r.stop = true
				r.halt = true
				r.mu.Unlock()
				r.cond.Broadcast()
			}()
		}
	}
	hpkg := "github.com/pojntfx/stfs/internal/verifh/" + pkg
	for _, f := range funcs {
		if runRe != nil && !runRe.MatchString(f) {
			continue
		}
		fn := e.PkgFn(hpkg, f)
		if fn == nil {
			continue
		}
		r := newRun(e, fn, f, seed, time.Time{})
		r.maxPaths = *fPaths
		h := f
		r.onCand = func(c Candidate) { k.submit(h, c) }
		runs = append(runs, r)
	}
	// rounds: equal slices of what is left, so that cheap harnesses finish and the rest share the remainder
	for round := 0; round < 6 && !stopped; round++ {
		var todo []*run
		for _, r := range runs {
			if !r.exhausted {
				todo = append(todo, r)
			}
		}
		if len(todo) == 0 {
			break
		}
		left := time.Until(end)
		if left < 300*time.Millisecond {
			break
		}
		for i, r := range todo {
			if stopped {
				break
			}
			slice := time.Until(end) / time.Duration(len(todo)-i)
			if round == 0 && len(todo) > 1 {
				// first pass: keep part of the time back for those that need it
				slice = slice * 2 / 3
			}
			if slice < 200*time.Millisecond {
				continue
			}
			r.deadline = time.Now().Add(slice)
			curMu.Lock()
			cur = r
			curMu.Unlock()
			t := time.Now()
			r.explore(ws)
			r.spent += time.Since(t)
			curMu.Lock()
			cur = nil
			curMu.Unlock()
			if *fDev {
				r.print()
			}
			if *fPaths > 0 {
				r.exhausted = true
			}
		}
	}
	tExpl := time.Since(t0) - tLoad - tInit
	k.mu.Lock()
	k.closed = true
	k.cond.Broadcast()
	k.mu.Unlock()
	cwg.Wait()
	// fidelity: passing paths, replayed on the compiled code, must pass with the same observations
	<-nat.ready
	if nat.err == nil && len(k.viol) == 0 {
		k.fidelity(runs)
	}
	if nat.err != nil && !*fNoNat {
		fmt.Println("NOTE:", nat.err)
	}
	ev.tLoad, ev.tInit, ev.tExpl = tLoad, tInit, tExpl
	code := 0
	for id, f := range k.found {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, k.known[id].text)
		_ = f
	}
	rdir := filepath.Join(*fVerif, "evidence", "replays")
	if len(k.viol) > 0 && !*fDev {
		os.MkdirAll(rdir, 0o755)
		for i, v := range k.viol {
			pth := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, i))
			rf := replayFile{Property: prop, Pkg: pkg, Harness: v.harness, Kind: v.c.kind, Label: v.c.label, Message: v.c.msg, FindID: v.c.findID, Conc: v.c.conc, Inputs: v.c.inputs, Readable: showInputs(v.c.inputs), Native: v.log, How: "bash /verif/check.sh replay " + pth}
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(pth, b, 0o644)
			fmt.Printf("%s: %s %s: %s\n  inputs: %s\n", v.harness, v.c.kind, v.c.label, trunc(v.c.msg, 400), trunc(showInputs(v.c.inputs), 800))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, pth)
		}
		code = 1
	}
	if *fDev {
		fmt.Printf("violations %d, findings %d, unconfirmed %v\n", len(k.viol), len(k.found), k.unconf)
		for kk, x := range k.unconfX {
			fmt.Println("  unconfirmed", kk, x)
		}
		fmt.Printf("fidelity ok %d diff %d skipped %d\n", k.fid.ok, k.fid.diff, k.fid.skipped)
		for _, x := range k.fidX {
			fmt.Println("  ", x)
		}
		var q int64
		var d time.Duration
		for _, w := range ws {
			q += w.sol.queries
			d += w.sol.dur
		}
		fmt.Printf("queries %d solver %.1fs wall %.1fs native runs %d\n", q, d.Seconds(), time.Since(t0).Seconds(), nat.runs)
		if len(k.viol) > 0 {
			code = 1
		}
		return code
	}
	ev.write(runs, ws, k)
	return code
}

func (r *run) print() {
	fmt.Printf("%-28s paths %d done %d infeasible %d budget %d time %d left %d exhausted %v asserts %d proved %d conc %d unknown %d depth %d steps %.1fM %.1fs\n", r.name, r.paths, r.completed, r.infeasible, r.budgetN, r.timeN, len(r.jobs), r.exhausted, r.asserts, r.proved, r.concN, r.unknown, r.maxDepth, float64(r.steps)/1e6, r.spent.Seconds())
	for _, s := range sortedCounts(r.unsupp, 12) {
		fmt.Println("    unsupported:", trunc(s, 600))
	}
	for _, f := range sortedCounts(r.forks, 25) {
		fmt.Println("    forks:", f)
	}
	if len(r.reach) > 0 {
		fmt.Println("    reach:", strings.Join(sortedCounts(r.reach, 40), ", "))
	}
}

// fidelity replays passing paths natively; differing observations are engine infidelities to report.
func (k *checker) fidelity(runs []*run) {
	max := 4
	if tierFlag == 1 {
		max = 12
	}
	type job struct {
		r *run
		s sample
	}
	var jobs []job
	for _, r := range runs {
		for i, s := range r.samples {
			if i < max {
				jobs = append(jobs, job{r, s})
			}
		}
	}
	if len(jobs) > 60 && tierFlag == 0 {
		jobs = jobs[:60]
	}
	dl := time.Now().Add(20 * time.Second)
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, j := range jobs {
		if time.Now().After(dl) {
			break
		}
		wg.Add(1)
		sem <- true
		go func(j job) {
			defer func() { <-sem; wg.Done() }()
			nr := k.nat.exec(k.nat.bin, j.r.name, j.s.inputs, "", k.nat.limit())
			k.mu.Lock()
			defer k.mu.Unlock()
			switch {
			case nr.code == 0 && nr.obs == j.s.obs:
				k.fid.ok++
			case nr.code == 8, nr.code == 4: // an assumption that only the model satisfies (lengths of encoded streams)
				k.fid.skipped++
			default:
				k.fid.diff++
				if len(k.fidX) < 8 {
					k.fidX = append(k.fidX, fmt.Sprintf("%s: exit %d timeout=%v %s; inputs %s; symbolic obs %s; native obs %s", j.r.name, nr.code, nr.timeout, trunc(nr.stderr, 600), trunc(showInputs(j.s.inputs), 400), trunc(j.s.obs, 500), trunc(nr.obs, 500)))
				}
			}
		}(j)
	}
	wg.Wait()
}

type evidence struct {
	prop, tier          string
	seed                int64
	t0                  time.Time
	note                string
	initNotes           []string
	tLoad, tInit, tExpl time.Duration
}

func (ev *evidence) write(runs []*run, ws []*Worker, k *checker) {
	cov := map[string]any{}
	var q, sat, uns, unk int64
	var d, mx time.Duration
	for _, w := range ws {
		q += w.sol.queries
		sat += w.sol.sat
		uns += w.sol.unsat
		unk += w.sol.unknown
		d += w.sol.dur
		if w.sol.maxQ > mx {
			mx = w.sol.maxQ
		}
	}
	states, trans := 0, int64(0)
	var hs []any
	var samples []any
	var incomplete []string
	var asserts, proved, conc int64
	for _, r := range runs {
		states += r.paths
		trans += r.steps
		asserts += r.asserts
		proved += r.proved
		conc += r.concN
		h := map[string]any{"harness": r.name, "paths": r.paths, "completed": r.completed, "infeasible": r.infeasible, "exhausted": r.exhausted, "paths_left": len(r.jobs), "assertions_met": r.asserts, "assertions_decided_by_solver_or_domain": r.proved, "assertions_constant": r.concN, "solver_unknown": r.unknown, "instructions": r.steps, "max_decisions": r.maxDepth, "seconds": round2(r.spent.Seconds()), "reached": r.reach}
		if len(r.unsupp) > 0 {
			h["incomplete_paths"] = sortedCounts(truncKeys(r.unsupp), 5)
		}
		hs = append(hs, h)
		if !r.exhausted {
			incomplete = append(incomplete, r.name)
		}
		for i, s := range r.samples {
			if i < 1 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": r.name, "inputs": trunc(showInputs(s.inputs), 500), "observed": trunc(s.obs, 500)})
			}
		}
	}
	var fns []string
	if len(runs) > 0 {
		runs[0].eng.used.Range(func(k, v any) bool {
			n := k.(string)
			if !strings.Contains(n, "/verifh/") {
				fns = append(fns, strings.ReplaceAll(n, "github.com/pojntfx/stfs/", ""))
			}
			return true
		})
	}
	sort.Strings(fns)
	cov["explanation"] = "bounded symbolic execution of the real code: states = symbolic paths, transitions = SSA instructions (blocks+instructions) executed symbolically; each path stands for every input value satisfying its path condition, assertions are decided by z3 over all of them"
	cov["states"] = states
	cov["transitions"] = trans
	cov["exhaustive"] = len(incomplete) == 0 && len(runs) > 0
	cov["harnesses"] = hs
	cov["not_exhausted"] = incomplete
	cov["functions_encoded"] = len(fns)
	cov["functions"] = fns
	cov["queries"] = map[string]any{"discharged": q, "sat": sat, "unsat": uns, "unknown": unk, "solver_s": round2(d.Seconds()), "max_query_s": round2(mx.Seconds()), "solver": *fZ3}
	cov["assertions"] = map[string]any{"met": asserts, "decided_valid": proved, "constant_true": conc}
	cov["load_s"], cov["init_s"], cov["explore_s"] = round2(ev.tLoad.Seconds()), round2(ev.tInit.Seconds()), round2(ev.tExpl.Seconds())
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	cov["samples"] = samples
	if b, err := os.ReadFile(filepath.Join(*fVerif, "harness", strings.ToLower(ev.prop), "BOUNDS")); err == nil {
		cov["bounds"] = trunc(string(b), 6000)
	}
	viol := 0
	cov["traces_validated_against_impl"] = 0
	if k != nil {
		viol = len(k.viol)
		cov["traces_validated_against_impl"] = k.fid.ok
		cov["native_replays"] = map[string]any{"runs": k.nat.runs, "agreeing": k.fid.ok, "differing": k.fid.diff, "skipped": k.fid.skipped, "differences": k.fidX}
		var un []string
		for kk, n := range k.unconf {
			un = append(un, fmt.Sprintf("%dx %s: %s", n, kk, trunc(k.unconfX[kk], 300)))
		}
		sort.Strings(un)
		if len(un) > 10 {
			un = un[:10]
		}
		cov["unconfirmed_candidates"] = un
		var fl []string
		for id := range k.found {
			fl = append(fl, id)
		}
		sort.Strings(fl)
		cov["known_findings_reproduced"] = fl
	}
	if ev.note != "" {
		cov["note"] = ev.note
	}
	out := map[string]any{"property": ev.prop, "tier": ev.tier, "seed": ev.seed, "level": "model_checking", "coverage": cov, "wall_s": round2(time.Since(ev.t0).Seconds()), "violations": viol,
		"assumptions": []string{"the Go standard library's tar, bytes, strings, path and similar packages run as their real source; os, database/sql+sqlite, compression and cryptographic libraries are replaced by the models in /verif/stubs and /verif/engine", "SSA construction by golang.org/x/tools and the z3 solver are trusted; every reported violation is first replayed on the compiled code"}}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", ev.prop+".json"), b, 0o644)
}

func truncKeys(m map[string]int) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		o[trunc(k, 300)] += v
	}
	return o
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }
