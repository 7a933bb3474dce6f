package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- registration

// Suite is a numbered family of cases of one property.
type Suite struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(t *T)
}

// Prop is one property with its suites.
type Prop struct {
	ID     string
	Rule   string // how cases are made and what makes one non-trivial
	Suites []Suite
	// Floors: observations that must have been made, otherwise the run is inconclusive.
	Floors []string
	// Assume: what the verdict rests on.
	Assume []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ------------------------------------------------------------------ case state

type violation struct {
	Suite  string
	Idx    int
	Msg    string
	Detail string
}

// T is the context of one running case.
type T struct {
	*Rng
	w     *worker
	suite *Suite
	idx   int
	note  []string
	// inputs of this case that were judged as non-trivial
	judged int
	// giant readers and texts (giants.go)
	giant bool
	gText string
}

// Failf reports a violation and ends the case.
func (t *T) Failf(format string, a ...interface{}) {
	panic(&violation{Suite: t.suite.Name, Idx: t.idx, Msg: fmt.Sprintf(format, a...), Detail: strings.Join(t.note, "\n")})
}

// Notef describes the case for the replay file.
func (t *T) Notef(format string, a ...interface{}) {
	t.note = append(t.note, fmt.Sprintf(format, a...))
}

// Obs counts a monitored observation.
func (t *T) Obs(name string) { t.w.obs[name]++ }

func (t *T) ObsN(name string, n int) { t.w.obs[name] += int64(n) }

// Distinct registers a non-trivial case by its identity.
func (t *T) Distinct(parts ...string) {
	t.judged++
	if len(t.w.seen) < 400000 {
		t.w.seen[hash64(parts...)] = true
	}
}

// Sample keeps a few written out cases.
func (t *T) Sample(format string, a ...interface{}) {
	if t.w.shard == 0 && len(t.w.samples) < 6 && t.w.sampleGap(t.idx) {
		t.w.samples = append(t.w.samples, fmt.Sprintf(format, a...))
	}
}

// Known reports behaviour that is a listed finding: it is counted, any other
// behaviour has to be reported with Failf.
func (t *T) Known(id, what string) {
	if !t.w.known[id] {
		t.Failf("finding %s (%s) is not listed as known", id, what)
	}
	t.w.knownHit[id]++
}

type worker struct {
	prop     *Prop
	seed     uint64
	shard    int
	shards   int
	tier     string
	obs      map[string]int64
	seen     map[uint64]bool
	samples  []string
	known    map[string]bool
	knownHit map[string]int64
	evals    int64
	viol     *violation
	cut      map[string]int
	lastSamp int
}

func (w *worker) sampleGap(idx int) bool {
	if w.lastSamp != 0 && idx < w.lastSamp*3 {
		return false
	}
	w.lastSamp = idx + 1
	return true
}

// ------------------------------------------------------------------- watchdog

// State of the running case for the watchdog (logical case number, not time,
// identifies the case; CPU time, not wall time, decides a hang).
var curSuite, curIdx, curGen int64

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const (
	hangCPU   = 25.0 // CPU seconds for one case; the slowest legal case takes well under one
	hangTicks = 1500 // watchdog ticks (0.2 s each, counted) without finishing and without using CPU
	maxHeapMB = 2000
	softCap   = 600 * time.Second // quick tier, per worker; an ordinary run takes a tenth of it
)

func (w *worker) watchdog() {
	lastGen := int64(-1)
	startCPU := 0.0
	ticks := 0
	for {
		time.Sleep(200 * time.Millisecond)
		g := atomic.LoadInt64(&curGen)
		if g != lastGen {
			lastGen, startCPU, ticks = g, cpuSeconds(), 0
			continue
		}
		if g == 0 {
			continue
		}
		ticks++
		used := cpuSeconds() - startCPU
		why := ""
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		switch {
		case used > hangCPU*raceFactor:
			why = fmt.Sprintf("no result after %.0f CPU seconds in one case", used)
		case ticks > hangTicks && used < 5:
			why = "blocked: the case neither finishes nor uses CPU"
		case ms.HeapAlloc > maxHeapMB<<20:
			why = fmt.Sprintf("memory of one case exceeds %d MB", maxHeapMB)
		}
		if why != "" {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			w.viol = &violation{Suite: w.prop.Suites[atomic.LoadInt64(&curSuite)].Name, Idx: int(atomic.LoadInt64(&curIdx)),
				Msg: why, Detail: string(buf)}
			w.emit(os.Stdout, true)
			os.Exit(0)
		}
	}
}

func (w *worker) runCase(si, idx int) (v *violation) {
	s := &w.prop.Suites[si]
	atomic.StoreInt64(&curSuite, int64(si))
	atomic.StoreInt64(&curIdx, int64(idx))
	atomic.AddInt64(&curGen, 1)
	t := &T{w: w, suite: s, idx: idx, Rng: &Rng{hash64(strconv.FormatUint(w.seed, 10), w.prop.ID, s.Name, strconv.Itoa(idx))}}
	defer func() {
		if x := recover(); x != nil {
			if vv, ok := x.(*violation); ok {
				v = vv
				return
			}
			v = &violation{Suite: s.Name, Idx: idx, Msg: fmt.Sprintf("panic: %v", x),
				Detail: strings.Join(t.note, "\n") + "\n" + string(debug.Stack())}
		}
	}()
	s.Run(t)
	w.evals += int64(imax(1, t.judged))
	return nil
}

type workerOut struct {
	Evals    int64
	Obs      map[string]int64
	Samples  []string
	KnownHit map[string]int64
	Viol     *violation
	Hashes   int
	Cut      map[string]int // suites cut short by the soft deadline: cases not run
}

func (w *worker) emit(f *os.File, aborted bool) {
	b := bufio.NewWriterSize(f, 1<<20)
	out := workerOut{w.evals, w.obs, w.samples, w.knownHit, w.viol, len(w.seen), w.cut}
	if aborted { // the case goroutine may still be writing the maps
		out = workerOut{Viol: w.viol}
	}
	j, _ := json.Marshal(out)
	b.Write(j)
	b.WriteByte('\n')
	if !aborted {
		var x [8]byte
		for h := range w.seen {
			binary.LittleEndian.PutUint64(x[:], h)
			b.Write(x[:])
		}
	}
	b.Flush()
}

// Cases of the quick tier are scaled for properties whose cases are cheap;
// suites with the same size in both tiers are enumerations.
var quickScale = map[string]int{"C01": 24, "C02": 20, "C03": 20, "C04": 3, "C05": 2, "C06": 2, "C07": 16, "C08": 3, "C09": 20,
	"C10": 3, "C11": 10, "C12": 10, "C13": 4, "C14": 2, "C15": 6, "C16": 2, "C17": 3, "C19": 2, "C20": 2, "C21": 8, "C22": 30, "C23": 2, "C24": 3}

func suiteSize(p *Prop, s Suite, tier string) int {
	if s.Quick == s.Thorough || tier == "thorough" {
		return s.Thorough
	}
	if f := quickScale[p.ID]; f > 0 {
		return imin(s.Quick*f, s.Thorough)
	}
	return s.Quick
}

func (w *worker) run() {
	debug.SetMaxStack(512 << 20)
	go w.watchdog()
	start := time.Now()
	for si := range w.prop.Suites {
		n := suiteSize(w.prop, w.prop.Suites[si], w.tier)
		// On a machine that is far slower than the one this was built on, the
		// quick tier runs fewer cases of every suite instead of giving no answer.
		deadline := softCap/2 + softCap/2*time.Duration(si+1)/time.Duration(len(w.prop.Suites))
		for idx := w.shard; idx < n; idx += w.shards {
			if w.tier != "thorough" && idx != w.shard && time.Since(start) > deadline {
				w.cut[w.prop.Suites[si].Name] += (n - idx + w.shards - 1) / w.shards
				break
			}
			v := w.runCase(si, idx)
			if v != nil {
				w.viol = v
				w.emit(os.Stdout, false)
				return
			}
		}
	}
	atomic.StoreInt64(&curGen, 0)
	w.emit(os.Stdout, false)
}

// --------------------------------------------------------------------- driver

func die(code int, format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(code)
}

type finding struct{ id, prop, what string }

// Known findings file: lines "finding: property=<id> id=<name> <what>" and
// "fixed: property=<id> <commit> <what>". Only the first kind matters here.
func loadFindings(path string) []finding {
	res := []finding{}
	data, err := os.ReadFile(path)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := finding{}
		fs := strings.Fields(l)
		for _, x := range fs[1:] {
			if strings.HasPrefix(x, "property=") && f.prop == "" {
				f.prop = x[9:]
			} else if strings.HasPrefix(x, "id=") && f.id == "" {
				f.id = x[3:]
			} else {
				f.what += " " + x
			}
		}
		f.what = strings.TrimSpace(f.what)
		res = append(res, f)
	}
	return res
}

type replayFile struct {
	Property string `json:"property"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Suite    string `json:"suite"`
	Case     int    `json:"case"`
	Message  string `json:"message"`
	Detail   string `json:"detail"`
}

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: harness check|worker|replay|list ...")
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	dict = harvest(repo)
	switch os.Args[1] {
	case "list":
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "worker":
		// worker PROP TIER SEED SHARD SHARDS
		p := props[os.Args[2]]
		seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
		shard, _ := strconv.Atoi(os.Args[5])
		shards, _ := strconv.Atoi(os.Args[6])
		w := newWorker(p, os.Args[3], seed, shard, shards, verif)
		w.run()
	case "replay":
		data, err := os.ReadFile(os.Args[2])
		if err != nil {
			die(2, "%v", err)
		}
		rf := replayFile{}
		if err := json.Unmarshal(data, &rf); err != nil {
			die(2, "%v", err)
		}
		p := props[rf.Property]
		w := newWorker(p, rf.Tier, rf.Seed, 0, 1, verif)
		go w.watchdog()
		for si := range p.Suites {
			if p.Suites[si].Name == rf.Suite {
				if v := w.runCase(si, rf.Case); v != nil {
					fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", v.Msg, v.Detail, p.ID, os.Args[2])
					os.Exit(1)
				}
			}
		}
		fmt.Println("the case passes")
	case "check":
		os.Exit(check(os.Args[2], verif))
	}
}

func newWorker(p *Prop, tier string, seed uint64, shard, shards int, verif string) *worker {
	w := &worker{prop: p, tier: tier, seed: seed, shard: shard, shards: shards,
		obs: map[string]int64{}, seen: map[uint64]bool{}, known: map[string]bool{}, knownHit: map[string]int64{}, cut: map[string]int{}}
	for _, f := range loadFindings(filepath.Join(verif, "KNOWN_FINDINGS.txt")) {
		if f.prop == p.ID {
			w.known[f.id] = true
		}
	}
	return w
}

func check(id, verif string) int {
	p := props[id]
	if p == nil {
		die(2, "unknown property %s", id)
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die(2, "bad VERIF_SEED %q", s)
		}
		seed = uint64(v)
	}
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if shards < 1 {
		shards = 1
	}
	wallCap := 800 * time.Second
	if tier == "thorough" {
		wallCap = 3 * time.Hour
	}
	self, _ := os.Executable()
	outs := make([]*workerOut, shards)
	errs := make([]string, shards)
	hashes := map[uint64]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(self, "worker", id, tier, strconv.FormatUint(seed, 10), strconv.Itoa(i), strconv.Itoa(shards))
			cmd.Env = append(os.Environ(), "GOMAXPROCS="+workerProcs, "GOTRACEBACK=single")
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			if err := cmd.Start(); err != nil {
				errs[i] = err.Error()
				return
			}
			done := make(chan struct{})
			timedOut := int32(0)
			go func() {
				select {
				case <-done:
				case <-stop:
					// another worker has a violation: let this one go on for a moment, then end it
					select {
					case <-done:
					case <-time.After(2 * time.Second):
						cmd.Process.Kill()
					}
				case <-time.After(wallCap):
					atomic.StoreInt32(&timedOut, 1)
					cmd.Process.Kill()
				}
			}()
			err := cmd.Wait()
			close(done)
			nl := bytes.IndexByte(so.Bytes(), '\n')
			if nl >= 0 {
				o := &workerOut{}
				if json.Unmarshal(so.Bytes()[:nl], o) == nil {
					rest := so.Bytes()[nl+1:]
					mu.Lock()
					for j := 0; j+8 <= len(rest); j += 8 {
						hashes[binary.LittleEndian.Uint64(rest[j:])] = true
					}
					outs[i] = o
					mu.Unlock()
					if o.Viol != nil {
						once.Do(func() { close(stop) })
					}
				}
			}
			tail := se.String()
			if len(tail) > 6000 {
				tail = tail[:3000] + "\n...\n" + tail[len(tail)-3000:]
			}
			if strings.Contains(tail, "WARNING: DATA RACE") {
				mu.Lock()
				if outs[i] == nil {
					outs[i] = &workerOut{}
				}
				if outs[i].Viol == nil {
					outs[i].Viol = &violation{Suite: "race-detector", Idx: i, Msg: "data race reported by the race detector", Detail: tail}
				}
				mu.Unlock()
			} else if outs[i] == nil {
				if atomic.LoadInt32(&timedOut) == 1 {
					errs[i] = "worker exceeded the wall clock cap (inconclusive)"
				} else if err != nil {
					errs[i] = fmt.Sprintf("%v\n%s", err, tail)
				} else {
					errs[i] = "worker gave no result\n" + tail
				}
			}
		}(i)
	}
	wg.Wait()

	// merge
	total := workerOut{Obs: map[string]int64{}, KnownHit: map[string]int64{}, Cut: map[string]int{}}
	var viol *violation
	for _, o := range outs {
		if o == nil {
			continue
		}
		total.Evals += o.Evals
		for k, v := range o.Obs {
			total.Obs[k] += v
		}
		for k, v := range o.KnownHit {
			total.KnownHit[k] += v
		}
		for k, v := range o.Cut {
			total.Cut[k] += v
		}
		total.Samples = append(total.Samples, o.Samples...)
		if o.Viol != nil && (viol == nil || o.Viol.Suite < viol.Suite || o.Viol.Suite == viol.Suite && o.Viol.Idx < viol.Idx) {
			viol = o.Viol
		}
	}
	// A worker that died without a verdict: a fatal runtime error of the code
	// under test (stack overflow, concurrent map write, deadlock) is a violation.
	inconclusive := ""
	for i, e := range errs {
		if e == "" {
			continue
		}
		if viol == nil && strings.Contains(e, "github.com/aiq/tok") && (strings.Contains(e, "stack overflow") || strings.Contains(e, "fatal error:") || strings.Contains(e, "panic:")) ||
			viol == nil && (strings.Contains(e, "stack exceeds") || strings.Contains(e, "fatal error: concurrent map") || strings.Contains(e, "fatal error: all goroutines")) {
			viol = &violation{Suite: "fatal", Idx: i, Msg: "fatal runtime error in the code under test", Detail: e}
			continue
		}
		inconclusive = e
	}
	if viol == nil && inconclusive == "" && len(total.Cut) == 0 {
		for _, fl := range p.Floors {
			if total.Obs[fl] == 0 {
				inconclusive = "nothing observed for " + fl
			}
		}
	}

	nViol := 0
	if viol != nil {
		nViol = 1
	}
	level := "exploration"
	assume := append([]string{"the verdict is about the executions of this run only"}, p.Assume...)
	if total.Samples == nil {
		total.Samples = []string{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": int64(seed), "level": level,
		"coverage": map[string]interface{}{
			"evaluations":         total.Evals,
			"distinct_nontrivial": len(hashes),
			"rule":                p.Rule,
			"samples":             total.Samples,
			"observations":        total.Obs,
			"known_findings_hit":  total.KnownHit,
			"suites":              suiteList(p, tier),
			"cases_cut_for_time":  total.Cut,
			"workers":             shards,
			"exhaustive":          false,
		},
		"assumptions": assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nViol,
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	os.Remove(filepath.Join(evDir, "replay-"+id+".json"))
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, id+".json"), append(j, '\n'), 0o644); err != nil {
		die(2, "%v", err)
	}

	for _, f := range loadFindings(filepath.Join(verif, "KNOWN_FINDINGS.txt")) {
		if f.prop == id && total.KnownHit[f.id] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times)\n", id, f.what, total.KnownHit[f.id])
		}
	}
	if viol != nil {
		rp := filepath.Join(evDir, "replay-"+id+".json")
		rf := replayFile{id, seed, tier, viol.Suite, viol.Idx, viol.Msg, viol.Detail}
		j, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(rp, append(j, '\n'), 0o644)
		fmt.Printf("%s case %d: %s\n%s\n", viol.Suite, viol.Idx, viol.Msg, clip(viol.Detail, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", id, inconclusive)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", id, tier, total.Evals, len(hashes), time.Since(start).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func suiteList(p *Prop, tier string) map[string]int {
	m := map[string]int{}
	for _, s := range p.Suites {
		m[s.Name] = suiteSize(p, s, tier)
	}
	return m
}
