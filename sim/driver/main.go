// Command driver decides one property: it builds the simulated system from
// /repo's working tree, runs seeded executions on a pool of worker processes,
// confirms and minimises what fails, and writes the evidence file.
//
// Exit status: 0 held, 1 violated (with a VIOLATION line), 2 the check itself
// could not run.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	goCmd  = "go1.26"
	goRoot = "/opt/veriftools/go1.26.10"
)

// PropConf is an entry of props.json.
type PropConf struct {
	Harness   string            `json:"harness"`
	Deps      []string          `json:"deps"`
	Stubs     []string          `json:"stubs"`
	Race      bool              `json:"race"`
	QuickS    int               `json:"quick_s"`
	ThoroughS int               `json:"thorough_s"`
	BatchMs   int64             `json:"batch_ms"`
	Rule      string            `json:"rule"`
	Real      []string          `json:"real"`
	Stubbed   []string          `json:"stubbed"`
	Assume    []string          `json:"assumptions"`
	Probes    map[string]string `json:"probes"`
}

type Dec struct {
	P     int32 `json:"p"`
	L     int32 `json:"l"`
	N     int32 `json:"n,omitempty"`
	To    int32 `json:"to,omitempty"`
	Sleep int64 `json:"sleep,omitempty"`
	V     bool  `json:"v,omitempty"`
	Site  int32 `json:"s,omitempty"`
}

type Req struct {
	Prop    string          `json:"prop"`
	Mode    string          `json:"mode"`
	Seed    uint64          `json:"seed"`
	N       int             `json:"n"`
	Ms      int64           `json:"ms"`
	Plan    json.RawMessage `json:"plan,omitempty"`
	Cfg     json.RawMessage `json:"cfg,omitempty"`
	Sched   []Dec           `json:"sched,omitempty"`
	Replay  bool            `json:"replay,omitempty"`
	Hashes  bool            `json:"hashes,omitempty"`
	GenOnly bool            `json:"genonly,omitempty"`
}

type Res struct {
	Kind   string           `json:"kind"`
	Prop   string           `json:"prop"`
	Runs   int              `json:"runs"`
	Seed   uint64           `json:"seed"`
	Class  string           `json:"class"`
	Msg    string           `json:"msg"`
	Plan   json.RawMessage  `json:"plan"`
	Cfg    json.RawMessage  `json:"cfg"`
	Sched  []Dec            `json:"sched"`
	Hash   string           `json:"hash"`
	Steps  int64            `json:"steps"`
	Switch int64            `json:"switches"`
	Blocks int64            `json:"lockblocks"`
	Stalls int64            `json:"stalls"`
	SimNs  int64            `json:"sim_ns"`
	Fair   int64            `json:"fair"`
	Counts map[string]int64 `json:"counts"`
	Pol    map[string]int64 `json:"pol"`
	Hashes []string         `json:"hashes"`
	Sigs   []uint64         `json:"sigs"`
	Hits   []int            `json:"hits"`
	Batch  uint64           `json:"batch"`
}

// Replay is a replay file.
type Replay struct {
	Property  string          `json:"property"`
	Kind      string          `json:"kind"` // schedule | seed | batch
	Class     string          `json:"class"`
	Message   string          `json:"message"`
	Seed      uint64          `json:"seed"`
	BatchSeed uint64          `json:"batch_seed,omitempty"`
	BatchN    int             `json:"batch_n,omitempty"`
	Plan      json.RawMessage `json:"plan,omitempty"`
	Cfg       json.RawMessage `json:"cfg,omitempty"`
	Sched     []Dec           `json:"sched,omitempty"`
	Hash      string          `json:"hash,omitempty"`
	Trace     []string        `json:"trace,omitempty"`
	Original  string          `json:"original,omitempty"`
	HowTo     string          `json:"how_to"`
}

// Known is one entry of known_findings.json.
type Known struct {
	Status   string `json:"status"` // known | fixed
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"` // regexp on the message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

var (
	verif   = "/verif"
	repo    = "/repo"
	scratch string
	bin     string
	conf    PropConf
	prop    string
	tier    = "quick"
	seed0   uint64
	start   = time.Now()
	nw      = 8
	asIs    bool
	sites   []struct {
		F string `json:"f"`
		L int    `json:"l"`
	}
	level int
)

func logf(f string, a ...any) {
	fmt.Printf("[%6.1fs] %s\n", time.Since(start).Seconds(), fmt.Sprintf(f, a...))
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func main() {
	replayFile := flag.String("replay", "", "replay file")
	flag.StringVar(&prop, "prop", "", "property")
	flag.StringVar(&tier, "tier", "", "quick or thorough")
	secs := flag.Int("secs", 0, "search time override")
	keep := flag.Bool("keep", false, "keep the build directory")
	det := flag.Int("determinism", 0, "only compare N seeds across processes")
	buildOnly := flag.Bool("build", false, "only build")
	flag.StringVar(&verif, "verif", verif, "")
	flag.StringVar(&repo, "repo", repo, "")
	flag.BoolVar(&asIs, "as-is", false, "do not minimise (development)")
	flag.Parse()
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed0 = uint64(v)
	} else {
		seed0 = 1
	}
	if n := runtime.NumCPU(); n < nw {
		nw = n
	}
	var rp Replay
	if *replayFile != "" {
		b, err := os.ReadFile(*replayFile)
		if err != nil {
			die("%v", err)
		}
		if err := json.Unmarshal(b, &rp); err != nil {
			die("%v", err)
		}
		prop = rp.Property
	}
	confs := map[string]PropConf{}
	b, err := os.ReadFile(filepath.Join(verif, "sim", "props.json"))
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &confs); err != nil {
		die("props.json: %v", err)
	}
	c, ok := confs[prop]
	if !ok {
		die("unknown property %q", prop)
	}
	conf = c
	if conf.BatchMs == 0 {
		conf.BatchMs = 700
	}
	os.MkdirAll(filepath.Join(verif, ".work"), 0o755)
	scratch, err = os.MkdirTemp(filepath.Join(verif, ".work"), prop+"-")
	if err != nil {
		die("%v", err)
	}
	build()
	if *buildOnly {
		logf("built %s", bin)
		if !*keep {
			cleanup()
		}
		return
	}
	if *replayFile != "" {
		code := doReplay(&rp)
		if !*keep {
			cleanup()
		}
		os.Exit(code)
	}
	if *det > 0 {
		n, bad := determinism(*det, 4)
		logf("determinism: %d seeds compared, %d differ", n, bad)
		cleanup()
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	budget := conf.QuickS
	if tier == "thorough" {
		budget = conf.ThoroughS
	}
	if *secs > 0 {
		budget = *secs
	}
	code := check(time.Duration(budget) * time.Second)
	if !*keep {
		cleanup()
	}
	os.Exit(code)
}

// ---- build

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOROOT", "GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED="+map[bool]string{true: "1", false: "0"}[conf.Race])
}

func run(dir, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func build() {
	gen := filepath.Join(scratch, "simgen")
	if out, err := run(filepath.Join(verif, "sim"), goCmd, "build", "-o", gen, "./simgen"); err != nil {
		die("building simgen: %v\n%s", err, out)
	}
	bin = filepath.Join(scratch, "sim.test")
	var last string
	// Instrumentation levels: 2 yields between the read and the write of one
	// statement, 1 only between statements, 0 only at synchronisation calls.
	for level = 2; level >= 0; level-- {
		o := filepath.Join(scratch, fmt.Sprintf("gen%d", level))
		args := []string{"-repo", repo, "-sim", filepath.Join(verif, "sim"), "-out", o, "-goroot", goRoot, "-harness", conf.Harness,
			"-deps", strings.Join(conf.Deps, ","), "-stubs", strings.Join(conf.Stubs, ","), "-level", strconv.Itoa(level)}
		if out, err := run(verif, gen, args...); err != nil {
			last = out
			logf("simgen level %d failed: %s", level, strings.TrimSpace(out))
			continue
		}
		a := []string{"test", "-c", "-vet=off", "-o", bin, "-overlay", filepath.Join(o, "overlay.json"), "-modfile", filepath.Join(o, "go.mod")}
		if conf.Race {
			// Every function of the simulator is marked norace.
			a = append(a, "-race")
		}
		a = append(a, "./lightstep/sdk/metric/zzsim/"+strings.Split(conf.Harness, ",")[0])
		out, err := run(repo, goCmd, a...)
		if err == nil {
			b, _ := os.ReadFile(filepath.Join(o, "sites.json"))
			json.Unmarshal(b, &sites)
			logf("built %s harness, instrumentation level %d, %d yield sites", conf.Harness, level, len(sites)-1)
			return
		}
		last = out
		logf("build at instrumentation level %d failed", level)
	}
	die("the simulated system does not build:\n%s", last)
}

func siteName(s int32) string {
	if int(s) < len(sites) && s > 0 {
		return fmt.Sprintf("%s:%d", sites[s].F, sites[s].L)
	}
	return "-"
}

// ---- workers

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tail
	mark   string
	n      int
	lines  chan []byte
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		// keep the head (the panic message) and the tail
		t.b = append(t.b[:1<<15:1<<15], t.b[len(t.b)-1<<14:]...)
	}
	return len(p), nil
}

var wid int
var widMu sync.Mutex

func newWorker() *worker {
	widMu.Lock()
	wid++
	id := wid
	widMu.Unlock()
	w := &worker{stderr: &tail{}, n: id}
	w.mark = filepath.Join(scratch, fmt.Sprintf("mark%d", id))
	w.cmd = exec.Command(bin, "-test.run", "TestSim", "-test.timeout", "0")
	w.cmd.Dir = scratch
	w.cmd.Env = append(goEnv(), "SIM_SERVE=1", "SIM_MARK="+w.mark, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w.in, _ = w.cmd.StdinPipe()
	so, _ := w.cmd.StdoutPipe()
	w.cmd.Stderr = w.stderr
	if err := w.cmd.Start(); err != nil {
		die("worker: %v", err)
	}
	w.out = bufio.NewReaderSize(so, 1<<20)
	w.lines = make(chan []byte, 4)
	go func() {
		for {
			l, err := w.out.ReadBytes('\n')
			if bytes.HasPrefix(l, []byte("@@")) {
				w.lines <- l[2:]
			} else if len(l) > 0 && !bytes.Equal(l, []byte("PASS\n")) {
				w.stderr.Write(l)
			}
			if err != nil {
				close(w.lines)
				return
			}
		}
	}()
	return w
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	for range w.lines {
	}
	w.cmd.Wait()
	os.Remove(w.mark)
}

func (w *worker) marked() (uint64, bool) {
	b, err := os.ReadFile(w.mark)
	if err != nil {
		return 0, false
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0, false
	}
	v, err := strconv.ParseUint(strings.TrimLeft(f[1], "0"), 10, 64)
	if strings.Trim(f[1], "0") == "" {
		return 0, true
	}
	return v, err == nil
}

// ask sends a request.  dead is true when the worker ended; its death is then
// described by a violation result if it can be attributed to a run.
func (w *worker) ask(q *Req, limit time.Duration) (res *Res, dead bool) {
	b, _ := json.Marshal(q)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		w.stop()
		return nil, true
	}
	select {
	case l, ok := <-w.lines:
		if !ok {
			w.cmd.Wait()
			s, has := w.marked()
			if !has {
				return nil, true
			}
			w.stderr.mu.Lock()
			txt := string(w.stderr.b)
			w.stderr.mu.Unlock()
			return &Res{Kind: "violation", Class: crashClass(txt), Msg: trimCrash(txt), Seed: s, Batch: q.Seed}, true
		}
		var r Res
		if err := json.Unmarshal(l, &r); err != nil {
			w.stop()
			return nil, true
		}
		if r.Kind == "violation" {
			w.stop()
			return &r, true
		}
		return &r, false
	case <-time.After(limit):
		w.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(300 * time.Millisecond)
		s, _ := w.marked()
		w.stderr.mu.Lock()
		txt := string(w.stderr.b)
		w.stderr.mu.Unlock()
		w.stop()
		return &Res{Kind: "violation", Class: "hang", Msg: "a run did not reach another scheduling point within the wall-clock limit\n" + trimCrash(txt), Seed: s, Batch: q.Seed}, true
	}
}

func crashClass(txt string) string {
	switch {
	case strings.Contains(txt, "WARNING: DATA RACE"):
		return "data-race"
	case strings.Contains(txt, "fatal error: concurrent map"):
		return "concurrent-map"
	case strings.Contains(txt, "deadlock"):
		return "deadlock"
	}
	return "crash"
}

var hexRe = regexp.MustCompile(`0x[0-9a-f]+`)

func trimCrash(txt string) string {
	var out []string
	for _, l := range strings.Split(txt, "\n") {
		if strings.Contains(l, "zzsim/simrt") || strings.HasPrefix(l, "\t/usr") {
			continue
		}
		out = append(out, hexRe.ReplaceAllString(l, "0x?"))
		if len(out) > 60 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func oneShot(q *Req, limit time.Duration) *Res {
	w := newWorker()
	r, dead := w.ask(q, limit)
	if !dead {
		w.stop()
	}
	return r
}

const hangLimit = 90 * time.Second

// ---- search

type totals struct {
	mu       sync.Mutex
	runs     int
	steps    int64
	switches int64
	blocks   int64
	stalls   int64
	simNs    int64
	fair     int64
	counts   map[string]int64
	pol      map[string]int64
	sigs     map[uint64]struct{}
	hits     map[int]struct{}
	samples  []json.RawMessage
	curve    []string
}

func (t *totals) add(r *Res) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs += r.Runs
	t.steps += r.Steps
	t.switches += r.Switch
	t.blocks += r.Blocks
	t.stalls += r.Stalls
	t.simNs += r.SimNs
	t.fair += r.Fair
	for k, v := range r.Counts {
		t.counts[k] += v
	}
	for k, v := range r.Pol {
		t.pol[k] += v
	}
	for _, s := range r.Sigs {
		if len(t.sigs) < 20000000 {
			t.sigs[s] = struct{}{}
		}
	}
	for _, h := range r.Hits {
		t.hits[h] = struct{}{}
	}
	if len(t.samples) < 3 && r.Plan != nil {
		b, _ := json.Marshal(map[string]any{"seed": r.Seed, "plan": r.Plan, "schedule_policy": r.Cfg})
		t.samples = append(t.samples, b)
	}
}

func loadKnown() []Known {
	var ks []Known
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		die("known_findings.json: %v", err)
	}
	return ks
}

func matchKnown(ks []Known, r *Res) *Known {
	for i := range ks {
		k := &ks[i]
		if k.Status == "known" && k.Property == prop && k.Class == r.Class {
			if ok, _ := regexp.MatchString(k.Match, r.Msg); ok {
				return k
			}
		}
	}
	return nil
}

func check(budget time.Duration) int {
	known := loadKnown()
	tot := &totals{counts: map[string]int64{}, pol: map[string]int64{}, sigs: map[uint64]struct{}{}, hits: map[int]struct{}{}}
	type found struct{ r *Res }
	var mu sync.Mutex
	var vio []*Res
	seen := map[string]int{}
	searchStart := time.Now()
	deadline := searchStart.Add(budget)
	next := seed0 * 1000003 * 1000
	take := func(n uint64) uint64 {
		mu.Lock()
		defer mu.Unlock()
		s := next
		next += n
		return s
	}
	infra, skipped := 0, 0
	nviol := 0
	replay := ""
	var rep *Replay
	unconfirmed := 0
	var searchWall time.Duration
again:
	roundStart := time.Now()
	var wg sync.WaitGroup
	stop := false
	vio = nil
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker()
			batches := 0
			for time.Now().Before(deadline) {
				mu.Lock()
				s := stop
				mu.Unlock()
				if s {
					break
				}
				if batches > 40 {
					// fresh process now and then
					w.stop()
					w = newWorker()
					batches = 0
				}
				batches++
				base := take(100000)
				r, dead := w.ask(&Req{Prop: prop, Mode: "batch", Seed: base, N: 100000, Ms: conf.BatchMs}, hangLimit)
				if dead {
					w = newWorker()
					batches = 0
				}
				if r == nil {
					mu.Lock()
					infra++
					if infra > 20 {
						stop = true
					}
					mu.Unlock()
					continue
				}
				switch r.Kind {
				case "done":
					tot.add(r)
				case "violation":
					mu.Lock()
					if r.Class == "infra" {
						// the simulator's own limits: says nothing about
						// the code
						skipped++
						if skipped > 200 {
							infra += 21
							stop = true
						}
					} else if k := matchKnown(known, r); k != nil {
						seen[k.What]++
						tot.mu.Lock()
						tot.runs += int(r.Seed-r.Batch) + 1
						tot.mu.Unlock()
					} else {
						vio = append(vio, r)
						stop = true
					}
					mu.Unlock()
				case "error":
					mu.Lock()
					fmt.Fprintln(os.Stderr, "worker error:", r.Msg)
					infra += 21
					stop = true
					mu.Unlock()
				}
			}
			w.stop()
		}()
	}
	wg.Wait()
	searchWall += time.Since(roundStart)
	logf("search: %d runs, %d distinct schedules, %d steps, %.1f simulated s, %d candidate violations", tot.runs, len(tot.sigs), tot.steps, float64(tot.simNs)/1e9, len(vio))
	if infra > 20 {
		die("workers failed repeatedly without an attributable run")
	}
	sort.Slice(vio, func(i, j int) bool { return vio[i].Seed < vio[j].Seed })
	for _, v := range vio {
		logf("candidate: seed %d class %s: %s", v.Seed, v.Class, firstLine(v.Msg))
		rp := confirm(v)
		if rp == nil {
			unconfirmed++
			logf("not reproduced by replay; discarded. It said:\n%s", v.Msg)
			continue
		}
		if k := matchKnown(known, &Res{Class: rp.Class, Msg: rp.Message}); k != nil {
			seen[k.What]++
			continue
		}
		rep = rp
		nviol++
		break
	}
	if nviol == 0 && len(vio) > 0 && unconfirmed < 20 && time.Until(deadline) > time.Second {
		goto again
	}
	detN, detBad := 0, 0
	if nviol == 0 {
		detN, detBad = determinism(24, 2)
	}
	// known findings must still be reported: probe them if the search did not
	// meet them
	for i := range known {
		k := &known[i]
		if k.Status == "known" && k.Property == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times in this run)\n", prop, k.What, seen[k.What])
		}
	}
	evidence(tot, searchWall, nviol, unconfirmed, detN, detBad, seen)
	if nviol > 0 {
		os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
		replay = filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", prop, rep.Seed))
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(replay, b, 0o644); err != nil {
			die("%v", err)
		}
		fmt.Printf("violation class: %s\n%s\n", rep.Class, rep.Message)
		fmt.Printf("minimised plan: %s\n", rep.Plan)
		for _, t := range rep.Trace {
			fmt.Println("  " + t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	if unconfirmed > 2 {
		die("%d candidate violations did not reproduce; the simulation is not deterministic", unconfirmed)
	}
	if tot.runs == 0 {
		die("no run completed")
	}
	logf("property %s held on everything explored", prop)
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// confirm reproduces a candidate in fresh processes and minimises it.
func confirm(v *Res) *Replay {
	howto := "bash /verif/check.sh replay <this file>"
	lim := hangLimit
	if v.Plan != nil {
		q := &Req{Prop: prop, Mode: "one", Seed: v.Seed, Plan: v.Plan, Cfg: v.Cfg, Sched: v.Sched, Replay: true}
		r := oneShot(q, lim)
		if r != nil && r.Kind == "violation" && r.Class == v.Class {
			return minimise(v, howto)
		}
	}
	// by seed
	r := oneShot(&Req{Prop: prop, Mode: "one", Seed: v.Seed, N: 1}, lim)
	if r != nil && r.Kind == "violation" {
		if r.Plan != nil {
			rr := oneShot(&Req{Prop: prop, Mode: "one", Seed: r.Seed, Plan: r.Plan, Cfg: r.Cfg, Sched: r.Sched, Replay: true}, lim)
			if rr != nil && rr.Kind == "violation" && rr.Class == r.Class {
				return minimise(r, howto)
			}
		}
		r2 := oneShot(&Req{Prop: prop, Mode: "one", Seed: v.Seed, N: 1}, lim)
		if r2 != nil && r2.Kind == "violation" && r2.Class == r.Class {
			rp := &Replay{Property: prop, Kind: "seed", Class: r.Class, Message: r.Msg, Seed: v.Seed, HowTo: howto}
			if g := oneShot(&Req{Prop: prop, Mode: "one", Seed: v.Seed, N: 1, GenOnly: true}, lim); g != nil {
				rp.Plan, rp.Cfg = g.Plan, g.Cfg
				shrinkSeed(rp)
			}
			return rp
		}
	}
	// needs the runs before it in the same process
	n := int(v.Seed-v.Batch) + 1
	tries := 1
	if v.Class == "data-race" {
		// the detector keeps few earlier accesses per word, and which of
		// them it forgets depends on what it met before
		tries = 4
	}
	for ; n > 1 && tries > 0; tries-- {
		a := oneShot(&Req{Prop: prop, Mode: "batch", Seed: v.Batch, N: n}, 4*lim)
		if a != nil && a.Kind == "violation" && a.Seed == v.Seed {
			return &Replay{Property: prop, Kind: "batch", Class: a.Class, Message: a.Msg, Seed: v.Seed, BatchSeed: v.Batch, BatchN: n, Plan: a.Plan, Cfg: a.Cfg, HowTo: howto}
		}
	}
	return nil
}

// shrinkSeed minimises the plan of a violation that ends the process (crash,
// data race): the schedule stays seeded.
func shrinkSeed(rp *Replay) {
	end := time.Now().Add(20 * time.Second)
	try := func(plan json.RawMessage) bool {
		r := oneShot(&Req{Prop: prop, Mode: "batch", Seed: rp.Seed, N: 60, Ms: 3000, Plan: plan}, hangLimit)
		if r != nil && r.Kind == "violation" && r.Class == rp.Class {
			// pin the seed that failed with this plan
			r2 := oneShot(&Req{Prop: prop, Mode: "one", Seed: r.Seed, Plan: plan}, hangLimit)
			if r2 != nil && r2.Kind == "violation" && r2.Class == rp.Class {
				rp.Plan, rp.Seed, rp.Message, rp.Cfg = plan, r.Seed, r2.Msg, r2.Cfg
				return true
			}
		}
		return false
	}
	shrinkPlan(func() json.RawMessage { return rp.Plan }, try, end)
}

// minimise shrinks the plan, then the schedule.
func minimise(v *Res, howto string) *Replay {
	orig := fmt.Sprintf("seed %d, %d scheduling decisions, %s", v.Seed, len(v.Sched), firstLine(v.Msg))
	end := time.Now().Add(30 * time.Second)
	if asIs {
		end = time.Now()
	}
	cur := v
	pool := make(chan *worker, nw)
	for i := 0; i < nw; i++ {
		pool <- newWorker()
	}
	get := func() *worker { return <-pool }
	try1 := func(q *Req) *Res {
		w := get()
		r, dead := w.ask(q, hangLimit)
		if dead {
			w = newWorker()
		}
		pool <- w
		if r != nil && r.Kind == "violation" && r.Class == v.Class && r.Plan != nil {
			return r
		}
		return nil
	}
	shrinkPlan(func() json.RawMessage { return cur.Plan }, func(plan json.RawMessage) bool {
		// the same schedule policy first, then other seeds, in parallel
		var wg sync.WaitGroup
		var mu sync.Mutex
		var hit *Res
		for i := 0; i < nw; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				q := &Req{Prop: prop, Mode: "batch", Seed: cur.Seed + uint64(i)*1000, N: 400, Ms: 900, Plan: plan}
				if i == 0 {
					q = &Req{Prop: prop, Mode: "one", Seed: cur.Seed, Plan: plan, Cfg: cur.Cfg}
				}
				if r := try1(q); r != nil {
					mu.Lock()
					if hit == nil || len(r.Sched) < len(hit.Sched) {
						hit = r
					}
					mu.Unlock()
				}
			}(i)
		}
		wg.Wait()
		if hit != nil {
			cur = hit
			return true
		}
		return false
	}, end)
	// schedule: remove decisions
	if !asIs {
		end = time.Now().Add(25 * time.Second)
	}
	sched := cur.Sched
	test := func(s []Dec) *Res {
		return try1(&Req{Prop: prop, Mode: "one", Seed: cur.Seed, Plan: cur.Plan, Cfg: cur.Cfg, Sched: s, Replay: true})
	}
	if r := test(sched); r != nil {
		n := 2
		for len(sched) > 0 && time.Now().Before(end) {
			chunk := (len(sched) + n - 1) / n
			type cand struct {
				s []Dec
				r *Res
			}
			var cands []*cand
			for i := 0; i < len(sched); i += chunk {
				e := i + chunk
				if e > len(sched) {
					e = len(sched)
				}
				cands = append(cands, &cand{s: append(append([]Dec{}, sched[:i]...), sched[e:]...)})
			}
			ok := false
			for b := 0; b < len(cands) && !ok && time.Now().Before(end); b += nw {
				var wg sync.WaitGroup
				for j := b; j < b+nw && j < len(cands); j++ {
					wg.Add(1)
					go func(c *cand) { defer wg.Done(); c.r = test(c.s) }(cands[j])
				}
				wg.Wait()
				for j := b; j < b+nw && j < len(cands); j++ {
					if cands[j].r != nil {
						sched, ok = cands[j].s, true
						break
					}
				}
			}
			if ok {
				if n > 2 {
					n--
				}
				continue
			}
			if chunk == 1 {
				break
			}
			n *= 2
			if n > len(sched) {
				n = len(sched)
			}
		}
	}
	for i := 0; i < nw; i++ {
		(<-pool).stop()
	}
	q := &Req{Prop: prop, Mode: "one", Seed: cur.Seed, Plan: cur.Plan, Cfg: cur.Cfg, Sched: sched, Replay: true}
	a, b := oneShot(q, hangLimit), oneShot(q, hangLimit)
	if a == nil || b == nil || a.Kind != "violation" || b.Kind != "violation" || a.Class != b.Class || a.Hash != b.Hash {
		// fall back to the unminimised recording
		q.Plan, q.Cfg, q.Sched, q.Seed = v.Plan, v.Cfg, v.Sched, v.Seed
		a = oneShot(q, hangLimit)
		if a == nil || a.Kind != "violation" {
			return nil
		}
		cur, sched = v, v.Sched
	}
	rp := &Replay{Property: prop, Kind: "schedule", Class: a.Class, Message: a.Msg, Seed: q.Seed, Plan: q.Plan, Cfg: q.Cfg, Sched: sched, Hash: a.Hash, Original: orig, HowTo: howto}
	rp.Trace = traceOf(sched)
	return rp
}

func traceOf(sched []Dec) []string {
	var out []string
	for _, d := range sched {
		if d.Sleep > 0 {
			out = append(out, fmt.Sprintf("after g%d step %d: everything stalls for %v", d.P, d.L, time.Duration(d.Sleep)))
		} else {
			out = append(out, fmt.Sprintf("after g%d step %d: run g%d (next at %s)", d.P, d.L, d.To, siteName(d.Site)))
		}
		if len(out) >= 40 {
			out = append(out, "...")
			break
		}
	}
	return out
}

// shrinkPlan removes array elements and simplifies scalars of a JSON plan.
func shrinkPlan(cur func() json.RawMessage, try func(json.RawMessage) bool, end time.Time) {
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		// arrays, largest chunks first
		paths := arrayPaths(decode(cur()), nil)
		for _, p := range paths {
			n := arrayLen(decode(cur()), p)
			for size := n; size >= 1 && time.Now().Before(end); size /= 2 {
				for i := 0; i+size <= arrayLen(decode(cur()), p) && time.Now().Before(end); {
					d := decode(cur())
					nd := cutArray(d, p, i, size)
					b, _ := json.Marshal(nd)
					if try(b) {
						changed = true
					} else {
						i += size
					}
				}
			}
		}
		// scalars
		for _, p := range scalarPaths(decode(cur()), nil) {
			if time.Now().After(end) {
				break
			}
			d := decode(cur())
			nd, ok := zero(d, p)
			if !ok {
				continue
			}
			b, _ := json.Marshal(nd)
			if bytes.Equal(b, mustMarshal(d)) {
				continue
			}
			if try(b) {
				changed = true
			}
		}
	}
}

func mustMarshal(v any) []byte { b, _ := json.Marshal(v); return b }

func decode(b json.RawMessage) any {
	var v any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	d.Decode(&v)
	return v
}

type path []any

func arrayPaths(v any, p path) []path {
	var out []path
	switch t := v.(type) {
	case []any:
		out = append(out, append(path{}, p...))
		for i, e := range t {
			out = append(out, arrayPaths(e, append(append(path{}, p...), i))...)
		}
	case map[string]any:
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, arrayPaths(t[k], append(append(path{}, p...), k))...)
		}
	}
	return out
}

func scalarPaths(v any, p path) []path {
	var out []path
	switch t := v.(type) {
	case []any:
		for i, e := range t {
			out = append(out, scalarPaths(e, append(append(path{}, p...), i))...)
		}
	case map[string]any:
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, scalarPaths(t[k], append(append(path{}, p...), k))...)
		}
	case json.Number:
		if t.String() != "0" && t.String() != "1" {
			out = append(out, append(path{}, p...))
		}
	case bool:
		if t {
			out = append(out, append(path{}, p...))
		}
	}
	return out
}

func at(v any, p path) any {
	for _, k := range p {
		switch t := v.(type) {
		case []any:
			i := k.(int)
			if i >= len(t) {
				return nil
			}
			v = t[i]
		case map[string]any:
			v = t[k.(string)]
		default:
			return nil
		}
	}
	return v
}

func arrayLen(v any, p path) int {
	a, _ := at(v, p).([]any)
	return len(a)
}

func set(v any, p path, nv any) any {
	if len(p) == 0 {
		return nv
	}
	switch t := v.(type) {
	case []any:
		i := p[0].(int)
		if i < len(t) {
			t[i] = set(t[i], p[1:], nv)
		}
		return t
	case map[string]any:
		k := p[0].(string)
		t[k] = set(t[k], p[1:], nv)
		return t
	}
	return v
}

func cutArray(v any, p path, i, n int) any {
	a, ok := at(v, p).([]any)
	if !ok || i+n > len(a) {
		return v
	}
	na := append(append([]any{}, a[:i]...), a[i+n:]...)
	return set(v, p, na)
}

func zero(v any, p path) (any, bool) {
	switch t := at(v, p).(type) {
	case json.Number:
		n, err := t.Int64()
		if err != nil || n == 0 {
			return v, false
		}
		if n > 1000 {
			return set(v, p, json.Number(strconv.FormatInt(n/2, 10))), true
		}
		return set(v, p, json.Number("0")), true
	case bool:
		return set(v, p, false), true
	}
	return v, false
}

// determinism runs seeds in several processes and compares their schedules.
func determinism(n, procs int) (int, int) {
	var logs []map[string]string
	for i := 0; i < procs; i++ {
		m := map[string]string{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		par := 1 + i*3
		if par > nw {
			par = nw
		}
		for j := 0; j < par; j++ {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				lo, hi := n*j/par, n*(j+1)/par
				if hi == lo {
					return
				}
				r := oneShot(&Req{Prop: prop, Mode: "batch", Seed: seed0*7919 + uint64(lo), N: hi - lo, Hashes: true}, hangLimit)
				if r == nil {
					return
				}
				mu.Lock()
				for _, h := range r.Hashes {
					k := strings.SplitN(h, ":", 2)
					m[k[0]] = k[1]
				}
				mu.Unlock()
			}(j)
		}
		wg.Wait()
		logs = append(logs, m)
	}
	bad, cmp := 0, 0
	for k, v := range logs[0] {
		same := true
		for _, m := range logs[1:] {
			if o, ok := m[k]; ok && o != v {
				if same && bad < 3 {
					logf("seed %s: %s / %s", k, v, o)
				}
				same = false
			}
		}
		cmp++
		if !same {
			bad++
		}
	}
	return cmp, bad
}

func doReplay(rp *Replay) int {
	var q *Req
	switch rp.Kind {
	case "schedule":
		q = &Req{Prop: prop, Mode: "one", Seed: rp.Seed, Plan: rp.Plan, Cfg: rp.Cfg, Sched: rp.Sched, Replay: true}
	case "seed":
		q = &Req{Prop: prop, Mode: "one", Seed: rp.Seed, Plan: rp.Plan, Cfg: rp.Cfg}
	default:
		q = &Req{Prop: prop, Mode: "batch", Seed: rp.BatchSeed, N: rp.BatchN}
	}
	r := oneShot(q, 4*hangLimit)
	if r == nil {
		die("replay: worker died")
	}
	if r.Kind == "violation" {
		same := "same execution"
		if rp.Hash != "" && r.Hash != rp.Hash {
			same = "DIFFERENT execution (the code changed)"
		}
		fmt.Printf("reproduced (%s): class %s\n%s\n", same, r.Class, r.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, "(replayed)")
		return 1
	}
	fmt.Println("not reproduced: the property held on this execution")
	return 0
}

// ---- evidence

func evidence(t *totals, wall time.Duration, viol, unconfirmed, detN, detBad int, known map[string]int) {
	perHour := 0.0
	if wall > 0 {
		perHour = float64(t.runs) / wall.Hours()
	}
	files := map[string]int{}
	for h := range t.hits {
		if h > 0 && h < len(sites) {
			files[sites[h].F]++
		}
	}
	if p := os.Getenv("VERIF_SITES"); p != "" { // for finding code that no workload reaches
		out := ""
		for h := 1; h < len(sites); h++ {
			_, hit := t.hits[h]
			out += fmt.Sprintf("%v %s\n", hit, siteName(int32(h)))
		}
		os.WriteFile(p, []byte(out), 0o644)
	}
	inject := map[string]int64{"preemptive_context_switches": t.switches, "whole_process_stalls": t.stalls, "lock_contention_blocks": t.blocks}
	for k, v := range t.counts {
		inject[k] = v
	}
	polN := map[string]string{"0": "random", "1": "pct", "2": "site-biased", "3": "bursts"}
	pol := map[string]int64{}
	for k, v := range t.pol {
		pol[polN[k]] = v
	}
	samples := []any{}
	for _, s := range t.samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"evaluations":                   t.runs,
		"distinct_nontrivial":           len(t.sigs),
		"rule":                          conf.Rule + " A run is distinct when its sequence of scheduling decisions (goroutine, code site, stall length) hashes differently from every other run; it is non-trivial because every plan has concurrent activity and every run checks at least one collection or export.",
		"samples":                       samples,
		"runs_per_hour":                 int64(perHour),
		"seeds_per_hour":                int64(perHour),
		"first_seed":                    seed0 * 1000003 * 1000,
		"simulated_seconds":             float64(t.simNs) / 1e9,
		"scheduling_points":             t.steps,
		"runs_reaching_fair_phase":      t.fair,
		"faults_and_probes":             inject,
		"schedule_policies":             pol,
		"yield_sites_reached":           len(t.hits),
		"yield_sites_total":             len(sites) - 1,
		"yield_sites_reached_by_file":   files,
		"instrumentation_level":         level,
		"ran_real_code":                 conf.Real,
		"ran_stub":                      conf.Stubbed,
		"determinism_seeds_compared":    detN,
		"determinism_seeds_differing":   detBad,
		"unconfirmed_candidates":        unconfirmed,
		"known_findings_met":            known,
		"search_wall_s":                 wall.Seconds(),
		"worker_processes":              nw,
		"distinct_interleaving_measure": "64-bit hash of the full decision sequence",
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed0), "level": "exploration", "coverage": cov,
		"assumptions": conf.Assume, "wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}
