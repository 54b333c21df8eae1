// Package simh is the worker side of the checks: it runs simulated executions
// requested by the driver and reports what happened.
package simh

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// Rand is the plan generator's stream.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand {
	r := &Rand{s: seed*0x2545f4914f6cdd1d + 0x632be59bd9b4e019}
	r.U64()
	return r
}
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
func (r *Rand) P(p float64) bool     { return float64(r.U64()>>11)/(1<<53) < p }
func (r *Rand) Bool() bool           { return r.U64()&1 == 1 }

// Prop is one simulated check.
type Prop struct {
	ID    string
	Gen   func(r *Rand) any // a plan: everything about the run except the schedule
	New   func() any        // empty plan for JSON decoding
	Run   func(e *Env, plan any)
	Cap   int // step cap
	Time  time.Duration
	Stall time.Duration
}

var props = map[string]*Prop{}

func Register(p *Prop) { props[p.ID] = p }

// Env is handed to a run.
type Env struct {
	Prop   string
	Seed   uint64
	Counts map[string]int // fault and probe counters of this run
	quiet  bool
}

// Count increments a counter (fault kinds actually injected, probes hit).
func (e *Env) Count(k string) { e.Counts[k]++ }

type violation struct{ class, msg string }

// Fail reports a violation and ends the process: the state of the simulated
// system is not reused.
func (e *Env) Fail(class, format string, args ...any) {
	report(class, fmt.Sprintf(format, args...))
}

// Req is a request from the driver.
type Req struct {
	Prop    string          `json:"prop"`
	Mode    string          `json:"mode"` // batch | one
	Seed    uint64          `json:"seed"`
	N       int             `json:"n"`
	Ms      int64           `json:"ms"` // wall budget of a batch
	Plan    json.RawMessage `json:"plan,omitempty"`
	Cfg     *SimCfg         `json:"cfg,omitempty"`
	Sched   []simrt.Dec     `json:"sched,omitempty"`
	Replay  bool            `json:"replay,omitempty"`
	Hashes  bool            `json:"hashes,omitempty"`
	GenOnly bool            `json:"genonly,omitempty"`
}

// SimCfg is the seeded schedule policy of a run.
type SimCfg struct {
	Seed    uint64  `json:"seed"`
	Policy  int     `json:"policy"`
	PSwitch float64 `json:"pswitch"`
	Depth   int     `json:"depth"`
	Est     int     `json:"est"`
	PStall  float64 `json:"pstall"`
	StallNs int64   `json:"stall_ns"`
}

// Res is a line to the driver.
type Res struct {
	Kind   string           `json:"kind"` // progress | done | violation
	Prop   string           `json:"prop"`
	Runs   int              `json:"runs,omitempty"`
	Seed   uint64           `json:"seed"`
	Class  string           `json:"class,omitempty"`
	Msg    string           `json:"msg,omitempty"`
	Plan   json.RawMessage  `json:"plan,omitempty"`
	Cfg    *SimCfg          `json:"cfg,omitempty"`
	Sched  []simrt.Dec      `json:"sched,omitempty"`
	Hash   string           `json:"hash,omitempty"`
	Steps  int64            `json:"steps,omitempty"`
	Switch int64            `json:"switches,omitempty"`
	Blocks int64            `json:"lockblocks,omitempty"`
	Stalls int64            `json:"stalls,omitempty"`
	SimNs  int64            `json:"sim_ns,omitempty"`
	Fair   int64            `json:"fair,omitempty"`
	Counts map[string]int64 `json:"counts,omitempty"`
	Pol    map[string]int64 `json:"pol,omitempty"`
	Hashes []string         `json:"hashes,omitempty"`
	Sigs   []uint64         `json:"sigs,omitempty"`
	Sample json.RawMessage  `json:"sample,omitempty"`
	Hits   []int            `json:"hits,omitempty"`
	Batch  uint64           `json:"batch,omitempty"`
}

// Warm is run once per process, before the first run, to put process-wide
// state (rate limiters, lazily built tables) in its steady state.
var Warm func()

var offset time.Duration

var cur struct {
	req  *Req
	plan json.RawMessage
	cfg  *SimCfg
	seed uint64
	out  *bufio.Writer
	on   bool
}

func emit(r *Res) {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	cur.out.WriteString("@@")
	cur.out.Write(b)
	cur.out.WriteByte('\n')
	cur.out.Flush()
}

func report(class, msg string) {
	st := simrt.Snapshot()
	emit(&Res{Kind: "violation", Prop: cur.req.Prop, Seed: cur.seed, Class: class, Msg: msg, Plan: cur.plan, Cfg: cur.cfg,
		Batch: cur.req.Seed, Sched: simrt.Recorded(), Hash: fmt.Sprintf("%016x", st.Hash), Steps: int64(st.Steps)})
	os.Exit(3)
}

// GenCfg draws the schedule policy.
func GenCfg(seed uint64, p *Prop) *SimCfg {
	r := NewRand(seed ^ 0xabcdef12345)
	c := &SimCfg{Seed: r.U64()}
	c.Policy = r.Intn(simrt.NumPolicies)
	c.PSwitch = []float64{0.01, 0.03, 0.1, 0.3, 0.6}[r.Intn(5)]
	c.Depth = r.Range(1, 6)
	c.Est = []int{150, 500, 1500, 4000}[r.Intn(4)]
	if r.P(0.5) {
		c.PStall = []float64{0.001, 0.01, 0.05}[r.Intn(3)]
		if p.Stall > 0 {
			c.StallNs = int64(p.Stall)
		}
	}
	return c
}

// Main serves requests; call it from the only test of the harness binary.
func Main(t *testing.T) {
	if os.Getenv("SIM_SERVE") == "" {
		t.Skip("simulation worker: started by the driver")
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	cur.out = bufio.NewWriterSize(os.Stdout, 1<<20)
	simrt.OnFatal = func(class, msg string) { report(class, msg) }
	simrt.OnPanic = func(name string, r any, stack string) {
		report("panic: "+shape(fmt.Sprint(r)), fmt.Sprintf("%v in %s\n%s", r, name, trimStack(stack)))
	}
	time.NewTimer(0).Stop() // initializes what the scheduler's timers use
	time.NewTicker(time.Hour).Stop()
	if Warm != nil {
		synctest.Test(t, func(t *testing.T) {
			Warm()
			offset = time.Hour
		})
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	for {
		var q Req
		if err := dec.Decode(&q); err != nil {
			return
		}
		p := props[q.Prop]
		if p == nil {
			emit(&Res{Kind: "error", Msg: "unknown property " + q.Prop})
			continue
		}
		cur.req = &q
		serve(t, p, &q)
	}
}

// shape drops the numbers of a panic message, so that it names a kind of panic.
func shape(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 80 {
		s = s[:80]
	}
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return '#'
		}
		return r
	}, s)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "zzsim") || strings.Contains(l, "/simrt") {
			continue
		}
		out = append(out, l)
		if len(out) > 30 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func serve(t *testing.T, p *Prop, q *Req) {
	res := &Res{Kind: "done", Prop: p.ID, Seed: q.Seed, Counts: map[string]int64{}, Pol: map[string]int64{}}
	startWall := wallNow()
	n := q.N
	if q.Mode == "one" {
		n = 1
	}
	for i := 0; i < n; i++ {
		seed := q.Seed + uint64(i)
		if q.Ms > 0 && i > 0 && wallNow()-startWall > q.Ms*int64(time.Millisecond) {
			break
		}
		var plan any
		if q.Plan != nil {
			plan = p.New()
			if err := json.Unmarshal(q.Plan, plan); err != nil {
				emit(&Res{Kind: "error", Msg: err.Error()})
				return
			}
		} else {
			plan = p.Gen(NewRand(seed))
		}
		pj, err := json.Marshal(plan)
		if err != nil {
			panic(err)
		}
		// Always run the decoded form: search and replay see the same plan.
		plan = p.New()
		if err := json.Unmarshal(pj, plan); err != nil {
			panic(err)
		}
		cfg := q.Cfg
		if cfg == nil {
			cfg = GenCfg(seed, p)
		}
		cur.plan, cur.cfg, cur.seed = pj, cfg, seed
		if q.GenOnly {
			emit(&Res{Kind: "gen", Prop: p.ID, Seed: seed, Plan: pj, Cfg: cfg})
			continue
		}
		env := &Env{Prop: p.ID, Seed: seed, Counts: map[string]int{}}
		sc := simrt.Config{Seed: cfg.Seed, Policy: cfg.Policy, PSwitch: cfg.PSwitch, Depth: cfg.Depth, EstSteps: cfg.Est,
			PStall: cfg.PStall, StallMax: time.Duration(cfg.StallNs), StepCap: p.Cap, MaxTime: p.Time}
		if q.Replay {
			sc.IsReplay = true
			sc.Replay = q.Sched
		}
		var st simrt.Stats
		simrt.TraceFn = nil
		if os.Getenv("SIM_TRACE") == fmt.Sprint(seed) {
			f, _ := os.Create(fmt.Sprintf("%s.%d", os.Getenv("SIM_TRACE_OUT"), os.Getpid()))
			bw := bufio.NewWriter(f)
			simrt.TraceFn = func(p, s int32) { fmt.Fprintln(bw, p, s) }
			defer bw.Flush()
		}
		marker(p.ID, seed)
		synctest.Test(t, func(t *testing.T) {
			// Every run starts later than all before it in this process:
			// rate limiters kept in globals behave as if long idle.
			time.Sleep(offset)
			st = simrt.Run(sc, func() { p.Run(env, plan) })
			offset += st.SimTime + time.Hour
		})
		res.Runs++
		res.Steps += int64(st.Steps)
		res.Switch += int64(st.Switches)
		res.Blocks += int64(st.LockBlocks)
		res.Stalls += int64(st.Stalls)
		res.SimNs += int64(st.SimTime)
		if st.Fair {
			res.Fair++
		}
		for k, v := range env.Counts {
			res.Counts[k] += int64(v)
		}
		res.Pol[fmt.Sprint(cfg.Policy)]++
		res.Sigs = append(res.Sigs, st.Hash)
		if q.Hashes || q.Mode == "one" {
			res.Hashes = append(res.Hashes, fmt.Sprintf("%d:%016x:%d:%s", seed, st.Hash, st.Steps, countKey(env.Counts)))
		}
		if i == 0 {
			res.Sample = pj
			res.Plan = pj
			res.Cfg = cfg
		}
		if res.Runs%32 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 192<<20 {
				runtime.GC()
			}
		}
	}
	for i, h := range simrt.Hits {
		if h && !sentHits[i] {
			sentHits[i] = true
			res.Hits = append(res.Hits, i)
		}
	}
	emit(res)
}

var sentHits = map[int]bool{}

func countKey(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d,", k, m[k])
	}
	return b.String()
}

func wallNow() int64 { return time.Now().UnixNano() }

// marker leaves the current seed where the driver finds it if the process dies.
func marker(prop string, seed uint64) {
	if f := os.Getenv("SIM_MARK"); f != "" {
		if markF == nil {
			var err error
			markF, err = os.OpenFile(f, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
			if err != nil {
				return
			}
		}
		markF.WriteAt([]byte(fmt.Sprintf("%-8s %020d\n", prop, seed)), 0)
	}
}

var markF *os.File
