// Package builtin simulates the built-in instrumentation: the runtime, host and
// CPU-time libraries read simulated sources while several readers collect.
package builtin

import (
	"context"
	"errors"
	"fmt"
	"math"
	"runtime/metrics"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/shirou/gopsutil/v3/cpu"
	"github.com/shirou/gopsutil/v3/mem"
	"github.com/shirou/gopsutil/v3/net"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"

	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/cputime"
	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/host"
	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/runtime"
	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// Plan is one run.
type Plan struct {
	Libs    int      `json:"libs"` // 1 runtime 2 host 4 cputime
	Global  bool     `json:"global,omitempty"`
	Late    int      `json:"late,omitempty"` // Start comes after so many us, during collections
	Delta   []bool   `json:"delta"`          // per reader
	Colls   [][]Coll `json:"colls"`
	Faults  []Fault  `json:"faults,omitempty"`
	Drop    []int    `json:"drop,omitempty"` // runtime metrics this version of Go does not have
	Flip    []int    `json:"flip,omitempty"` // runtime metrics of the other number kind
	Extra   int      `json:"extra,omitempty"`
	TryFail bool     `json:"try_fail,omitempty"` // the first getrusage call fails
	Big     bool     `json:"big,omitempty"`      // large integers
}

// Coll is one collection.
type Coll struct {
	R   int `json:"r"`
	Gap int `json:"gap,omitempty"` // us
}

// Fault happens to the n-th reading of a source.
type Fault struct {
	Src  int `json:"src"` // 0 runtime 1 cpu 2 mem 3 net 4 rusage
	N    int `json:"n"`
	What int `json:"what"` // 0 slow 1 error 2 wrong number of entries / bad kind
	Us   int `json:"us,omitempty"`
}

const (
	srcRuntime = iota
	srcCPU
	srcMem
	srcNet
	srcRusage
	nSrc
)

// reading is one use of a source.
type reading struct {
	k, n       int // number of the state read, number of the call
	begin, end int64
	failed     bool
	bad        int // runtime: index of the bad sample, -1
}

type world struct {
	e     *simh.Env
	p     *Plan
	all   []metrics.Description
	names map[string]int // runtime metric name to index
	keys  map[string]int // point key to index in all
	reads [nSrc][]*reading
	fault map[[2]int]Fault
	told  map[string]int
	nerr  int
	up    [2]float64
	upOn  bool
	start [3][2]int64 // call and return of Start, per library
	errs  [3]error
	rd    []*sdk.ManualReader
	acc   []map[string]float64
	lock  []bool
}

var realAll = metrics.All()

var extras = []metrics.Description{
	{Name: "/new/thing:bytes", Kind: metrics.KindUint64},
	{Name: "/gc/new-histogram:seconds", Kind: metrics.KindFloat64Histogram},
	{Name: "/cpu/classes/brand-new/x:cpu-seconds", Kind: metrics.KindFloat64},
	{Name: "/memory/classes/brand-new/total:bytes", Kind: metrics.KindUint64},
	{Name: "/memory/classes/brand/new/deep:bytes", Kind: metrics.KindUint64},
	{Name: "/unitless", Kind: metrics.KindUint64},
}

// family is the documented translation of runtime/metrics names.
type family struct {
	pfx, sfx, name, unit string
	kind                 sdkinstrument.Kind
}

var families = []family{
	{"/cpu/classes/", ":cpu-seconds", "cpu.time", "{cpu-seconds}", sdkinstrument.AsyncCounter},
	{"/gc/cycles/", ":gc-cycles", "gc.cycles", "{gc-cycles}", sdkinstrument.AsyncCounter},
	{"/memory/classes/", ":bytes", "memory.usage", "By", sdkinstrument.AsyncUpDownCounter},
	{"/gc/scan/", ":bytes", "gc.scan", "By", sdkinstrument.AsyncUpDownCounter},
}

var singles = map[string]family{
	"/gc/heap/allocs:bytes":             {name: "gc.heap.allocs", unit: "By", kind: sdkinstrument.AsyncCounter},
	"/gc/heap/allocs:objects":           {name: "gc.heap.allocs.objects", unit: "", kind: sdkinstrument.AsyncCounter},
	"/gc/heap/frees:bytes":              {name: "gc.heap.frees", unit: "By", kind: sdkinstrument.AsyncCounter},
	"/gc/heap/frees:objects":            {name: "gc.heap.frees.objects", unit: "", kind: sdkinstrument.AsyncCounter},
	"/cgo/go-to-c-calls:calls":          {name: "cgo.go-to-c-calls", unit: "{calls}", kind: sdkinstrument.AsyncCounter},
	"/gc/heap/tiny/allocs:objects":      {name: "gc.heap.tiny.allocs", unit: "{objects}", kind: sdkinstrument.AsyncCounter},
	"/sync/mutex/wait/total:seconds":    {name: "sync.mutex.wait.total", unit: "s", kind: sdkinstrument.AsyncCounter},
	"/gc/gogc:percent":                  {name: "gc.gogc", unit: "{percent}", kind: sdkinstrument.AsyncGauge},
	"/gc/gomemlimit:bytes":              {name: "gc.gomemlimit", unit: "By", kind: sdkinstrument.AsyncGauge},
	"/gc/heap/goal:bytes":               {name: "gc.heap.goal", unit: "By", kind: sdkinstrument.AsyncGauge},
	"/gc/heap/live:bytes":               {name: "gc.heap.live", unit: "By", kind: sdkinstrument.AsyncGauge},
	"/gc/limiter/last-enabled:gc-cycle": {name: "gc.limiter.last-enabled", unit: "{gc-cycle}", kind: sdkinstrument.AsyncGauge},
	"/gc/stack/starting-size:bytes":     {name: "gc.stack.starting-size", unit: "By", kind: sdkinstrument.AsyncGauge},
	"/sched/gomaxprocs:threads":         {name: "sched.gomaxprocs", unit: "{threads}", kind: sdkinstrument.AsyncGauge},
	"/gc/heap/objects:objects":          {name: "gc.heap.objects", unit: "{objects}", kind: sdkinstrument.AsyncUpDownCounter},
	"/sched/goroutines:goroutines":      {name: "sched.goroutines", unit: "{goroutines}", kind: sdkinstrument.AsyncUpDownCounter},
}

// translate gives the key of the series a runtime metric is reported as.
func translate(d metrics.Description) (string, sdkinstrument.Kind, bool) {
	nk := number.Int64Kind
	switch d.Kind {
	case metrics.KindUint64:
	case metrics.KindFloat64:
		nk = number.Float64Kind
	default:
		return "", 0, false
	}
	f, ok := singles[d.Name]
	var at []attribute.KeyValue
	if !ok {
		for _, g := range families {
			if strings.HasPrefix(d.Name, g.pfx) && strings.HasSuffix(d.Name, g.sfx) {
				f, ok = g, true
				cl := strings.Split(strings.TrimSuffix(strings.TrimPrefix(d.Name, g.pfx), g.sfx), "/")
				if cl[len(cl)-1] == "total" {
					return "", 0, false
				}
				for i, c := range cl {
					k := "class"
					if i > 0 {
						k = fmt.Sprintf("class%d", i+1)
					}
					at = append(at, attribute.String(k, c))
				}
			}
		}
	}
	if !ok {
		return "", 0, false
	}
	return key("process.runtime.go."+f.name, f.unit, f.kind, nk, attribute.NewSet(at...)), f.kind, true
}

func key(name, unit string, k sdkinstrument.Kind, nk number.Kind, at attribute.Set) string {
	return fmt.Sprintf("%s unit=%s kind=%d num=%d {%s}", name, unit, k, nk, at.Encoded(attribute.DefaultEncoder()))
}

var errSim = errors.New("simulated fault")

// use records a reading and injects its fault.
func (w *world) use(src int) (*reading, Fault, bool) {
	n := len(w.reads[src])
	r := &reading{k: n, n: n, begin: simrt.Seq(), bad: -1}
	w.reads[src] = append(w.reads[src], r)
	f, ok := w.fault[[2]int{src, n}]
	if ok {
		w.e.Count(fmt.Sprintf("fault_%s_%d", []string{"slow", "error", "malformed"}[f.What], src))
		if f.What == 0 {
			simrt.Sleep(time.Duration(f.Us) * time.Microsecond)
		}
	}
	simrt.Y(0)
	return r, f, ok
}

func (w *world) errOf(src int, r *reading) error { return fmt.Errorf("%w %d.%d", errSim, src, r.n) }

// value of sample i in reading k.
func (w *world) value(i, k int) float64 {
	_, kind, _ := translate(w.all[i])
	v := float64(1000*k + i + 1)
	if kind != sdkinstrument.AsyncCounter {
		v = float64(1000*(k*7%13) + i)
	}
	if w.all[i].Kind == metrics.KindFloat64 {
		v += 0.5
	} else if w.all[i].Name == "/gc/gomemlimit:bytes" && w.p.Big {
		return math.MaxInt64 // there is no limit
	} else {
		v += w.big(33 + i%19)
	}
	return v
}

// big is the large part of an integer.
func (w *world) big(bit int) float64 {
	if !w.p.Big {
		return 0
	}
	return float64(int64(1) << bit)
}

func (w *world) hooks() {
	metrics.SimAll = func() []metrics.Description { return w.all }
	metrics.SimRead = func(m []metrics.Sample) {
		r, f, bad := w.use(srcRuntime)
		for x := range m {
			if x%4 == 0 {
				simrt.Y(0)
			}
			i, ok := w.names[m[x].Name]
			if !ok || bad && f.What > 0 && x == f.Us%len(m) {
				m[x].Value = metrics.SimValue(metrics.KindBad, 0)
				if ok {
					r.failed, r.bad = true, x
				}
				continue
			}
			v := w.value(i, r.k)
			switch w.all[i].Kind {
			case metrics.KindUint64:
				u := uint64(v)
				if v == math.MaxInt64 {
					u = math.MaxInt64
				}
				m[x].Value = metrics.SimValue(metrics.KindUint64, u)
			default:
				m[x].Value = metrics.SimValue(w.all[i].Kind, math.Float64bits(v))
			}
		}
		simrt.Y(0)
		r.end = simrt.Seq()
	}
	cpu.SimHook = func(ctx context.Context, percpu bool) ([]cpu.TimesStat, error) {
		r, f, bad := w.use(srcCPU)
		defer func() { r.end = simrt.Seq() }()
		k := float64(r.k)
		t := cpu.TimesStat{CPU: "cpu-total", User: 10*k + 1, System: 20*k + 2, Idle: 30*k + 3, Nice: k + 0.5, Iowait: k + 0.25, Irq: k + 4, Softirq: k + 8, Steal: k + 16, Guest: k + 32, GuestNice: k + 64}
		if bad && f.What == 1 {
			r.failed = true
			return nil, w.errOf(srcCPU, r)
		}
		if bad && f.What == 2 {
			r.failed = true
			if f.Us&1 == 0 {
				return []cpu.TimesStat{}, nil
			}
			return []cpu.TimesStat{t, t}, nil
		}
		if percpu {
			return []cpu.TimesStat{t, t}, nil
		}
		return []cpu.TimesStat{t}, nil
	}
	mem.SimHook = func(ctx context.Context) (*mem.VirtualMemoryStat, error) {
		r, f, bad := w.use(srcMem)
		defer func() { r.end = simrt.Seq() }()
		if bad && f.What > 0 {
			r.failed = true
			return nil, w.errOf(srcMem, r)
		}
		k := uint64(r.k*5%11 + 1)
		return &mem.VirtualMemoryStat{Total: 1 << 20, Used: 1000*k + uint64(w.big(41)), Available: 3000*k + uint64(w.big(43)), Free: 7 * k, Active: 9 * k, Inactive: 11 * k, Cached: 13 * k, Buffers: 17 * k, UsedPercent: 5}, nil
	}
	net.SimHook = func(ctx context.Context, pernic bool) ([]net.IOCountersStat, error) {
		r, f, bad := w.use(srcNet)
		defer func() { r.end = simrt.Seq() }()
		k := uint64(r.k)
		t := net.IOCountersStat{Name: "all", BytesSent: 100*k + 1 + uint64(w.big(50)), BytesRecv: 200*k + 2 + uint64(w.big(49)), PacketsSent: 3*k + 7, PacketsRecv: 5*k + 9}
		if bad && f.What == 1 {
			r.failed = true
			return nil, w.errOf(srcNet, r)
		}
		if bad && f.What == 2 {
			r.failed = true
			if f.Us&1 == 0 {
				return nil, nil
			}
			return []net.IOCountersStat{t, t}, nil
		}
		if pernic {
			return []net.IOCountersStat{t, t}, nil
		}
		return []net.IOCountersStat{t}, nil
	}
	syscall.SimGetrusage = func(who int, ru *syscall.Rusage) error {
		r, f, bad := w.use(srcRusage)
		defer func() { r.end = simrt.Seq() }()
		if w.p.TryFail && r.n == 0 || bad && f.What > 0 {
			r.failed = true
			return w.errOf(srcRusage, r)
		}
		if who != syscall.RUSAGE_SELF {
			*ru = syscall.Rusage{}
			return nil
		}
		*ru = syscall.Rusage{Utime: syscall.Timeval{Sec: int64(2 * r.k), Usec: 250000}, Stime: syscall.Timeval{Sec: int64(3 * r.k), Usec: 750000}}
		return nil
	}
}

func unhook() {
	metrics.SimAll, metrics.SimRead, cpu.SimHook, mem.SimHook, net.SimHook, syscall.SimGetrusage = nil, nil, nil, nil, nil, nil
}

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func run(e *simh.Env, p *Plan) {
	w := &world{e: e, p: p, names: map[string]int{}, keys: map[string]int{}, fault: map[[2]int]Fault{}, told: map[string]int{}}
	for i, d := range realAll {
		if has(p.Drop, i) {
			continue
		}
		if _, one := singles[d.Name]; one && has(p.Flip, i) && d.Kind == metrics.KindUint64 {
			d.Kind = metrics.KindFloat64
		}
		w.all = append(w.all, d)
	}
	for i, d := range extras {
		if p.Extra>>i&1 == 1 {
			w.all = append(w.all, d)
		}
	}
	for i, d := range w.all {
		w.names[d.Name] = i
		if k, _, ok := translate(d); ok {
			w.keys[k] = i
		}
	}
	for _, f := range p.Faults {
		if f.Src == srcRusage && f.N == 0 {
			continue // the trial: see TryFail
		}
		w.fault[[2]int{f.Src, f.N}] = f
	}
	handled = func(err error) {
		if strings.Contains(err.Error(), "NaN value") {
			return // the meter provider about the failed reading of the CPU time
		}
		w.nerr++
		w.told[err.Error()]++
	}
	w.hooks()
	defer unhook()

	var opts []sdk.Option
	for i, d := range p.Delta {
		rd := sdk.NewManualReader(fmt.Sprint("r", i))
		w.rd = append(w.rd, rd)
		w.acc = append(w.acc, map[string]float64{})
		var vo []view.Option
		if d {
			vo = append(vo, view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality }))
		}
		opts = append(opts, sdk.WithReader(rd, vo...))
	}
	w.lock = make([]bool, len(w.rd))
	mp := sdk.NewMeterProvider(opts...)
	if p.Global {
		otel.SetMeterProvider(mp)
	}
	var hs []*simrt.Handle
	starter := func(lib int) func() {
		return func() {
			if p.Late > 0 {
				simrt.Sleep(time.Duration(p.Late) * time.Microsecond)
			}
			w.start[lib][0] = simrt.Seq()
			w.errs[lib] = w.startLib(lib, mp)
			w.start[lib][1] = simrt.Seq()
		}
	}
	for lib := 0; lib < 3; lib++ {
		if p.Libs>>lib&1 == 1 {
			hs = append(hs, simrt.Go("start", starter(lib)))
		}
	}
	if p.Late == 0 {
		for _, h := range hs {
			simrt.Join(h)
		}
	}
	for _, cs := range p.Colls {
		cs := cs
		hs = append(hs, simrt.Go("collect", func() {
			var out data.Metrics
			for _, c := range cs {
				if c.Gap > 0 {
					simrt.Sleep(time.Duration(c.Gap) * time.Microsecond)
				}
				out = w.collect(c.R%len(w.rd), &out)
			}
		}))
	}
	for _, h := range hs {
		simrt.Join(h)
	}
	for r := range w.rd {
		w.collect(r, nil)
	}
	w.verify()
}

func (w *world) startLib(lib int, mp *sdk.MeterProvider) error {
	switch lib {
	case 0:
		if w.p.Global {
			return runtime.Start()
		}
		return runtime.Start(runtime.WithMeterProvider(mp))
	case 1:
		if w.p.Global {
			return host.Start()
		}
		return host.Start(host.WithMeterProvider(mp))
	}
	if w.p.Global {
		return cputime.Start()
	}
	return cputime.Start(cputime.WithMeterProvider(mp))
}

// sameReader keeps collections of one reader apart, so that their order, which
// delta totals depend on, is known.
func (w *world) sameReader(r int) func() {
	for w.lock[r] {
		simrt.Sleep(50 * time.Microsecond)
	}
	w.lock[r] = true
	return func() { w.lock[r] = false }
}

func (w *world) collect(r int, out *data.Metrics) data.Metrics {
	defer w.sameReader(r)()
	b := simrt.Seq()
	t0 := simrt.Elapsed()
	d := w.rd[r].Produce(out)
	t1 := simrt.Elapsed()
	end := simrt.Seq()
	simrt.Quiet(true)
	defer simrt.Quiet(false)
	w.e.Count("collection")
	byLib := map[string]map[string]float64{}
	for _, sc := range d.Scopes {
		m := byLib[sc.Library.Name]
		if m == nil {
			m = map[string]float64{}
			byLib[sc.Library.Name] = m
		}
		for _, in := range sc.Instruments {
			for _, pt := range in.Points {
				k := key(in.Descriptor.Name, string(in.Descriptor.Unit), in.Descriptor.Kind, in.Descriptor.NumberKind, pt.Attributes)
				if _, dup := m[k]; dup {
					w.e.Fail("duplicate", "two points for %s", k)
				}
				var v float64
				switch a := pt.Aggregation.(type) {
				case aggregation.Sum:
					v = a.Sum().CoerceToFloat64(in.Descriptor.NumberKind)
					if w.p.Delta[r] {
						if pt.Temporality != aggregation.DeltaTemporality {
							w.e.Fail("temporality", "%s is not delta", k)
						}
						v += w.acc[r][sc.Library.Name+"\x00"+k]
						w.acc[r][sc.Library.Name+"\x00"+k] = v
					}
					if a.IsMonotonic() != (in.Descriptor.Kind == sdkinstrument.AsyncCounter) {
						w.e.Fail("kind", "%s has monotonicity %v", k, a.IsMonotonic())
					}
				case aggregation.Gauge:
					v = a.Gauge().CoerceToFloat64(in.Descriptor.NumberKind)
				default:
					w.e.Fail("kind", "%s has an aggregation of type %T", k, a)
				}
				m[k] = v
			}
		}
	}
	// A delta reader does not report a total that has not changed.
	for lk, v := range w.acc[r] {
		l, k, _ := strings.Cut(lk, "\x00")
		if _, ok := byLib[l][k]; !ok {
			if byLib[l] == nil {
				byLib[l] = map[string]float64{}
			}
			byLib[l][k] = v
		}
	}
	w.check(r, 0, "otel-launcher-go/runtime", byLib, b, end, t0, t1)
	w.check(r, 1, "otel_launcher_go/host", byLib, b, end, t0, t1)
	w.check(r, 2, "otel_launcher_go/cputime", byLib, b, end, t0, t1)
	for l, m := range byLib {
		if len(m) > 0 {
			w.e.Fail("unexpected", "points of %s: %v", l, names(m))
		}
	}
	return d
}

func names(m map[string]float64) []string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(l)
	return l
}

// during lists the readings of a source within the collection.
func (w *world) during(src int, b, e int64) (l []*reading) {
	for _, r := range w.reads[src] {
		if r.begin >= b && r.end != 0 && r.end <= e {
			l = append(l, r)
		}
	}
	return
}

// good lists the successful readings, and none at all.
func good(l []*reading) []*reading {
	out := []*reading{nil}
	for _, r := range l {
		if !r.failed {
			out = append(out, r)
		}
	}
	return out
}

func (w *world) check(r, lib int, scope string, byLib map[string]map[string]float64, b, e int64, t0, t1 time.Duration) {
	got := byLib[scope]
	delete(byLib, scope)
	st := w.start[lib]
	ready := st[1] != 0 && st[1] < b && w.errs[lib] == nil
	if st[0] == 0 || st[0] > e || st[1] != 0 && w.errs[lib] != nil {
		if len(got) > 0 {
			w.e.Fail("unexpected", "%s is not started, but reports %v", scope, names(got))
		}
		return
	}
	if len(got) == 0 && !ready {
		return
	}
	var want []map[string]float64 // any one of these
	switch lib {
	case 0:
		for _, rd := range w.during(srcRuntime, b, e) {
			m := map[string]float64{}
			for k, i := range w.keys {
				m[k] = w.value(i, rd.k)
			}
			if rd.failed {
				// what was reported before the bad sample is right
				for k := range m {
					if _, ok := got[k]; !ok {
						delete(m, k)
					}
				}
				if len(m) == len(w.keys) {
					m["a failed reading is not complete"] = 0
				}
			}
			want = append(want, m)
		}
	case 1:
		k := func(n, u string, kd sdkinstrument.Kind, nk number.Kind, a, v string) string {
			return key(n, u, kd, nk, attribute.NewSet(attribute.String(a, v)))
		}
		cs, ms, ns := w.during(srcCPU, b, e), w.during(srcMem, b, e), w.during(srcNet, b, e)
		failed := false
		for _, l := range [][]*reading{cs, ms, ns} {
			for _, r := range l {
				failed = failed || r.failed
			}
		}
		if failed {
			// what is reported although a source failed is right
			cs, ms, ns = good(cs), good(ms), good(ns)
		}
		for _, c := range cs {
			for _, m := range ms {
				for _, n := range ns {
					x := map[string]float64{}
					if c != nil {
						ck := float64(c.k)
						t := func(s string, v float64) {
							x[k("system.cpu.time", "s", sdkinstrument.AsyncCounter, number.Float64Kind, "state", s)] = v
						}
						t("user", 10*ck+1)
						t("system", 20*ck+2)
						t("idle", 30*ck+3)
						t("other", 7*ck+0.5+0.25+4+8+16+32+64)
					}
					if m != nil {
						mk := float64(m.k*5%11 + 1)
						u := func(s string, v float64) {
							x[k("system.memory.usage", "By", sdkinstrument.AsyncUpDownCounter, number.Int64Kind, "state", s)] = v
							x[k("system.memory.utilization", "", sdkinstrument.AsyncGauge, number.Float64Kind, "state", s)] = v / (1 << 20)
						}
						u("used", 1000*mk+w.big(41))
						u("available", 3000*mk+w.big(43))
					}
					if n != nil {
						nk := float64(n.k)
						io := func(s string, v float64) {
							x[k("system.network.io", "By", sdkinstrument.AsyncCounter, number.Int64Kind, "direction", s)] = v
						}
						io("transmit", 100*nk+1+w.big(50))
						io("receive", 200*nk+2+w.big(49))
					}
					if failed {
						for k := range x {
							if _, ok := got[k]; !ok {
								delete(x, k)
							}
						}
					}
					want = append(want, x)
				}
			}
		}
	case 2:
		uk := key("process.uptime", "s", sdkinstrument.AsyncUpDownCounter, number.Float64Kind, attribute.NewSet())
		u, ok := got[uk]
		if !ok {
			for _, rd := range w.during(srcRusage, b, e) {
				if rd.failed && len(got) == 0 {
					return
				}
			}
			w.e.Fail("missing", "no uptime: %v", names(got))
		}
		// The uptime counts from an unknown moment: it keeps pace with the clock.
		lo, hi := u-t1.Seconds()-1e-6, u-t0.Seconds()+1e-6
		if !w.upOn {
			w.up, w.upOn = [2]float64{lo, hi}, true
		}
		w.up[0], w.up[1] = math.Max(w.up[0], lo), math.Min(w.up[1], hi)
		if w.up[0] > w.up[1] {
			w.e.Fail("uptime", "uptime %v between %v and %v does not keep pace with the clock", u, t0, t1)
		}
		delete(got, uk)
		for _, rd := range w.during(srcRusage, b, e) {
			x := map[string]float64{}
			if !rd.failed {
				x[key("process.cpu.time", "s", sdkinstrument.AsyncCounter, number.Float64Kind, attribute.NewSet(attribute.String("state", "user")))] = float64(2*rd.k) + 0.25
				x[key("process.cpu.time", "s", sdkinstrument.AsyncCounter, number.Float64Kind, attribute.NewSet(attribute.String("state", "system")))] = float64(3*rd.k) + 0.75
			}
			want = append(want, x)
		}
	}
	if len(want) == 0 {
		if len(got) == 0 && !ready {
			return
		}
		w.e.Fail("stale", "%s reports %v, but its source was not read during the collection", scope, names(got))
	}
	w.e.Count("group_checked")
	diff := ""
	for _, x := range want {
		d := compare(got, x)
		if d == "" {
			return
		}
		if diff == "" || len(d) < len(diff) {
			diff = d
		}
	}
	w.e.Fail("torn", "%s reports to reader %d what no reading during the collection gave (%d readings, closest differs by %s)", scope, r, len(want), diff)
}

// exact marks the keys of integers.
var exact = fmt.Sprintf(" num=%d ", number.Int64Kind)

func compare(got, want map[string]float64) string {
	var l []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			l = append(l, fmt.Sprintf("%s: missing, want %v", k, v))
		} else if math.Abs(g-v) > 1e-9*math.Max(1, math.Abs(v)) || g != v && strings.Contains(k, exact) {
			l = append(l, fmt.Sprintf("%s: %v, want %v", k, g, v))
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			l = append(l, fmt.Sprintf("%s: %v, not wanted", k, g))
		}
	}
	sort.Strings(l)
	if len(l) > 3 {
		l = append(l[:3], fmt.Sprintf("and %d more", len(l)-3))
	}
	return strings.Join(l, "; ")
}

// verify checks that every failed reading was passed on as an error, once.
func (w *world) verify() {
	want := 0
	for src := range w.reads {
		for _, r := range w.reads[src] {
			if !r.failed {
				continue
			}
			if src == srcRusage && r.n == 0 && w.p.Libs&4 != 0 && w.p.TryFail {
				continue // the trial: returned by Start
			}
			txt := w.errOf(src, r).Error()
			n := 0
			for s, c := range w.told {
				if strings.HasSuffix(s, txt) {
					n += c
				}
			}
			f := w.fault[[2]int{src, r.n}]
			if src == srcRuntime || f.What == 2 && (src == srcCPU || src == srcNet) {
				want++
				continue
			}
			if n != 1 {
				w.e.Fail("error", "%q was passed on %d times", txt, n)
			}
			want++
		}
	}
	un := 0
	if w.p.Libs&1 != 0 {
		for _, d := range w.all {
			if _, _, ok := translate(d); !ok {
				un++
			}
		}
	}
	if w.nerr < want || w.nerr > want+un {
		var l []string
		for s, c := range w.told {
			l = append(l, fmt.Sprintf("%s (%d)", s, c))
		}
		sort.Strings(l)
		w.e.Fail("error", "%d readings failed, %d metrics are unknown, the error handler is given %d errors: %s", want, un, w.nerr, strings.Join(l, "; "))
	}
	if w.p.Libs&4 != 0 && (w.errs[2] != nil) != w.p.TryFail {
		w.e.Fail("start", "cputime.Start returns %v", w.errs[2])
	}
	for lib := 0; lib < 2; lib++ {
		if w.errs[lib] != nil && (lib != 0 || len(w.keys) > 0) {
			w.e.Fail("start", "Start returns %v", w.errs[lib])
		}
	}
}

var handled func(error)

func init() {
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) {
		if err == nil {
			panic("the error handler was given a nil error")
		}
		if handled != nil {
			handled(err)
		}
	}))
	simh.Register(&simh.Prop{ID: "C20", New: func() any { return &Plan{} }, Gen: gen, Run: func(e *simh.Env, p any) { run(e, p.(*Plan)) }, Cap: 3000000, Time: time.Hour, Stall: 2 * time.Millisecond})
}

func gen(r *simh.Rand) any {
	p := &Plan{Libs: r.Range(1, 7), Global: r.P(0.1), TryFail: r.P(0.05), Extra: r.Intn(64), Big: r.P(0.3)}
	if r.P(0.5) {
		p.Libs = []int{1, 2, 4}[r.Intn(3)]
	}
	if r.P(0.3) {
		p.Late = r.Range(1, 300)
	}
	// mostly few runtime metrics: runs are shorter
	keep := r.Range(2, 12)
	if r.P(0.1) {
		keep = len(realAll)
	}
	for i := range realAll {
		if r.Intn(len(realAll)) >= keep {
			p.Drop = append(p.Drop, i)
		} else if r.P(0.1) {
			p.Flip = append(p.Flip, i)
		}
	}
	failing := r.P(0.5)
	for i := r.Range(1, 3); i > 0; i-- {
		p.Delta = append(p.Delta, !failing && r.P(0.4))
	}
	for i := r.Range(1, 4); i > 0; i-- {
		var cs []Coll
		for k := r.Range(1, 6); k > 0; k-- {
			c := Coll{R: r.Intn(len(p.Delta))}
			if r.P(0.5) {
				c.Gap = r.Range(1, 200)
			}
			cs = append(cs, c)
		}
		p.Colls = append(p.Colls, cs)
	}
	for i := r.Range(0, 4); i > 0; i-- {
		f := Fault{Src: r.Intn(nSrc), N: r.Intn(8), Us: r.Range(1, 300)}
		if failing {
			f.What = r.Intn(3)
		}
		p.Faults = append(p.Faults, f)
	}
	return p
}
