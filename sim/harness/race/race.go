// Package race simulates applications that use every part of the metrics SDK
// concurrently, under the race detector.  This package and the SDK are compiled
// with race instrumentation, the simulator is not: the only synchronisation the
// detector sees is the SDK's own.  Therefore goroutines here share nothing but
// what a documented use of the SDK shares, and results are counted after Join.
package race

import (
	"context"
	"errors"
	"fmt"
	"math"
	"runtime/metrics"
	"syscall"
	"time"

	"github.com/shirou/gopsutil/v3/cpu"
	"github.com/shirou/gopsutil/v3/mem"
	"github.com/shirou/gopsutil/v3/net"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	api "go.opentelemetry.io/otel/metric"

	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/cputime"
	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/host"
	rtinst "github.com/lightstep/otel-launcher-go/lightstep/instrumentation/runtime"
	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// Plan is one run.
type Plan struct {
	Readers  []RPlan `json:"readers"`
	Insts    []int   `json:"insts"` // kinds
	Meters   int     `json:"meters"`
	Inactive int     `json:"inactive"`
	ICard    int     `json:"icard,omitempty"`
	ACard    int     `json:"acard,omitempty"`
	Trunc    int     `json:"trunc,omitempty"`
	Ignore   bool    `json:"ignore,omitempty"`
	Proc     bool    `json:"proc,omitempty"`
	Cbs      [][]int `json:"cbs,omitempty"` // instruments of the initial callbacks
	Actors   [][]Op  `json:"actors"`
}

// RPlan is a reader.
type RPlan struct {
	Tempo    int     `json:"tempo"`
	Periodic int     `json:"periodic,omitempty"` // ms
	Views    []VPlan `json:"views,omitempty"`
	ExportUs int     `json:"export_us,omitempty"`
	Fail     int     `json:"fail,omitempty"` // every n-th export fails
}

// VPlan is a view clause.
type VPlan struct {
	Inst   int  `json:"inst"`
	Keys   bool `json:"keys,omitempty"`
	Rename bool `json:"rename,omitempty"`
	Agg    int  `json:"agg,omitempty"`
}

// Op is one step of an actor.
type Op struct {
	K   int `json:"k"`
	I   int `json:"i,omitempty"`
	A   int `json:"a,omitempty"`
	V   int `json:"v,omitempty"`
	Gap int `json:"gap,omitempty"` // us
}

const (
	opMeasure  = iota
	opCreate   // create an instrument again, possibly in conflict
	opCollect  // pull from a reader
	opFlush    // ForceFlush
	opRegister // register a callback
	opUnreg    // unregister an initial callback, or the actor's own
	opMeter    // get a meter
	opShutdown
	opError // describe a conflict found earlier
	opStart // start a built-in library
	nOps
)

const (
	kIntCounter = iota
	kFloatCounter
	kIntUpDown
	kFloatUpDown
	kIntHist
	kFloatHist
	kIntGauge
	kFloatGauge
	kIntOC // asynchronous from here
	kFloatOC
	kIntOU
	kFloatOU
	kIntOG
	kFloatOG
	nKinds
)

type ctxKey struct{}

type processor struct{}

func (processor) Process(ctx context.Context, in []attribute.KeyValue) []attribute.KeyValue {
	v, _ := ctx.Value(ctxKey{}).(int)
	if v == 0 {
		return in
	}
	out := make([]attribute.KeyValue, 0, len(in)+1)
	return append(append(out, in...), attribute.Int("P", v))
}

type inst struct {
	kind int
	name string
	obj  any
}

// world is written before the actors start and only read by them.
type world struct {
	p      *Plan
	mp     *sdk.MeterProvider
	meters []api.Meter
	insts  []*inst
	man    []*sdk.ManualReader
	regs   []api.Registration
	confs  []error
	shared [][]attribute.KeyValue
}

// tally is an actor's own count.
type tally struct {
	n   [nOps]int
	sum float64
}

// exporter reads everything it is given.
type exporter struct {
	us, fail int
	n        int // the reader exports one collection at a time
	sum      float64
	prev     data.Metrics
}

func (x *exporter) String() string { return "sim" }
func (x *exporter) ExportMetrics(ctx context.Context, m data.Metrics) error {
	x.n++
	x.sum += touch(&m)
	if x.us > 0 {
		simrt.Sleep(time.Duration(x.us) * time.Microsecond)
	} else {
		simrt.Y(0)
	}
	x.sum += touch(&m)
	if x.fail > 0 && x.n%x.fail == 0 {
		return errors.New("simulated export failure")
	}
	return nil
}
func (x *exporter) ForceFlushMetrics(ctx context.Context, m data.Metrics) error {
	return x.ExportMetrics(ctx, m)
}
func (x *exporter) ShutdownMetrics(ctx context.Context, m data.Metrics) error {
	return x.ExportMetrics(ctx, m)
}

// touch reads all of a collection.
func touch(m *data.Metrics) float64 {
	var s float64
	if m.Resource != nil {
		s += float64(m.Resource.Len())
	}
	for i := range m.Scopes {
		sc := &m.Scopes[i]
		s += float64(len(sc.Library.Name) + len(sc.Library.Version) + len(sc.Library.SchemaURL))
		for j := range sc.Instruments {
			in := &sc.Instruments[j]
			d := in.Descriptor
			s += float64(len(d.Name)+len(d.Description)+len(d.Unit)) + float64(d.Kind) + float64(d.NumberKind)
			for k := range in.Points {
				p := &in.Points[k]
				s += float64(p.Attributes.Len()) + float64(p.Temporality)
				for it := p.Attributes.Iter(); it.Next(); {
					s += float64(len(it.Attribute().Value.Emit()))
				}
				if p.Start.After(p.End) {
					s++
				}
				switch a := p.Aggregation.(type) {
				case aggregation.Sum:
					s += num(a.Sum())
				case aggregation.Gauge:
					s += num(a.Gauge())
				}
				if h, ok := p.Aggregation.(aggregation.Histogram); ok {
					s += float64(h.Count()) + num(h.Sum()) + num(h.Min()) + num(h.Max()) + float64(h.ZeroCount()) + float64(h.Scale())
					for _, b := range []aggregation.Buckets{h.Positive(), h.Negative()} {
						s += float64(b.Offset())
						for x := uint32(0); x < b.Len(); x++ {
							s += float64(b.At(x))
						}
					}
				} else if h, ok := p.Aggregation.(aggregation.MinMaxSumCount); ok {
					s += float64(h.Count()) + num(h.Sum()) + num(h.Min()) + num(h.Max())
				}
			}
		}
	}
	return s
}

func num(n number.Number) float64 { return float64(n) }

func attrsOf(a int) []attribute.KeyValue {
	switch a % 6 {
	case 0:
		return []attribute.KeyValue{attribute.Int("A", 1), attribute.Int("B", 2)}
	case 1:
		return []attribute.KeyValue{attribute.Int("B", 2), attribute.Int("A", 1)}
	case 2:
		return []attribute.KeyValue{attribute.String("A", "a long attribute value"), attribute.Int("C", 3)}
	case 3:
		return []attribute.KeyValue{attribute.StringSlice("S", []string{"long enough to cut", "y"})}
	case 4:
		return []attribute.KeyValue{attribute.Int("A", 1), attribute.Int("A", 2), attribute.String("longer key than allowed", "v")}
	}
	return nil
}

func (w *world) create(m api.Meter, kind int, name, desc, unit string) (any, error) {
	switch kind {
	case kIntCounter:
		return m.Int64Counter(name, api.WithDescription(desc), api.WithUnit(unit))
	case kFloatCounter:
		return m.Float64Counter(name, api.WithDescription(desc), api.WithUnit(unit))
	case kIntUpDown:
		return m.Int64UpDownCounter(name, api.WithDescription(desc), api.WithUnit(unit))
	case kFloatUpDown:
		return m.Float64UpDownCounter(name, api.WithDescription(desc), api.WithUnit(unit))
	case kIntHist:
		return m.Int64Histogram(name, api.WithDescription(desc), api.WithUnit(unit))
	case kFloatHist:
		return m.Float64Histogram(name, api.WithDescription(desc), api.WithUnit(unit))
	case kIntGauge:
		return m.Int64Gauge(name, api.WithDescription(desc), api.WithUnit(unit))
	case kFloatGauge:
		return m.Float64Gauge(name, api.WithDescription(desc), api.WithUnit(unit))
	case kIntOC:
		return m.Int64ObservableCounter(name, api.WithDescription(desc), api.WithUnit(unit))
	case kFloatOC:
		return m.Float64ObservableCounter(name, api.WithDescription(desc), api.WithUnit(unit))
	case kIntOU:
		return m.Int64ObservableUpDownCounter(name, api.WithDescription(desc), api.WithUnit(unit))
	case kFloatOU:
		return m.Float64ObservableUpDownCounter(name, api.WithDescription(desc), api.WithUnit(unit))
	case kIntOG:
		return m.Int64ObservableGauge(name, api.WithDescription(desc), api.WithUnit(unit))
	}
	return m.Float64ObservableGauge(name, api.WithDescription(desc), api.WithUnit(unit))
}

var bads = []float64{math.NaN(), math.Inf(1), math.Inf(-1), -3}

// measure makes one measurement; style selects how attributes are given.
func (w *world) measure(obj any, kind, style, v int, kvs []attribute.KeyValue) {
	ctx := context.Background()
	if w.p.Proc && v&1 == 1 {
		ctx = context.WithValue(ctx, ctxKey{}, 1+v%2)
	}
	f := float64(v%50) * 1.5
	if v >= 900 {
		f = bads[v%4]
	}
	n := int64(v % 50)
	if v >= 900 {
		n = -1
	}
	if style%4 == 2 {
		switch o := obj.(type) {
		case bypass.FastInt64Adder:
			o.AddWithKeyValues(ctx, n, kvs...)
			return
		case bypass.FastFloat64Adder:
			o.AddWithKeyValues(ctx, f, kvs...)
			return
		case bypass.FastInt64Recorder:
			o.RecordWithKeyValues(ctx, n, kvs...)
			return
		case bypass.FastFloat64Recorder:
			o.RecordWithKeyValues(ctx, f, kvs...)
			return
		}
	}
	opt := api.WithAttributes(kvs...)
	if style%4 == 1 {
		opt = api.WithAttributeSet(attribute.NewSet(append([]attribute.KeyValue(nil), kvs...)...))
	}
	switch o := obj.(type) {
	case api.Int64Counter:
		o.Add(ctx, n, opt)
	case api.Float64Counter:
		o.Add(ctx, f, opt)
	case api.Int64Histogram:
		o.Record(ctx, n, opt)
	case api.Float64Histogram:
		o.Record(ctx, f, opt)
	case api.Int64UpDownCounter:
		o.Add(ctx, n, opt)
	case api.Float64UpDownCounter:
		o.Add(ctx, f, opt)
	case api.Int64Gauge:
		o.Record(ctx, n, opt)
	case api.Float64Gauge:
		o.Record(ctx, f, opt)
	}
}

func (w *world) observe(o api.Observer, i int, v int) {
	kv := api.WithAttributes(attrsOf(v)...)
	switch x := w.insts[i].obj.(type) {
	case api.Int64Observable:
		o.ObserveInt64(x, int64(v), kv)
	case api.Float64Observable:
		o.ObserveFloat64(x, float64(v), kv)
	}
}

func (w *world) async(from int) int {
	for d := range w.insts {
		i := (from + d) % len(w.insts)
		if w.insts[i].kind >= kIntOC {
			return i
		}
	}
	return -1
}

// callback observes the given instruments; it is called by every reader, so it
// keeps no state.
func (w *world) callback(is []int, v int) api.Callback {
	return func(ctx context.Context, o api.Observer) error {
		var h *simrt.Handle
		if v%3 == 1 { // a callback that gathers its values concurrently
			h = simrt.Go("observer", func() {
				for n, i := range is {
					w.observe(o, i, v+n)
				}
			})
		}
		for n, i := range is {
			for k := 0; k < 2; k++ {
				w.observe(o, i, v+n+k)
			}
			simrt.Y(0)
		}
		if h != nil && v%2 == 0 { // or that leaves a goroutine behind, which the SDK tolerates
			simrt.Join(h)
		}
		if v%7 == 6 {
			return errors.New("simulated callback failure")
		}
		return nil
	}
}

func (w *world) actor(ops []Op, t *tally) {
	var own []api.Registration
	var held []data.Metrics
	var errs []error
	buf := make([]attribute.KeyValue, 0, 4)
	ctx := context.Background()
	for _, o := range ops {
		if o.Gap > 0 {
			simrt.Sleep(time.Duration(o.Gap) * time.Microsecond)
		}
		t.n[o.K]++
		in := w.insts[o.I%len(w.insts)]
		m := w.meters[o.I%len(w.meters)]
		switch o.K {
		case opMeasure:
			switch {
			case o.A >= 20: // attributes shared by several callers
				w.measure(in.obj, in.kind, o.A, o.V, w.shared[o.A%len(w.shared)])
			case o.A >= 10: // a buffer the caller uses again
				buf = append(buf[:0], attrsOf(o.A)...)
				w.measure(in.obj, in.kind, o.A, o.V, buf)
				for i := range buf {
					buf[i] = attribute.Int("Z", i)
				}
			default:
				w.measure(in.obj, in.kind, o.A, o.V, attrsOf(o.A))
			}
		case opCreate:
			kind := in.kind
			if o.V%4 == 3 {
				kind = (kind + o.V) % nKinds
			}
			name := in.name
			if o.V%11 == 10 {
				name = fmt.Sprintf("n%d", o.A%3)
			}
			obj, err := w.create(m, kind, name, []string{"", "short", "a longer description", "the longest description of all"}[o.A%4], []string{"", "By"}[o.V/4%2])
			if err != nil {
				t.sum += float64(len(err.Error()))
				errs = append(errs, err)
			}
			w.measure(obj, kind, o.A, o.V, attrsOf(o.A))
		case opCollect:
			if len(w.man) == 0 {
				break
			}
			var d data.Metrics
			if o.V%3 == 0 && len(held) > 0 && o.A%2 == 0 {
				d = w.man[o.I%len(w.man)].Produce(&held[len(held)-1])
				held = held[:len(held)-1]
			} else {
				d = w.man[o.I%len(w.man)].Produce(nil)
			}
			t.sum += touch(&d)
			held = append(held, d)
		case opFlush:
			c, cancel := ctx, context.CancelFunc(func() {})
			if o.V%3 == 0 {
				c, cancel = context.WithTimeout(ctx, time.Duration(o.A)*100*time.Microsecond)
			}
			_ = w.mp.ForceFlush(c)
			cancel()
		case opRegister:
			i := w.async(o.I)
			if i < 0 {
				break
			}
			r, err := m.RegisterCallback(w.callback([]int{i}, o.V), w.insts[i].obj.(api.Observable))
			if err == nil {
				own = append(own, r)
			} else {
				t.sum += float64(len(err.Error()))
			}
		case opUnreg:
			if o.V%2 == 0 && len(own) > 0 {
				_ = own[0].Unregister()
				own = own[1:]
			} else if len(w.regs) > 0 {
				_ = w.regs[o.I%len(w.regs)].Unregister()
			}
		case opMeter:
			mm := w.mp.Meter(fmt.Sprintf("m%d", o.I%4), api.WithInstrumentationVersion([]string{"", "v1"}[o.V%2]), api.WithSchemaURL([]string{"", "url"}[o.A%2]))
			obj, err := w.create(mm, o.V%nKinds, "x", "", "")
			if err == nil {
				w.measure(obj, o.V%nKinds, 0, o.V, attrsOf(o.A))
			}
		case opShutdown:
			_ = w.mp.Shutdown(ctx)
		case opError:
			for _, err := range errs {
				t.sum += float64(len(err.Error()))
			}
			if len(w.confs) > 0 {
				t.sum += float64(len(w.confs[o.I%len(w.confs)].Error()))
			}
			for i := range held {
				t.sum += touch(&held[i])
			}
		case opStart:
			switch o.V % 3 {
			case 0:
				_ = rtinst.Start(rtinst.WithMeterProvider(w.mp))
			case 1:
				_ = host.Start(host.WithMeterProvider(w.mp))
			case 2:
				_ = cputime.Start(cputime.WithMeterProvider(w.mp))
			}
		}
	}
	for i := range held {
		t.sum += touch(&held[i])
	}
}

// kindOf is only read after initialization.
var kindOf = map[string]metrics.ValueKind{}

func init() {
	for _, d := range metrics.All() {
		kindOf[d.Name] = d.Kind
	}
}

func hooks() {
	metrics.SimRead = func(m []metrics.Sample) {
		for x := range m {
			if k := kindOf[m[x].Name]; k == metrics.KindFloat64 {
				m[x].Value = metrics.SimValue(k, math.Float64bits(float64(x)))
			} else {
				m[x].Value = metrics.SimValue(metrics.KindUint64, uint64(x))
			}
		}
		simrt.Y(0)
	}
	cpu.SimHook = func(ctx context.Context, percpu bool) ([]cpu.TimesStat, error) {
		simrt.Y(0)
		return []cpu.TimesStat{{CPU: "cpu-total", User: 1, System: 2, Idle: 3}}, nil
	}
	mem.SimHook = func(ctx context.Context) (*mem.VirtualMemoryStat, error) {
		simrt.Y(0)
		return &mem.VirtualMemoryStat{Total: 1 << 20, Used: 1000, Available: 3000}, nil
	}
	net.SimHook = func(ctx context.Context, pernic bool) ([]net.IOCountersStat, error) {
		simrt.Y(0)
		return []net.IOCountersStat{{Name: "all", BytesSent: 100, BytesRecv: 200}}, nil
	}
	syscall.SimGetrusage = func(who int, ru *syscall.Rusage) error {
		simrt.Y(0)
		*ru = syscall.Rusage{Utime: syscall.Timeval{Sec: 2, Usec: 250000}, Stime: syscall.Timeval{Sec: 3}}
		return nil
	}
}

type quietHandler struct{}

func (quietHandler) Handle(error) {}

func init() { otel.SetErrorHandler(quietHandler{}) }

func run(e *simh.Env, p *Plan) {
	hooks()
	w := &world{p: p}
	perf := sdkinstrument.Performance{
		IgnoreCollisions:           p.Ignore,
		InactiveCollectionPeriods:  uint32(p.Inactive),
		InstrumentCardinalityLimit: uint32(p.ICard),
		AggregatorCardinalityLimit: uint32(p.ACard),
		AttributeSizeLimit:         uint32(p.Trunc),
	}
	if p.Proc {
		perf.MeasurementProcessor = processor{}
	}
	opts := []sdk.Option{sdk.WithPerformance(perf)}
	var exps []*exporter
	for ri, r := range p.Readers {
		sel := view.StandardTemporality
		switch r.Tempo {
		case 1:
			sel = view.DeltaPreferredTemporality
		case 2:
			sel = func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality }
		}
		vo := []view.Option{view.WithDefaultAggregationTemporalitySelector(sel)}
		for _, v := range r.Views {
			co := []view.ClauseOption{view.MatchInstrumentName(fmt.Sprintf("i%d", v.Inst))}
			if v.Keys {
				co = append(co, view.WithKeys([]attribute.Key{"A"}))
			}
			if v.Rename {
				co = append(co, view.WithName(fmt.Sprintf("r%d", v.Inst)))
			}
			switch v.Agg {
			case 1:
				co = append(co, view.WithAggregation(aggregation.MinMaxSumCountKind))
			case 2:
				co = append(co, view.WithAggregation(aggregation.HistogramKind), view.WithAggregatorConfig(aggregator.Config{Histogram: histogram.NewConfig(histogram.WithMaxSize(4))}))
			case 3:
				co = append(co, view.WithAggregation(aggregation.DropKind))
			}
			vo = append(vo, view.WithClause(co...))
		}
		if r.Periodic > 0 {
			x := &exporter{us: r.ExportUs, fail: r.Fail}
			exps = append(exps, x)
			opts = append(opts, sdk.WithReader(sdk.NewPeriodicReader(x, time.Duration(r.Periodic)*time.Millisecond, sdk.WithTimeout(50*time.Millisecond)), vo...))
		} else {
			m := sdk.NewManualReader(fmt.Sprintf("r%d", ri))
			w.man = append(w.man, m)
			opts = append(opts, sdk.WithReader(m, vo...))
		}
	}
	w.mp = sdk.NewMeterProvider(opts...)
	for i := 0; i < p.Meters; i++ {
		w.meters = append(w.meters, w.mp.Meter(fmt.Sprintf("m%d", i)))
	}
	for i, k := range p.Insts {
		in := &inst{kind: k, name: fmt.Sprintf("i%d", i)}
		in.obj, _ = w.create(w.meters[i%len(w.meters)], k, in.name, "", "")
		w.insts = append(w.insts, in)
	}
	for i, k := range p.Insts {
		if i%2 == 0 {
			if _, err := w.create(w.meters[i%len(w.meters)], (k+1)%nKinds, fmt.Sprintf("i%d", i), "d", ""); err != nil {
				w.confs = append(w.confs, err)
			}
		}
	}
	for n, is := range p.Cbs {
		var l []int
		var obs []api.Observable
		for _, i := range is {
			if j := w.async(i); j >= 0 && w.insts[j].kind >= kIntOC && j%len(w.meters) == n%len(w.meters) {
				l = append(l, j)
				obs = append(obs, w.insts[j].obj.(api.Observable))
			}
		}
		if len(obs) == 0 {
			continue
		}
		if r, err := w.meters[n%len(w.meters)].RegisterCallback(w.callback(l, n), obs...); err == nil {
			w.regs = append(w.regs, r)
		}
	}
	for i := 0; i < 3; i++ {
		w.shared = append(w.shared, attrsOf(i*2))
	}
	tallies := make([]*tally, len(p.Actors))
	var hs []*simrt.Handle
	for i, ops := range p.Actors {
		t := &tally{}
		tallies[i] = t
		ops := ops
		hs = append(hs, simrt.Go(fmt.Sprintf("actor%d", i), func() { w.actor(ops, t) }))
	}
	for _, h := range hs {
		simrt.Join(h)
	}
	_ = w.mp.Shutdown(context.Background())
	for _, t := range tallies {
		for k, n := range t.n {
			for ; n > 0; n-- {
				e.Count("op_" + opNames[k])
			}
		}
	}
	for _, x := range exps {
		for i := 0; i < x.n; i++ {
			e.Count("exports")
		}
		if x.fail > 0 {
			for i := 0; i < x.n/x.fail; i++ {
				e.Count("fault_export_error")
			}
		}
	}
}

var opNames = []string{"measure", "create", "collect", "flush", "register", "unregister", "meter", "shutdown", "error", "start"}

func gen(r *simh.Rand) *Plan {
	p := &Plan{Meters: r.Range(1, 2), Inactive: r.Range(1, 3)}
	for n := r.Range(1, 3); n > 0; n-- {
		rp := RPlan{Tempo: r.Intn(3)}
		if r.P(0.4) {
			rp.Periodic = r.Range(1, 4)
			if r.P(0.4) {
				rp.ExportUs = r.Range(50, 3000)
			}
			if r.P(0.3) {
				rp.Fail = r.Range(1, 3)
			}
		}
		p.Readers = append(p.Readers, rp)
	}
	for n := r.Range(1, 5); n > 0; n-- {
		p.Insts = append(p.Insts, r.Intn(nKinds))
	}
	for i := range p.Readers {
		for n := r.Intn(3); n > 0; n-- {
			p.Readers[i].Views = append(p.Readers[i].Views, VPlan{Inst: r.Intn(len(p.Insts)), Keys: r.Bool(), Rename: r.P(0.3), Agg: r.Intn(4)})
		}
	}
	if r.P(0.3) {
		p.ICard = r.Range(1, 4)
	}
	if r.P(0.3) {
		p.ACard = r.Range(1, 4)
	}
	if r.P(0.3) {
		p.Trunc = r.Range(3, 10)
	}
	p.Ignore = r.P(0.3)
	p.Proc = r.P(0.2)
	for n := r.Intn(4); n > 0; n-- {
		var l []int
		for k := r.Range(1, 3); k > 0; k-- {
			l = append(l, r.Intn(8))
		}
		p.Cbs = append(p.Cbs, l)
	}
	// A run favours a few kinds of operations, so that they meet.
	var w [nOps]int
	w[opMeasure], w[opCollect] = r.Range(1, 8), r.Range(1, 6)
	for k := opCreate; k < nOps; k++ {
		if k != opCollect && r.P(0.35) {
			w[k] = r.Range(1, 4)
		}
	}
	if w[opShutdown] > 0 {
		w[opShutdown] = 1
	}
	tot := 0
	for _, x := range w {
		tot += x
	}
	wide := r.Range(1, 30)
	gap := r.P(0.3)
	for n := r.Range(2, 5); n > 0; n-- {
		var ops []Op
		for k := r.Range(2, 8); k > 0; k-- {
			x := r.Intn(tot)
			o := Op{}
			for x >= w[o.K] {
				x -= w[o.K]
				o.K++
			}
			if o.K == opStart && r.P(0.5) {
				o.K = opCollect
			}
			o.I, o.A, o.V = r.Intn(len(p.Insts)*2), r.Intn(wide), r.Intn(100)
			if o.K == opMeasure && r.P(0.1) {
				o.V += 900
			}
			if gap && r.P(0.4) {
				o.Gap = r.Range(10, 2000)
			}
			ops = append(ops, o)
		}
		p.Actors = append(p.Actors, ops)
	}
	return p
}

func init() {
	simh.Register(&simh.Prop{ID: "C12", New: func() any { return new(Plan) }, Gen: func(r *simh.Rand) any { return gen(r) },
		Run: func(e *simh.Env, p any) { run(e, p.(*Plan)) }, Cap: 6000000, Time: time.Minute})
}
