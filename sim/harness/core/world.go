// Package core simulates applications using the metrics SDK: writer
// goroutines, callbacks, several readers (pull and periodic push) with faulty
// exporters, and checks every collected value against the history of calls.
//
// Encoding: the k-th operation on an instrument carries the value +-2^k, so
// that every sum decodes to the exact set of operations it contains.
package core

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
	"time"

	"go.opentelemetry.io/otel/attribute"
	api "go.opentelemetry.io/otel/metric"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// ---- plan

type Plan struct {
	Readers  []RPlan   `json:"readers"`
	Insts    []IPlan   `json:"insts"`
	Attrs    []KVs     `json:"attrs"`
	Workers  [][]Op    `json:"workers"`
	Flushers [][]Flush `json:"flushers,omitempty"`
	Inactive int       `json:"inactive"`
	Ignore   bool      `json:"ignore"`
	ICard    int       `json:"icard"`
	ACard    int       `json:"acard"`
	Trunc    int       `json:"trunc"`
	Proc     bool      `json:"proc"`
	Meters   int       `json:"meters"`
	Async    []AIPlan  `json:"async,omitempty"`
	Cbs      []CbPlan  `json:"cbs,omitempty"`
	Actors   [][]CbOp  `json:"actors,omitempty"`
	Phases   int       `json:"phases,omitempty"`
	Exact    bool      `json:"exact,omitempty"`
	Keep     [][]int   `json:"keep,omitempty"` // per round: the readers that collect
	RunUs    int       `json:"run_us,omitempty"`
	Big      bool      `json:"big,omitempty"`   // integers beyond 2^53, fractions
	Twice    bool      `json:"twice,omitempty"` // the readers are given to a second provider
}

// RPlan is one reader.
type RPlan struct {
	Tempo      int     `json:"tempo"`                 // 0 cumulative, 1 delta preferred, 2 all delta
	Periodic   int     `json:"periodic"`              // interval in ms; 0: manual
	TimeoutMs  int     `json:"timeout,omitempty"`     // negative: an option that sets none
	NoInterval int     `json:"no_interval,omitempty"` // given no interval (1: zero, 2: negative): the default is used
	Views      []VPlan `json:"views,omitempty"`
	Collectors [][]int `json:"collectors,omitempty"` // manual: gaps (us) before each collection
	Reuse      bool    `json:"reuse,omitempty"`
	Exports    []Fault `json:"exports,omitempty"` // periodic: behaviour of the n-th export
}

// Fault is what the exporter does with one export.
type Fault struct {
	SleepUs int  `json:"sleep_us,omitempty"`
	Err     bool `json:"err,omitempty"`
	Obey    bool `json:"obey,omitempty"` // return early when the context ends
}

// VPlan is a view clause for one instrument.
type VPlan struct {
	Inst   int `json:"inst"` // >= 100: asynchronous
	Keys   int `json:"keys"` // 0 all, 1 {A}, 2 {}, 3 {B,C}
	Rename int `json:"rename"`
	Agg    int `json:"agg"` // 0 default 1 mmsc 2 histogram 3 sum 4 drop
}

type IPlan struct {
	Kind  int `json:"kind"` // see kinds
	Meter int `json:"meter"`
	HAgg  int `json:"hagg,omitempty"`   // aggregation hint in the description: 1 gauge 2 minmaxsumcount 3 histogram
	HTemp int `json:"htempo,omitempty"` // temporality hint: 1 delta 2 cumulative
}

// hint is the description of the instrument.
func (p IPlan) hint() string {
	var h []string
	if p.HAgg > 0 {
		h = append(h, fmt.Sprintf("%q:%q", "aggregation", []string{"gauge", "minmaxsumcount", "histogram"}[(p.HAgg-1)%3]))
	}
	if p.HTemp > 0 {
		h = append(h, fmt.Sprintf("%q:%q", "temporality", []string{"delta", "cumulative"}[(p.HTemp-1)%2]))
	}
	if h == nil {
		return ""
	}
	return "{" + strings.Join(h, ",") + "}"
}

const (
	kIntCounter = iota
	kFloatCounter
	kIntUpDown
	kFloatUpDown
	kIntHist
	kFloatHist
	kIntGauge
	kFloatGauge
	nKinds
)

type KV struct {
	K string `json:"k"`
	T int    `json:"t"` // 0 int 1 string 2 bool 3 intslice 4 stringslice 5 float
	V int    `json:"v"`
	S string `json:"s,omitempty"`
	L string `json:"l,omitempty"` // suffix
}

type KVs []KV

func (l KVs) attrs() []attribute.KeyValue {
	out := make([]attribute.KeyValue, 0, len(l)+2)
	for _, kv := range l {
		k := attribute.Key(kv.K)
		switch kv.T {
		case 1:
			out = append(out, k.String(fmt.Sprintf("%s%d%s", kv.S, kv.V, kv.L)))
		case 2:
			out = append(out, k.Bool(kv.V&1 == 1))
		case 3:
			out = append(out, k.Int64Slice([]int64{int64(kv.V), int64(kv.V) * 10, 7}))
		case 6:
			out = append(out, k.Int64Slice([]int64{7, int64(kv.V) * 10, int64(kv.V)}))
		case 4:
			out = append(out, k.StringSlice([]string{fmt.Sprintf("%s%d%s", kv.S, kv.V, kv.L), fmt.Sprintf("x%s", kv.L)}))
		case 7:
			out = append(out, k.StringSlice([]string{fmt.Sprintf("x%s", kv.L), fmt.Sprintf("%s%d%s", kv.S, kv.V, kv.L)}))
		case 8:
			out = append(out, k.BoolSlice([]bool{kv.V&1 == 1, kv.V&1 == 0}))
		case 9:
			out = append(out, k.Float64Slice([]float64{float64(kv.V), 7}))
		case 10:
			out = append(out, k.Float64Slice([]float64{7, float64(kv.V)}))
		case 11:
			out = append(out, k.String(fmt.Sprint(kv.V)))
		case 12: // equal sums of elements: [] [0], [1] [1 0] [0 1]
			out = append(out, k.Int64Slice([][]int64{{}, {0}, {1}, {1, 0}, {0, 1}}[kv.V%5]))
		case 13:
			out = append(out, k.BoolSlice([][]bool{{}, {false}, {true}, {true, false}, {false, true}}[kv.V%5]))
		case 14:
			out = append(out, k.Float64Slice([][]float64{{}, {0}, {1}, {1, 0}, {0, 1}}[kv.V%5]))
		case 15:
			out = append(out, k.StringSlice([][]string{{}, {""}, {"a", "b"}, {"b", "a"}, {"ab"}}[kv.V%5]))
		case 16: // the bits of float64(V)
			out = append(out, k.Int64(int64(math.Float64bits(float64(kv.V)))))
		case 5:
			out = append(out, k.Float64(float64(kv.V)))
		default:
			out = append(out, k.Int(kv.V))
		}
	}
	return out
}

type Op struct {
	I   int  `json:"i"`
	A   int  `json:"a"`
	Api int  `json:"api,omitempty"` // 0 set, 1 attributes, 2 bypass with a reused slice, 3 bypass with a slice shared by all callers
	Gap int  `json:"gap,omitempty"` // us
	New bool `json:"new,omitempty"` // look the instrument up again
	Bad int  `json:"bad,omitempty"` // 1 NaN 2 +Inf 3 -Inf 4 negative 5 zero (valid)
	R   int  `json:"r,omitempty"`   // round
	N   int  `json:"n,omitempty"`   // more measurements, of 0
}

// Flush is an operation of a client goroutine.
type Flush struct {
	Gap       int  `json:"gap,omitempty"`
	What      int  `json:"what,omitempty"` // 0 ForceFlush 1 Shutdown
	TimeoutUs int  `json:"timeout_us,omitempty"`
	Canceled  bool `json:"canceled,omitempty"`
}

// ---- world

type opRec struct {
	id         int // bit
	inst       *instr
	valid      bool
	neg        bool
	start, end int64
	val        float64
	list       []attribute.KeyValue // as seen by the SDK after truncation/processing
	set        attribute.Set
	lkey       string // the raw list, in any order
	worker     int
	own        bool // has a series of its own (C10)
}

type instr struct {
	idx     int
	p       IPlan
	name    string
	isInt   bool
	ops     []*opRec
	zops    []*opRec // measurements of 0
	negMask uint64
	allMask uint64
	shared  *handle
	mul     int64 // what is recorded is val*mul (ints)
	exp     int   // or val*2^exp (floats)
}

func (in *instr) int(rec *opRec) int64     { return int64(rec.val) * in.mul }
func (in *instr) float(rec *opRec) float64 { return math.Ldexp(rec.val, in.exp) }

func (in *instr) toF(n number.Number) float64 { return unscale(n, in.isInt, in.mul, in.exp) }

func unscale(n number.Number, isInt bool, mul int64, exp int) float64 {
	if isInt && mul > 1 {
		v := number.ToInt64(n)
		if v%mul != 0 {
			return math.NaN()
		}
		return float64(v / mul)
	}
	return math.Ldexp(toF(n, isInt), -exp)
}

type handle struct {
	i64a bypass.FastInt64Adder
	f64a bypass.FastFloat64Adder
	i64r bypass.FastInt64Recorder
	f64r bypass.FastFloat64Recorder
	obj  any
}

// outSpec is one expected output of an instrument at a reader.
type outSpec struct {
	in    *instr
	name  string
	keys  int
	agg   aggregation.Kind
	delta bool
}

type reader struct {
	idx    int
	p      RPlan
	man    *sdk.ManualReader
	per    *sdk.PeriodicReader
	prod   sdk.Producer
	outs   map[string]*outSpec // by output name
	open   int                 // Produce calls in progress
	colls  []*coll
	cum    map[string]map[string]uint64 // out -> series -> delivered so far (delta) or last seen
	aouts  map[string]*aspec
	exp    *exporter
	held   []heldData
	opened int64 // number of Produce calls begun
}

type heldData struct {
	d   data.Metrics
	sum string
	c   *coll
}

type pointVal struct {
	mask  uint64
	count uint64
	min   float64
	max   float64
	raw   float64
	start time.Time
	end   time.Time
	tempo aggregation.Temporality
}

type coll struct {
	r          *reader
	n          int
	begin, end int64
	bt, et     time.Duration
	overlap    bool
	out        map[string]map[string]*pointVal
	stamp      time.Time
	dstart     time.Time
	scopes     int
	insts      []string
	aout       map[string]map[string]*pointVal
	runs       []*regRec
	first      int64
	fp         string
}

type world struct {
	e       *simh.Env
	p       *Plan
	mp      *sdk.MeterProvider
	start   time.Time
	started time.Time // construction finished
	t0      time.Duration
	meters  []api.Meter
	insts   []*instr
	readers []*reader
	ctx     context.Context
	limited bool // cardinality limits may redirect to overflow
	holds   bool
	onColl  func(c *coll)
	shut    bool
	lens    bool
	a       *asyncWorld
	slices  [][]attribute.KeyValue
	calls   []*clientCall
	nonew   bool

	bufs     map[int][]attribute.KeyValue
	acreated bool // all asynchronous instruments exist
}

type ctxKey struct{}

type processor struct{}

func (processor) Process(ctx context.Context, in []attribute.KeyValue) []attribute.KeyValue {
	v, _ := ctx.Value(ctxKey{}).(int)
	if v == 0 {
		return in
	}
	out := make([]attribute.KeyValue, 0, len(in)+1)
	out = append(out, in...)
	return append(out, attribute.Int("P", v))
}

// tap sits between the SDK's producer and the reader.
type tap struct {
	w *world
	r *reader
	p sdk.Producer
}

func (t *tap) Produce(in *data.Metrics) data.Metrics { return t.w.produce(t.r, t.p, in) }

// tapReader registers a tap with the real reader.
type tapReader struct {
	sdk.Reader
	w *world
	r *reader
}

func (t *tapReader) Register(p sdk.Producer) {
	tp := &tap{w: t.w, r: t.r, p: p}
	if t.r.prod != nil { // a second provider is given the same reader
		t.Reader.Register(alien{t.w, t.r})
		return
	}
	t.r.prod = tp
	t.Reader.Register(tp)
}

// alien is the producer of another provider, which does not get the reader.
type alien struct {
	w *world
	r *reader
}

func (a alien) Produce(*data.Metrics) data.Metrics {
	a.w.e.Fail("second-provider", "reader %d: collects from a second provider it was registered with", a.r.idx)
	return data.Metrics{}
}

var keySets = [][]attribute.Key{nil, {"A"}, {}, {"B", "C"}}

func (w *world) aggOf(in *instr, v int) aggregation.Kind {
	switch v {
	case 1:
		return aggregation.MinMaxSumCountKind
	case 2:
		return aggregation.HistogramKind
	case 3:
		return aggregation.AnySumKind
	case 4:
		return aggregation.DropKind
	}
	switch in.p.HAgg {
	case 1:
		return aggregation.GaugeKind
	case 2:
		return aggregation.MinMaxSumCountKind
	case 3:
		return aggregation.HistogramKind
	}
	switch in.p.Kind {
	case kIntHist, kFloatHist:
		return aggregation.HistogramKind
	case kIntGauge, kFloatGauge:
		return aggregation.GaugeKind
	}
	return aggregation.AnySumKind
}

func (in *instr) ikind() sdkinstrument.Kind {
	switch in.p.Kind {
	case kIntCounter, kFloatCounter:
		return sdkinstrument.SyncCounter
	case kIntUpDown, kFloatUpDown:
		return sdkinstrument.SyncUpDownCounter
	case kIntGauge, kFloatGauge:
		return sdkinstrument.SyncGauge
	}
	return sdkinstrument.SyncHistogram
}

func tempoFor(n int) aggregation.TemporalitySelector {
	switch n {
	case 1:
		return view.DeltaPreferredTemporality
	case 2:
		return func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality }
	}
	return view.StandardTemporality
}

func newWorld(e *simh.Env, p *Plan) *world {
	w := &world{e: e, p: p, ctx: context.Background()}
	if p.Meters < 1 {
		p.Meters = 1
	}
	for i, ip := range p.Insts {
		in := &instr{idx: i, p: ip, name: fmt.Sprintf("i%d", i)}
		in.isInt = ip.Kind == kIntCounter || ip.Kind == kIntUpDown || ip.Kind == kIntHist || ip.Kind == kIntGauge
		w.insts = append(w.insts, in)
	}
	w.asyncInit()
	perf := sdkinstrument.Performance{
		IgnoreCollisions:           p.Ignore,
		InactiveCollectionPeriods:  uint32(p.Inactive),
		InstrumentCardinalityLimit: uint32(p.ICard),
		AggregatorCardinalityLimit: uint32(p.ACard),
		AttributeSizeLimit:         uint32(p.Trunc),
	}
	if p.Proc {
		perf.MeasurementProcessor = processor{}
	}
	w.limited = p.ICard > 0 || p.ACard > 0
	var again []sdk.Option
	opts := []sdk.Option{sdk.WithPerformance(perf)}
	for ri, rp := range p.Readers {
		r := &reader{idx: ri, p: rp, outs: map[string]*outSpec{}, cum: map[string]map[string]uint64{}}
		w.readers = append(w.readers, r)
		sel := tempoFor(rp.Tempo)
		vopts := []view.Option{view.WithDefaultAggregationTemporalitySelector(sel)}
		matched := map[int]bool{}
		r.aouts = map[string]*aspec{}
		for _, v := range rp.Views {
			if a := v.Inst - 100; a >= 0 && a < len(w.a.insts) {
				in := w.a.insts[a]
				key := w.akey(in)
				if r.aouts[key] != nil {
					continue
				}
				co := []view.ClauseOption{view.MatchInstrumentName(in.name)}
				if v.Keys > 0 {
					co = append(co, view.WithKeys(keySets[v.Keys%len(keySets)]))
				}
				if v.Agg == 4 {
					co = append(co, view.WithAggregation(aggregation.DropKind))
				}
				vopts = append(vopts, view.WithClause(co...))
				r.aouts[key] = &aspec{in: in, keys: v.Keys % len(keySets), delta: sel(in.ikind()) == aggregation.DeltaTemporality, drop: v.Agg == 4}
			}
		}
		for _, in := range w.a.insts {
			if key := w.akey(in); r.aouts[key] == nil {
				r.aouts[key] = &aspec{in: in, delta: sel(in.ikind()) == aggregation.DeltaTemporality}
			}
		}
		for key, sp := range r.aouts {
			if sp.drop {
				delete(r.aouts, key)
			}
		}
		for _, v := range rp.Views {
			if v.Inst < 0 || v.Inst >= len(w.insts) {
				continue
			}
			in := w.insts[v.Inst]
			if in.p.hint() != "" {
				continue
			}
			name := in.name
			if v.Rename > 0 {
				name = fmt.Sprintf("%s_v%d", in.name, v.Rename)
			}
			if _, dup := r.outs[w.outKey(in, name)]; dup {
				continue
			}
			co := []view.ClauseOption{view.MatchInstrumentName(in.name)}
			if v.Keys > 0 {
				co = append(co, view.WithKeys(keySets[v.Keys%len(keySets)]))
			}
			if v.Rename > 0 {
				co = append(co, view.WithName(name))
			}
			agg := w.aggOf(in, v.Agg)
			if v.Agg > 0 {
				co = append(co, view.WithAggregation(agg))
			}
			vopts = append(vopts, view.WithClause(co...))
			matched[in.idx] = true
			if agg == aggregation.DropKind {
				continue
			}
			r.outs[w.outKey(in, name)] = &outSpec{in: in, name: name, keys: v.Keys % len(keySets), agg: agg, delta: sel(in.ikind()) == aggregation.DeltaTemporality}
		}
		for _, in := range w.insts {
			if !matched[in.idx] {
				r.outs[w.outKey(in, in.name)] = &outSpec{in: in, name: in.name, agg: w.aggOf(in, 0), delta: in.p.HTemp == 1 || in.p.HTemp == 0 && sel(in.ikind()) == aggregation.DeltaTemporality}
			}
		}
		var rd sdk.Reader
		if rp.Periodic > 0 {
			r.exp = &exporter{w: w, r: r}
			var po []sdk.PeriodicReaderOption
			if rp.TimeoutMs != 0 {
				po = append(po, sdk.WithTimeout(time.Duration(rp.TimeoutMs)*time.Millisecond))
			}
			iv := time.Duration(rp.Periodic) * time.Millisecond
			if rp.NoInterval > 0 {
				iv = time.Duration(1-rp.NoInterval) * time.Second
			}
			r.per = sdk.NewPeriodicReader(r.exp, iv, po...)
			rd = r.per
		} else {
			r.man = sdk.NewManualReader(fmt.Sprintf("r%d", ri))
			rd = r.man
		}
		tr := &tapReader{Reader: rd, w: w, r: r}
		opts = append(opts, sdk.WithReader(tr, vopts...))
		if p.Twice {
			again = append(again, sdk.WithReader(tr))
		}
	}
	w.start = time.Now()
	w.t0 = simrt.Elapsed()
	w.mp = sdk.NewMeterProvider(opts...)
	w.started = time.Now()
	if p.Twice {
		e.Count("second_provider")
		c, _ := sdk.NewMeterProvider(again...).Meter("m0").Int64Counter("other")
		c.Add(w.ctx, 1)
	}
	for i := 0; i < p.Meters; i++ {
		w.meters = append(w.meters, w.mp.Meter(fmt.Sprintf("m%d", i)))
	}
	if len(w.a.insts) > 0 {
		w.asyncCreate()
	}
	return w
}

func (w *world) meterOf(in *instr) int { return in.p.Meter % w.p.Meters }

func (w *world) outKey(in *instr, name string) string {
	return fmt.Sprintf("m%d/%s", w.meterOf(in), name)
}

// lookup creates (or finds) the instrument through the API.
func (w *world) lookup(in *instr) *handle {
	m := w.mp.Meter(fmt.Sprintf("m%d", w.meterOf(in)))
	h := &handle{}
	desc := api.WithDescription(in.p.hint())
	switch in.p.Kind {
	case kIntCounter:
		x, _ := m.Int64Counter(in.name, desc)
		h.i64a, _ = x.(bypass.FastInt64Adder)
		h.obj = x
	case kFloatCounter:
		x, _ := m.Float64Counter(in.name, desc)
		h.f64a, _ = x.(bypass.FastFloat64Adder)
		h.obj = x
	case kIntUpDown:
		x, _ := m.Int64UpDownCounter(in.name, desc)
		h.i64a, _ = x.(bypass.FastInt64Adder)
		h.obj = x
	case kFloatUpDown:
		x, _ := m.Float64UpDownCounter(in.name, desc)
		h.f64a, _ = x.(bypass.FastFloat64Adder)
		h.obj = x
	case kIntHist:
		x, _ := m.Int64Histogram(in.name, desc)
		h.i64r, _ = x.(bypass.FastInt64Recorder)
		h.obj = x
	case kFloatHist:
		x, _ := m.Float64Histogram(in.name, desc)
		h.f64r, _ = x.(bypass.FastFloat64Recorder)
		h.obj = x
	case kIntGauge:
		x, _ := m.Int64Gauge(in.name)
		h.obj = x
	case kFloatGauge:
		x, _ := m.Float64Gauge(in.name)
		h.obj = x
	}
	return h
}

// assign numbers the operations of the plan: bits must not depend on the
// schedule, so that a minimised schedule means the same.
func (w *world) assign() map[[2]int]*opRec {
	out := map[[2]int]*opRec{}
	for wi, ops := range w.p.Workers {
		for oi, op := range ops {
			if op.I < 0 || op.I >= len(w.insts) || op.A < 0 || op.A >= len(w.p.Attrs) {
				continue
			}
			in := w.insts[op.I]
			max := 50
			if op.Bad == 0 && len(in.ops) >= max {
				continue
			}
			rec := &opRec{inst: in, worker: wi}
			if op.Bad == 5 {
				if !w.plainSum(in) {
					continue
				}
				rec.valid = true
				in.zops = append(in.zops, rec)
				out[[2]int{wi, oi}] = rec
				continue
			}
			rec.valid = op.Bad == 0
			if in.isInt && op.Bad >= 1 && op.Bad <= 3 {
				op.Bad = 4
			}
			if op.Bad == 4 && (in.p.Kind == kIntUpDown || in.p.Kind == kFloatUpDown || in.p.Kind == kIntGauge || in.p.Kind == kFloatGauge) {
				rec.valid = true
			}
			if rec.valid {
				rec.id = len(in.ops)
				in.ops = append(in.ops, rec)
				rec.val = math.Ldexp(1, rec.id)
				in.allMask |= 1 << rec.id
				k := in.p.Kind
				if (k == kIntUpDown || k == kFloatUpDown || k == kIntGauge || k == kFloatGauge) && (wi+oi)%3 == 1 {
					rec.neg = true
					rec.val = -rec.val
					in.negMask |= 1 << rec.id
				}
			} else {
				switch op.Bad {
				case 1:
					rec.val = math.NaN()
				case 2:
					rec.val = math.Inf(1)
				case 3:
					rec.val = math.Inf(-1)
				default:
					rec.val = -3
				}
			}
			out[[2]int{wi, oi}] = rec
		}
	}
	for _, in := range w.insts {
		in.mul, in.exp = 1, 0
		if !w.p.Big {
			continue
		}
		switch {
		case !in.isInt:
			in.exp = -30
		case in.p.Kind == kIntHist || in.p.HAgg == 3:
		case len(in.ops) < 60:
			in.mul = 1<<(61-len(in.ops)) + 1
		}
	}
	return out
}

// plainSum: every reader reports this instrument as a sum, so that a
// measurement of 0 shows only as the presence of its series.
func (w *world) plainSum(in *instr) bool {
	if in.p.Kind > kFloatUpDown || in.p.HAgg != 0 {
		return false
	}
	for _, r := range w.readers {
		for _, sp := range r.outs {
			if sp.in == in && sp.agg != aggregation.AnySumKind {
				return false
			}
		}
	}
	return true
}

// model of what the SDK does with an attribute list
func (w *world) model(kvs []attribute.KeyValue, apiN int, extra int) attribute.Set {
	var list []attribute.KeyValue
	if apiN >= 2 {
		list = append(list, kvs...)
	} else {
		s := attribute.NewSet(append([]attribute.KeyValue(nil), kvs...)...)
		list = s.ToSlice()
	}
	lim := w.p.Trunc
	if lim == 0 {
		lim = sdkinstrument.DefaultAttributeSizeLimit
	}
	cut := func(s string) string {
		if len(s) > lim {
			return s[:lim]
		}
		return s
	}
	for i := range list {
		list[i].Key = attribute.Key(cut(string(list[i].Key)))
		switch list[i].Value.Type() {
		case attribute.STRING:
			list[i].Value = attribute.StringValue(cut(list[i].Value.AsString()))
		case attribute.STRINGSLICE:
			ss := append([]string(nil), list[i].Value.AsStringSlice()...)
			for j := range ss {
				ss[j] = cut(ss[j])
			}
			list[i].Value = attribute.StringSliceValue(ss)
		}
	}
	if w.p.Proc && extra != 0 {
		list = append(list, attribute.Int("P", extra))
	}
	return attribute.NewSet(list...)
}

func (w *world) do(op Op, rec *opRec) {
	in := rec.inst
	var kvs []attribute.KeyValue
	if op.Api == 3 {
		kvs = w.shared(op.A)
	} else {
		kvs = w.p.Attrs[op.A].attrs()
	}
	if op.Api == 2 {
		// one buffer per goroutine, overwritten by every call
		if w.bufs == nil {
			w.bufs = map[int][]attribute.KeyValue{}
		}
		kvs = append(w.bufs[rec.worker][:0], kvs...)
		w.bufs[rec.worker] = kvs
	}
	extra := 0
	ctx := w.ctx
	if w.p.Proc {
		extra = op.A % 3
		ctx = context.WithValue(ctx, ctxKey{}, extra)
	}
	h := in.shared
	if op.New && !w.nonew || h == nil {
		simrt.Y(0)
		h = w.lookup(in)
		if in.shared == nil {
			in.shared = h
		}
	}
	apiN := op.Api
	if apiN >= 2 && h.i64a == nil && h.f64a == nil && h.i64r == nil && h.f64r == nil {
		apiN = 1 // gauges have no bypass
	}
	rec.set = w.model(kvs, apiN, extra)
	rec.lkey = rawKey(rec.set, kvs, apiN)
	var before string
	if apiN >= 2 {
		before = listKey(kvs)
	}
	rec.start = simrt.Seq()
	simrt.Y(0)
	var setOpt api.MeasurementOption
	if apiN == 0 {
		setOpt = api.WithAttributeSet(attribute.NewSet(append([]attribute.KeyValue(nil), kvs...)...))
	} else if apiN == 1 {
		setOpt = api.WithAttributes(kvs...)
	}
	if apiN >= 2 {
		switch {
		case h.i64a != nil:
			h.i64a.AddWithKeyValues(ctx, in.int(rec), kvs...)
		case h.f64a != nil:
			h.f64a.AddWithKeyValues(ctx, in.float(rec), kvs...)
		case h.i64r != nil:
			h.i64r.RecordWithKeyValues(ctx, in.int(rec), kvs...)
		case h.f64r != nil:
			h.f64r.RecordWithKeyValues(ctx, in.float(rec), kvs...)
		}
	} else {
		switch x := h.obj.(type) {
		case api.Int64Gauge:
			x.Record(ctx, in.int(rec), setOpt)
		case api.Float64Gauge:
			x.Record(ctx, in.float(rec), setOpt)
		case api.Int64Counter:
			x.Add(ctx, in.int(rec), setOpt)
		case api.Float64Counter:
			x.Add(ctx, in.float(rec), setOpt)
		case api.Int64UpDownCounter:
			x.Add(ctx, in.int(rec), setOpt)
		case api.Float64UpDownCounter:
			x.Add(ctx, in.float(rec), setOpt)
		case api.Int64Histogram:
			x.Record(ctx, in.int(rec), setOpt)
		case api.Float64Histogram:
			x.Record(ctx, in.float(rec), setOpt)
		}
	}
	if op.N > 0 && rec.valid && w.plainSum(in) {
		w.e.Count("many_measurements")
		o := api.WithAttributeSet(attribute.NewSet(append([]attribute.KeyValue(nil), kvs...)...))
		for i := 0; i < op.N; i++ {
			switch x := h.obj.(type) {
			case api.Int64Counter:
				x.Add(ctx, 0, o)
			case api.Float64Counter:
				x.Add(ctx, 0, o)
			case api.Int64UpDownCounter:
				x.Add(ctx, 0, o)
			case api.Float64UpDownCounter:
				x.Add(ctx, 0, o)
			}
		}
	}
	simrt.Y(0)
	rec.end = simrt.Seq()
	if apiN >= 2 && w.lens {
		if after := listKey(kvs); after != before {
			w.e.Fail("caller-slice", "a measurement call modified the caller's attribute slice: passed %s, afterwards %s", before, after)
		}
	}
	if op.Api == 2 && apiN == 2 {
		// the caller reuses its slice
		for i := range kvs {
			kvs[i] = attribute.Int("poison", -1)
		}
	}
}

// rawKey identifies what the SDK keys its records by: the list of attributes
// (duplicate keys included) irrespective of order.
func rawKey(set attribute.Set, kvs []attribute.KeyValue, apiN int) string {
	if apiN < 2 {
		return setKey(set)
	}
	var l []string
	for _, kv := range kvs {
		l = append(l, listKey([]attribute.KeyValue{kv}))
	}
	sort.Strings(l)
	return strings.Join(l, "")
}

// shared is a slice the application built once and passes from many
// goroutines.
func (w *world) shared(a int) []attribute.KeyValue {
	if w.slices == nil {
		w.slices = make([][]attribute.KeyValue, len(w.p.Attrs))
	}
	if w.slices[a] == nil {
		w.slices[a] = w.p.Attrs[a].attrs()
	}
	return w.slices[a]
}

func listKey(kvs []attribute.KeyValue) string {
	var b strings.Builder
	for _, kv := range kvs {
		fmt.Fprintf(&b, "%q=%d:%q;", string(kv.Key), kv.Value.Type(), kv.Value.Emit())
	}
	return b.String()
}

func setKey(s attribute.Set) string {
	return listKey(s.ToSlice())
}

var overflowSet = attribute.NewSet(attribute.Bool("otel.metric.overflow", true))
var overflowKey = setKey(overflowSet)

// overflows: measurements may be redirected to this series.  The instrument
// limit is documented to apply before the view's key filter, so that there the
// overflow attribute itself is subject to the filter.
func (w *world) overflows(spec *outSpec, sk string) bool {
	if !w.limited {
		return false
	}
	return sk == overflowKey || w.p.ICard > 0 && sk == setKey(filter(overflowSet, spec.keys))
}

// filter applies a view's key filter (and the SDK's rule that empty keys are
// dropped).
func filter(s attribute.Set, keys int) attribute.Set {
	f, _ := s.Filter(func(kv attribute.KeyValue) bool {
		if kv.Key == "" {
			return false
		}
		if keys == 0 {
			return true
		}
		for _, k := range keySets[keys] {
			if k == kv.Key {
				return true
			}
		}
		return false
	})
	return f
}

// ---- collection

func (w *world) produce(r *reader, p sdk.Producer, in *data.Metrics) data.Metrics {
	c := &coll{r: r, n: len(r.colls), begin: simrt.Seq(), bt: simrt.Elapsed()}
	r.colls = append(r.colls, c)
	r.opened++
	if r.open > 0 {
		c.overlap = true
		for _, o := range r.colls {
			if o.end == 0 {
				o.overlap = true
			}
		}
	}
	r.open++
	self := simrt.Self()
	was := w.a.curOf[self]
	w.a.curOf[self] = c
	out := p.Produce(in)
	w.a.curOf[self] = was
	simrt.Quiet(true)
	r.open--
	c.end = simrt.Seq()
	c.et = simrt.Elapsed()
	w.parse(c, out)
	if r.exp != nil {
		c.fp = fingerprint(out)
	}
	if in == nil && w.holds {
		r.held = append(r.held, heldData{d: out, sum: fingerprint(out), c: c})
	}
	if w.onColl != nil {
		w.onColl(c)
	}
	simrt.Quiet(false)
	return out
}

func toF(n number.Number, isInt bool) float64 {
	if isInt {
		return float64(number.ToInt64(n))
	}
	return number.ToFloat64(n)
}

func (w *world) decode(in *instr, v float64) (uint64, bool) {
	if math.IsNaN(v) || math.IsInf(v, 0) || v != math.Trunc(v) {
		return 0, false
	}
	b := v + float64(in.negMask)
	if b < 0 || b >= math.Ldexp(1, 53) {
		return 0, false
	}
	m := uint64(b) ^ in.negMask
	if m&^in.allMask != 0 {
		return 0, false
	}
	return m, true
}

func (w *world) describe(in *instr, m uint64) string {
	var ids []string
	for k := 0; k < 64; k++ {
		if m>>k&1 == 1 {
			ids = append(ids, fmt.Sprintf("op%d", k))
		}
	}
	return fmt.Sprintf("{%s}", strings.Join(ids, ","))
}

// parse decodes a collection and checks its shape.
func (w *world) parse(c *coll, m data.Metrics) {
	r := c.r
	c.out = map[string]map[string]*pointVal{}
	c.aout = map[string]map[string]*pointVal{}
	c.scopes = len(m.Scopes)
	seenScope := map[string]bool{}
	for _, sc := range m.Scopes {
		if seenScope[sc.Library.Name] {
			w.e.Fail("shape", "reader %d collection %d: scope %q appears twice", r.idx, c.n, sc.Library.Name)
		}
		seenScope[sc.Library.Name] = true
		for _, inst := range sc.Instruments {
			key := sc.Library.Name + "/" + inst.Descriptor.Name
			c.insts = append(c.insts, key)
			spec := r.outs[key]
			if sp := r.aouts[key]; sp != nil && spec == nil {
				if c.aout[key] != nil {
					w.e.Fail("shape", "reader %d collection %d: output instrument %q appears twice", r.idx, c.n, key)
				}
				pts := map[string]*pointVal{}
				c.aout[key] = pts
				for i := range inst.Points {
					pt := &inst.Points[i]
					sk := setKey(pt.Attributes)
					if pts[sk] != nil {
						w.e.Fail("shape", "reader %d collection %d: %s has two points for series %s", r.idx, c.n, key, sk)
					}
					pts[sk] = w.parseAsync(c, key, sp, sk, pt.Aggregation)
					pts[sk].start, pts[sk].end, pts[sk].tempo = pt.Start, pt.End, pt.Temporality
				}
				continue
			}
			if spec == nil {
				w.e.Fail("shape", "reader %d collection %d: unexpected output instrument %q", r.idx, c.n, key)
			}
			if c.out[key] != nil {
				w.e.Fail("shape", "reader %d collection %d: output instrument %q appears twice", r.idx, c.n, key)
			}
			pts := map[string]*pointVal{}
			c.out[key] = pts
			for i := range inst.Points {
				pt := &inst.Points[i]
				sk := setKey(pt.Attributes)
				if pts[sk] != nil {
					w.e.Fail("shape", "reader %d collection %d: %s has two points for series %s", r.idx, c.n, key, sk)
				}
				pv := w.parsePoint(c, key, spec, sk, pt)
				pts[sk] = pv
			}
		}
	}
}

func (w *world) parsePoint(c *coll, key string, spec *outSpec, sk string, pt *data.Point) *pointVal {
	pv := &pointVal{start: pt.Start, end: pt.End, tempo: pt.Temporality}
	in := spec.in
	where := fmt.Sprintf("reader %d collection %d %s %s", c.r.idx, c.n, key, sk)
	want := aggregation.CumulativeTemporality
	if spec.delta {
		want = aggregation.DeltaTemporality
	}
	if pt.Temporality != want {
		w.e.Fail("temporality", "%s: temporality %v, configured %v", where, pt.Temporality, want)
	}
	var sum number.Number
	switch spec.agg {
	case aggregation.GaugeKind:
		g, ok := pt.Aggregation.(aggregation.Gauge)
		if !ok {
			w.e.Fail("shape", "%s: not a gauge: %T", where, pt.Aggregation)
		}
		pv.raw = in.toF(g.Gauge())
		return pv
	case aggregation.AnySumKind:
		s, ok := pt.Aggregation.(aggregation.Sum)
		if !ok {
			w.e.Fail("shape", "%s: not a sum: %T", where, pt.Aggregation)
		}
		sum = s.Sum()
	default:
		s, ok := pt.Aggregation.(aggregation.HasASum)
		if !ok {
			w.e.Fail("shape", "%s: has no sum: %T", where, pt.Aggregation)
		}
		sum = s.Sum()
	}
	pv.raw = in.toF(sum)
	m, ok := w.decode(in, pv.raw)
	if !ok {
		w.e.Fail("sum", "%s: sum %v is not the sum of a set of this instrument's measurements (each is counted once)", where, pv.raw)
	}
	pv.mask = m
	// every included op belongs to this series
	for _, op := range in.ops {
		if m>>op.id&1 == 0 {
			continue
		}
		if op.start == 0 {
			w.e.Fail("sum", "%s: sum %v contains op%d, which has not started", where, pv.raw, op.id)
		}
		if ek := setKey(filter(op.set, spec.keys)); ek != sk && !w.overflows(spec, sk) {
			w.e.Fail("series", "%s: contains op%d, whose series is %s", where, op.id, ek)
		}
	}
	if m == 0 && !w.limited {
		w.measured(where, spec, sk)
	}
	n := uint64(bits.OnesCount64(m))
	switch h := pt.Aggregation.(type) {
	case aggregation.Histogram:
		if spec.agg != aggregation.HistogramKind {
			break
		}
		if h.Count() != n {
			w.e.Fail("histogram", "%s: count %d, but the sum contains %d measurements %s", where, h.Count(), n, w.describe(in, m))
		}
		w.checkBuckets(where, in, m, h)
		w.checkMinMax(where, in, m, in.toF(h.Min()), in.toF(h.Max()))
	case aggregation.MinMaxSumCount:
		if spec.agg != aggregation.MinMaxSumCountKind {
			break
		}
		if h.Count() != n {
			w.e.Fail("histogram", "%s: count %d, but the sum contains %d measurements %s", where, h.Count(), n, w.describe(in, m))
		}
		w.checkMinMax(where, in, m, in.toF(h.Min()), in.toF(h.Max()))
	}
	return pv
}

// measured: an empty series is that of a (valid) measurement that has begun.
func (w *world) measured(where string, spec *outSpec, sk string) {
	for _, l := range [][]*opRec{spec.in.ops, spec.in.zops} {
		for _, op := range l {
			if op.start != 0 && setKey(filter(op.set, spec.keys)) == sk {
				return
			}
		}
	}
	w.e.Fail("series", "%s: a series for which nothing valid was measured", where)
}

func (w *world) checkMinMax(where string, in *instr, m uint64, mn, mx float64) {
	if m == 0 {
		return
	}
	wmn, wmx := math.Inf(1), math.Inf(-1)
	for _, op := range in.ops {
		if m>>op.id&1 == 1 {
			wmn, wmx = math.Min(wmn, op.val), math.Max(wmx, op.val)
		}
	}
	if mn != wmn || mx != wmx {
		w.e.Fail("histogram", "%s: min/max %v/%v, the included measurements have %v/%v", where, mn, mx, wmn, wmx)
	}
}

func (w *world) checkBuckets(where string, in *instr, m uint64, h aggregation.Histogram) {
	var want [2]map[int32]uint64
	var got [2]map[int32]uint64
	var tot [2]uint64
	s := h.Scale()
	for side, bs := range []aggregation.Buckets{h.Positive(), h.Negative()} {
		want[side], got[side] = map[int32]uint64{}, map[int32]uint64{}
		for i := uint32(0); i < bs.Len(); i++ {
			if v := bs.At(i); v != 0 {
				got[side][bs.Offset()+int32(i)] += v
				tot[side] += v
			}
		}
	}
	for _, op := range in.ops {
		if m>>op.id&1 == 0 {
			continue
		}
		k := int32(op.id + in.exp)
		var idx int32
		if s >= 0 {
			idx = k*(1<<uint(s)) - 1
		} else {
			sh := uint(-s)
			idx = (k+(1<<sh)-1)>>sh - 1
		}
		if op.neg {
			want[1][idx]++
		} else {
			want[0][idx]++
		}
	}
	if h.ZeroCount() != 0 || tot[0]+tot[1] != h.Count() {
		w.e.Fail("histogram", "%s: bucket counts (positive %d, negative %d, zero %d) do not add up to count %d", where, tot[0], tot[1], h.ZeroCount(), h.Count())
	}
	for side, name := range []string{"positive", "negative"} {
		for k, v := range want[side] {
			if got[side][k] != v {
				w.e.Fail("histogram", "%s: %s bucket %d at scale %d holds %d, the included measurements %s put %d there", where, name, k, s, got[side][k], w.describe(in, m), v)
			}
		}
	}
}

// fingerprint renders everything a holder of the collected data can observe.
func fingerprint(m data.Metrics) string {
	var lines []string
	for _, sc := range m.Scopes {
		for _, in := range sc.Instruments {
			for i := range in.Points {
				pt := &in.Points[i]
				s := fmt.Sprintf("%s/%s/%s/%v/%d/%d:", sc.Library.Name, in.Descriptor.Name, setKey(pt.Attributes), pt.Temporality, pt.Start.UnixNano(), pt.End.UnixNano())
				switch a := pt.Aggregation.(type) {
				case aggregation.Histogram:
					s += fmt.Sprintf("h %d %d %d %d %d %d", a.Count(), a.Sum(), a.Min(), a.Max(), a.ZeroCount(), a.Scale())
					b := a.Positive()
					for j := uint32(0); j < b.Len(); j++ {
						if v := b.At(j); v != 0 {
							s += fmt.Sprintf(" %d:%d", b.Offset()+int32(j), v)
						}
					}
				case aggregation.MinMaxSumCount:
					s += fmt.Sprintf("m %d %d %d %d", a.Count(), a.Sum(), a.Min(), a.Max())
				case aggregation.Gauge:
					s += fmt.Sprintf("g %d", a.Gauge())
				case aggregation.Sum:
					s += fmt.Sprintf("s %d", a.Sum())
				default:
					s += fmt.Sprintf("? %T", pt.Aggregation)
				}
				lines = append(lines, s)
			}
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

// ---- exporter with faults

type export struct {
	kind       string // export, flush, shutdown
	begin, end int64
	bt, et     time.Duration
	err        error
	ctxErr     error
	c          *coll
	client     int
	hasDL      bool
	deadline   time.Duration
	st0, st1   time.Duration
}

type exporter struct {
	w     *world
	r     *reader
	calls []*export
	open  int
	n     int
}

var errExport = errors.New("injected export failure")

func (x *exporter) String() string { return fmt.Sprintf("exp%d", x.r.idx) }
func (x *exporter) ExportMetrics(ctx context.Context, d data.Metrics) error {
	return x.call(ctx, "export", d)
}
func (x *exporter) ForceFlushMetrics(ctx context.Context, d data.Metrics) error {
	return x.call(ctx, "flush", d)
}
func (x *exporter) ShutdownMetrics(ctx context.Context, d data.Metrics) error {
	return x.call(ctx, "shutdown", d)
}

func (x *exporter) call(ctx context.Context, kind string, d data.Metrics) error {
	c := &export{kind: kind, begin: simrt.Seq(), bt: simrt.Elapsed(), st0: stallTime()}
	c.client, _ = ctx.Value(clientKey{}).(int)
	if dl, ok := ctx.Deadline(); ok {
		c.hasDL, c.deadline = true, c.bt+time.Until(dl)
	}
	for i := len(x.r.colls) - 1; i >= 0; i-- {
		if x.r.colls[i].end != 0 {
			c.c = x.r.colls[i]
			break
		}
	}
	if x.open > 0 {
		x.w.e.Fail("export-overlap", "reader %d: %s handed to the exporter while another export is in progress", x.r.idx, kind)
	}
	x.open++
	fp := fingerprint(d)
	if c.c != nil && c.c.fp != fp {
		x.w.e.Fail("export-data", "reader %d: the data handed to the exporter is not what was collected\nhanded over:\n%s\ncollected:\n%s", x.r.idx, fp, c.c.fp)
	}
	x.calls = append(x.calls, c)
	var f Fault
	if x.n < len(x.r.p.Exports) {
		f = x.r.p.Exports[x.n]
	}
	x.n++
	simrt.Y(0)
	if f.SleepUs > 0 {
		x.w.e.Count("slow_export")
		t := time.NewTimer(time.Duration(f.SleepUs) * time.Microsecond)
		if f.Obey {
			select {
			case <-t.C:
			case <-ctx.Done():
				x.w.e.Count("export_canceled")
				c.ctxErr = ctx.Err()
			}
		} else {
			<-t.C
		}
		t.Stop()
		simrt.Y(0)
	}
	if fingerprint(d) != fp {
		x.w.e.Fail("export-data", "reader %d: the data handed to the exporter changed while the %s was in progress", x.r.idx, kind)
	}
	x.open--
	if f.Err {
		x.w.e.Count("export_error")
		c.err = fmt.Errorf("call %d: %w", x.n, errExport)
	} else if c.ctxErr != nil {
		c.err = fmt.Errorf("call %d: %w", x.n, c.ctxErr)
	}
	c.end = simrt.Seq()
	c.et = simrt.Elapsed()
	c.st1 = stallTime()
	return c.err
}

// sleepUs pauses a simulated goroutine.
func sleepUs(n int) {
	if n > 0 {
		simrt.Sleep(time.Duration(n) * time.Microsecond)
	}
}
