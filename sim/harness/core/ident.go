package core

import (
	"context"
	"errors"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"

	"go.opentelemetry.io/otel/attribute"
	api "go.opentelemetry.io/otel/metric"

	"go.opentelemetry.io/otel/sdk/instrumentation"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/viewstate"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// IdPlan: goroutines create instruments from a small pool of names, kinds,
// units and descriptions, under several readers' views, and use them.
type IdPlan struct {
	Readers  []IdReader   `json:"readers"`
	Creators [][]IdCreate `json:"creators"`
}

type IdReader struct {
	DefCfg  int        `json:"def_cfg,omitempty"` // aggregator configuration used where no clause gives one
	Inv     int        `json:"inv,omitempty"`     // invalid defaults: 1 temporality 2 aggregation
	Empty   bool       `json:"empty,omitempty"`   // key filters also name the empty key
	Tempo   int        `json:"tempo"`             // 0 cumulative, 2 delta
	Clauses []IdClause `json:"clauses,omitempty"`
	Gaps    [][]int    `json:"gaps"`
}

type IdClause struct {
	N      int `json:"n"`      // name index; -1: by kind; -2: by pattern (all names)
	K      int `json:"k"`      // kind for N == -1
	Scope  int `json:"scope"`  // 0 any, 1 v0, 2 v1, 3 with a schema
	Rename int `json:"rename"` // 0 none, 1 n0, 2 n1, 3 x, 4 by a function
	Agg    int `json:"agg"`
	Keys   int `json:"keys"`
	Desc   int `json:"desc"`
	Num    int `json:"num,omitempty"` // 1 integers, 2 floats
	Cfg    int `json:"cfg,omitempty"` // an aggregator configuration of its own, of idCfgs
	Inv    int `json:"inv,omitempty"` // 1 also matches by another pattern 2 invalid aggregation
}

type IdCreate struct {
	S   int `json:"s"`
	N   int `json:"n"`
	K   int `json:"k"`
	D   int `json:"d"`
	U   int `json:"u"`
	Ops int `json:"ops"`
	A   int `json:"a"`
	Gap int `json:"gap,omitempty"`
}

var idNames = []string{"n0", "n1"}
var idDescs = []string{"", "d", "dd", "eeee",
	`{"description":"hint","aggregation":"minmaxsumcount"}`,
	`{"description":"hist","aggregation":"histogram"}`,
	`{"description":"bogus","aggregation":"cardinality","temporality":"never"}`,
	`{"description":"broken",}`,
	`{"description":"small","config":{"histogram":{"max_size":10},"cardinality_limit":100}}`,
	`{"description":"tiny","aggregation":"exponential_histogram","config":{"histogram":{"max_size":1}}}`,
	`{"description":"drop","aggregation":"drop"}`,
	`{"description":"sum","aggregation":"sum"}`,
}

// idHint is what a description that is a hint says; only used when no clause
// of the reader matches.
var idHints = map[int]struct {
	desc string
	agg  aggregation.Kind
	cfg  idEff
	errs []string
	sync bool // only used for synchronous instruments
}{
	4:  {desc: "hint", agg: aggregation.MinMaxSumCountKind, sync: true},
	5:  {desc: "hist", agg: aggregation.HistogramKind, sync: true},
	6:  {desc: "bogus", errs: []string{"hint invalid aggregation: cardinality", "hint invalid temporality: never"}},
	7:  {desc: idDescs[7], errs: []string{"hint parse error"}},
	8:  {desc: "small", cfg: idEff{100, 10}},
	9:  {desc: "tiny", agg: aggregation.HistogramKind, cfg: idEff{0, 2}, errs: []string{"invalid histogram size: 1"}, sync: true},
	10: {desc: "drop", agg: aggregation.DropKind},
	11: {desc: "sum", agg: aggregation.AnySumKind},
}

func idConfig(limit uint32, size int32) aggregator.Config {
	c := aggregator.Config{CardinalityLimit: limit}
	if size != 0 {
		c.Histogram = histogram.NewConfig(histogram.WithMaxSize(size))
	}
	return c
}

// idCfgs are aggregator configurations; the last two are invalid.
var idCfgs = []struct {
	limit uint32
	size  int32
}{{}, {limit: 100}, {limit: 200}, {size: 10}, {limit: 2000, size: 160}, {size: 1}, {size: -3}}

// idEff is the configuration in effect.
type idEff struct {
	limit uint32
	size  int32
}

func idEffect(i int) idEff {
	c := idEff{limit: idCfgs[i].limit, size: idCfgs[i].size}
	if c.limit == 0 {
		c.limit = sdkinstrument.DefaultAggregatorCardinalityLimit
	}
	switch {
	case c.size == 1:
		c.size = 2
	case c.size <= 0:
		c.size = 160
	}
	return c
}

var idUnits = []string{"", "ms"}
var idKinds = []struct {
	k   sdkinstrument.Kind
	isI bool
}{
	{sdkinstrument.SyncCounter, true},
	{sdkinstrument.SyncCounter, false},
	{sdkinstrument.SyncUpDownCounter, true},
	{sdkinstrument.SyncHistogram, true},
	{sdkinstrument.SyncHistogram, false},
	{sdkinstrument.AsyncCounter, true},
	{sdkinstrument.AsyncUpDownCounter, false},
}

// idOut is one expected output of a reader.
type idOut struct {
	name, unit string
	agg        aggregation.Kind
	sync, isI  bool
	keys       int
	cfg        idEff
}

type idMade struct {
	c          IdCreate
	begin, end int64
	ops        uint64
	done       uint64 // bits of completed operations with their seq below
	ends       map[int]int64
	started    map[int]bool
	err        error
	group      int // bit of the asynchronous instrument, -1: none
}

type idWorld struct {
	e    *simh.Env
	p    *IdPlan
	mp   *sdk.MeterProvider
	rs   []*idRd
	made []*idMade
	bit  int
	errs []string         // what the error handler was told
	want []string         // parts of errors it has to be told
	obs  map[IdCreate]int // asynchronous instruments: bit of the observed value
}

type idRd struct {
	w     *idWorld
	idx   int
	p     IdReader
	man   *sdk.ManualReader
	n     int
	acc   map[string]map[string]float64 // by scope and position, then series
	cnt   map[string]uint64
	descs map[string]sdkinstrument.Descriptor
	last  data.Metrics
	aggs  map[string]aggregation.Kind
}

func (w *idWorld) applies(cl IdClause, c IdCreate) bool {
	if cl.Scope > 0 && !scopeMatch(cl.Scope-1, c.S) {
		return false
	}
	if cl.Num > 0 && (cl.Num == 1) != idKinds[c.K].isI {
		return false
	}
	switch cl.N {
	case -1:
		return idKinds[cl.K].k == idKinds[c.K].k
	case -2:
		return true
	}
	return cl.N == c.N
}

func idRename(cl IdClause, c IdCreate) string {
	switch cl.Rename {
	case 1:
		return "n0"
	case 2:
		return "n1"
	case 3:
		return "x"
	case 4:
		return idNames[c.N] + "r"
	}
	return idNames[c.N]
}

func idDefault(k sdkinstrument.Kind) aggregation.Kind {
	switch k {
	case sdkinstrument.SyncHistogram:
		return aggregation.HistogramKind
	case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
		return aggregation.NonMonotonicSumKind
	}
	return aggregation.MonotonicSumKind
}

type idBeh struct {
	o    idOut
	desc string
}

// outputs is the reference model of what a reader shows for an instrument.
func (w *idWorld) outputs(rp IdReader, c IdCreate) (outs []idBeh, semantic bool) {
	kd := idKinds[c.K]
	mk := func(name string, agg aggregation.Kind, keys int, desc string, cfg idEff) {
		outs = append(outs, idBeh{idOut{name: name, unit: idUnits[c.U], agg: agg, sync: kd.k.Synchronous(), isI: kd.isI, keys: keys, cfg: cfg}, desc})
	}
	matched := false
	for _, cl := range rp.Clauses {
		if !w.applies(cl, c) {
			continue
		}
		matched = true
		if cl.Agg == 4 && cl.Inv != 2 {
			continue
		}
		agg := idDefault(kd.k)
		if cl.Agg > 0 && cl.Inv != 2 {
			switch kd.k {
			case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram:
				agg = []aggregation.Kind{0, aggregation.MinMaxSumCountKind, aggregation.HistogramKind, aggregation.MonotonicSumKind}[cl.Agg]
			default:
				if cl.Agg != 3 {
					semantic = true
				}
			}
		}
		desc := idDescs[c.D]
		if cl.Desc > 0 {
			desc = idDescs[cl.Desc]
		}
		cfg := rp.DefCfg
		if cl.Cfg > 0 {
			cfg = cl.Cfg
		}
		mk(idRename(cl, c), agg, cl.Keys, desc, idEffect(cfg))
	}
	if !matched {
		agg, desc := idDefault(kd.k), idDescs[c.D]
		cfg := idEffect(rp.DefCfg)
		if h, ok := idHints[c.D]; ok {
			desc = h.desc
			switch h.agg {
			case aggregation.UndefinedKind, aggregation.AnySumKind:
				if h.agg == aggregation.AnySumKind && agg == aggregation.HistogramKind {
					agg = aggregation.MonotonicSumKind
				}
			case aggregation.DropKind:
				return
			default:
				agg = h.agg
			}
			if h.cfg.limit != 0 {
				cfg.limit = h.cfg.limit
			}
			if h.cfg.size != 0 {
				cfg.size = h.cfg.size
			}
		}
		mk(idNames[c.N], agg, 0, desc, cfg)
	}
	return
}

// sane removes what the documentation leaves open: hints where a clause
// matches, and hints that make no sense for asynchronous instruments.
func (p *IdPlan) sane() {
	w := &idWorld{p: p}
	for i := range p.Creators {
		for j := range p.Creators[i] {
			c := &p.Creators[i][j]
			h, hint := idHints[c.D]
			if !hint {
				continue
			}
			ok := !h.sync || idKinds[c.K].k.Synchronous()
			for _, r := range p.Readers {
				for _, cl := range r.Clauses {
					if w.applies(cl, *c) {
						ok = false
					}
				}
			}
			if !ok {
				c.D = 1
			}
		}
	}
}

func runIdent(e *simh.Env, p *IdPlan) {
	p.sane()
	w := &idWorld{e: e, p: p, obs: map[IdCreate]int{}}
	handled = func(err error) { w.errs = append(w.errs, err.Error()) }
	defer func() { handled = nil }()
	for _, l := range p.Creators {
		for _, c := range l {
			if k := groupOf(c); !idKinds[c.K].k.Synchronous() && w.obs[k] == 0 && w.bit < 16 {
				w.bit++
				w.obs[k] = w.bit
			}
		}
	}
	w.bit++
	var opts []sdk.Option
	for i, rp := range p.Readers {
		r := &idRd{w: w, idx: i, p: rp, acc: map[string]map[string]float64{}, cnt: map[string]uint64{}, descs: map[string]sdkinstrument.Descriptor{}, aggs: map[string]aggregation.Kind{}}
		r.man = sdk.NewManualReader(fmt.Sprintf("r%d", i))
		w.rs = append(w.rs, r)
		vo := []view.Option{view.WithDefaultAggregationTemporalitySelector(tempoFor(rp.Tempo))}
		switch rp.Inv {
		case 1:
			vo[0] = view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return 99 })
			w.want = append(w.want, "invalid temporality")
			r.p.Tempo = 0
		case 2:
			vo = append(vo, view.WithDefaultAggregationKindSelector(func(sdkinstrument.Kind) aggregation.Kind { return 99 }))
			w.want = append(w.want, "invalid aggregation: 99")
		}
		if rp.DefCfg > 0 {
			c := idCfgs[rp.DefCfg]
			cfg := idConfig(c.limit, c.size)
			vo = append(vo, view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (a, b aggregator.Config) { return cfg, cfg }))
			w.wantCfg(rp.DefCfg)
		}
		for _, cl := range rp.Clauses {
			var co []view.ClauseOption
			switch cl.N {
			case -1:
				co = append(co, view.MatchInstrumentKind(idKinds[cl.K].k))
			case -2:
				co = append(co, view.MatchInstrumentNameRegexp(anyName))
			default:
				co = append(co, view.MatchInstrumentName(idNames[cl.N]))
				if cl.Inv == 1 {
					co = append(co, view.MatchInstrumentNameRegexp(noName))
					w.want = append(w.want, "view has instrument name and regexp matches")
				}
			}
			if cl.Scope > 0 {
				co = append(co, view.MatchInstrumentationLibrary(scopeOf(cl.Scope-1)))
			}
			if cl.Num > 0 {
				co = append(co, view.MatchNumberKind([]number.Kind{number.Int64Kind, number.Float64Kind}[cl.Num-1]))
			}
			if cl.Rename == 4 {
				co = append(co, view.WithRenameFunction(func(n string) string { return n + "r" }))
			} else if cl.Rename > 0 {
				co = append(co, view.WithName(idRename(cl, IdCreate{})))
			}
			if cl.Cfg > 0 {
				co = append(co, view.WithAggregatorConfig(idConfig(idCfgs[cl.Cfg].limit, idCfgs[cl.Cfg].size)))
				w.wantCfg(cl.Cfg)
			}
			if cl.Inv == 2 {
				co = append(co, view.WithAggregation(98))
				w.want = append(w.want, "invalid aggregation: 98")
			} else if cl.Agg > 0 {
				co = append(co, view.WithAggregation([]aggregation.Kind{0, aggregation.MinMaxSumCountKind, aggregation.HistogramKind, aggregation.AnySumKind, aggregation.DropKind}[cl.Agg]))
			}
			if cl.Keys > 0 {
				keys := keySets[cl.Keys]
				if rp.Empty {
					keys = append(append([]attribute.Key(nil), keys...), "")
					w.want = append(w.want, "view has empty string in keys")
				}
				co = append(co, view.WithKeys(keys))
			}
			if cl.Desc > 0 {
				co = append(co, view.WithDescription(idDescs[cl.Desc]))
			}
			vo = append(vo, view.WithClause(co...))
		}
		opts = append(opts, sdk.WithReader(r.man, vo...))
	}
	w.mp = sdk.NewMeterProvider(opts...)
	w.told("creating the provider")
	w.errs, w.want = nil, nil
	for _, l := range p.Creators {
		for _, c := range l {
			w.want = append(w.want, idHints[c.D].errs...)
		}
	}
	var hs []*simrt.Handle
	for _, list := range p.Creators {
		list := list
		// bits do not depend on the schedule
		var bits [][]int
		for _, c := range list {
			var b []int
			for k := 0; k < c.Ops && w.bit < 48; k++ {
				b = append(b, w.bit)
				w.bit++
			}
			bits = append(bits, b)
		}
		hs = append(hs, simrt.Go("creator", func() {
			for i, c := range list {
				sleepUs(c.Gap)
				w.create(c, bits[i])
			}
		}))
	}
	for _, r := range w.rs {
		r := r
		for _, gaps := range r.p.Gaps {
			gaps := gaps
			hs = append(hs, simrt.Go("collector", func() {
				for _, g := range gaps {
					sleepUs(g)
					r.collect(false)
				}
			}))
		}
	}
	for _, h := range hs {
		simrt.Join(h)
	}
	w.told("creating instruments", "hint", "invalid")
	for _, r := range w.rs {
		r.collect(true)
	}
	_ = w.mp.Shutdown(context.Background())
}

var anyName = regexp.MustCompile("n.*")
var noName = regexp.MustCompile("zz.*")

func (w *idWorld) wantCfg(i int) {
	if s := idCfgs[i].size; s == 1 || s < 0 {
		w.want = append(w.want, fmt.Sprintf("invalid histogram size: %d", s))
	}
}

// told: the error handler was told of invalid settings or hints, and only of
// those.
func (w *idWorld) told(when string, parts ...string) {
	n := 0
	for _, s := range w.errs {
		hit := len(parts) == 0
		for _, p := range parts {
			hit = hit || strings.Contains(s, p)
		}
		if hit {
			n++
		}
	}
	if n == 0 && len(w.want) > 0 {
		w.e.Fail("not-told", "%s: the error handler was not told of %q", when, w.want)
	}
	if n > 0 && len(w.want) == 0 {
		w.e.Fail("told", "%s: the error handler was told %q, but all settings and hints are valid", when, w.errs)
	}
	if n > 0 {
		w.e.Count("invalid_settings")
	}
}

func (w *idWorld) create(c IdCreate, bits []int) {
	m := &idMade{c: c, ends: map[int]int64{}, started: map[int]bool{}}
	w.made = append(w.made, m)
	sc := scopeOf(c.S)
	m.begin = simrt.Seq()
	mt := w.mp.Meter(sc.Name, api.WithInstrumentationVersion(sc.Version), api.WithSchemaURL(sc.SchemaURL), api.WithInstrumentationAttributes(sc.Attributes.ToSlice()...))
	name, desc, unit := idNames[c.N], api.WithDescription(idDescs[c.D]), api.WithUnit(idUnits[c.U])
	kd := idKinds[c.K]
	var addI func(context.Context, int64, api.MeasurementOption)
	var addF func(context.Context, float64, api.MeasurementOption)
	var obsI api.Int64Observable
	var obsF api.Float64Observable
	var err error
	switch {
	case kd.k == sdkinstrument.SyncCounter && kd.isI:
		x, er := mt.Int64Counter(name, desc, unit)
		err = er
		addI = func(ctx context.Context, v int64, o api.MeasurementOption) { x.Add(ctx, v, o) }
	case kd.k == sdkinstrument.SyncCounter:
		x, er := mt.Float64Counter(name, desc, unit)
		err = er
		addF = func(ctx context.Context, v float64, o api.MeasurementOption) { x.Add(ctx, v, o) }
	case kd.k == sdkinstrument.SyncUpDownCounter:
		x, er := mt.Int64UpDownCounter(name, desc, unit)
		err = er
		addI = func(ctx context.Context, v int64, o api.MeasurementOption) { x.Add(ctx, v, o) }
	case kd.k == sdkinstrument.SyncHistogram && kd.isI:
		x, er := mt.Int64Histogram(name, desc, unit)
		err = er
		addI = func(ctx context.Context, v int64, o api.MeasurementOption) { x.Record(ctx, v, o) }
	case kd.k == sdkinstrument.SyncHistogram:
		x, er := mt.Float64Histogram(name, desc, unit)
		err = er
		addF = func(ctx context.Context, v float64, o api.MeasurementOption) { x.Record(ctx, v, o) }
	case kd.k == sdkinstrument.AsyncCounter:
		obsI, err = mt.Int64ObservableCounter(name, desc, unit)
	default:
		obsF, err = mt.Float64ObservableUpDownCounter(name, desc, unit)
	}
	m.end = simrt.Seq()
	m.err = err
	if m.group = w.obs[groupOf(c)]; m.group > 0 {
		// every holder of the instrument observes the same
		at := api.WithAttributes(attribute.Int("A", m.group), attribute.Int("B", m.group%2))
		v := math.Ldexp(1, m.group)
		if obsI != nil {
			_, err = mt.RegisterCallback(func(_ context.Context, o api.Observer) error {
				simrt.Y(0)
				o.ObserveInt64(obsI, int64(v), at)
				return nil
			}, obsI)
		} else {
			_, err = mt.RegisterCallback(func(_ context.Context, o api.Observer) error {
				simrt.Y(0)
				o.ObserveFloat64(obsF, v, at)
				return nil
			}, obsF)
		}
		if err != nil {
			w.e.Fail("register", "RegisterCallback for %s failed: %v", describeCreate(c), err)
		}
		err = m.err
	}
	if err != nil {
		w.e.Count("conflict")
		if !errors.Is(err, viewstate.ViewConflictsError{}) {
			w.e.Fail("conflict", "creating %s returned %T %v", describeCreate(c), err, err)
		}
	}
	w.conflictCheck(m)
	at := idAttrs(c)
	for _, b := range bits {
		if addI == nil && addF == nil {
			break
		}
		m.started[b] = true
		simrt.Y(0)
		if addI != nil {
			addI(context.Background(), 1<<b, api.WithAttributes(at...))
		} else {
			addF(context.Background(), math.Ldexp(1, b), api.WithAttributes(at...))
		}
		m.ends[b] = simrt.Seq()
	}
}

// idAttrs are the attributes of the measurements; one list contains an empty
// key, which is dropped.
func idAttrs(c IdCreate) []attribute.KeyValue {
	l := []attribute.KeyValue{attribute.Int("A", c.A), attribute.Int("B", c.A%2)}
	if c.A == 2 {
		l = append(l, attribute.Int("", 7))
	}
	return l
}

func idSeries(keys int, at []attribute.KeyValue) string {
	var l []attribute.KeyValue
	for _, kv := range at {
		if kv.Key != "" {
			l = append(l, kv)
		}
	}
	return setKey(filter(attribute.NewSet(l...), keys))
}

// groupOf identifies an instrument as the application sees it.
func groupOf(c IdCreate) IdCreate { return IdCreate{S: c.S, N: c.N, K: c.K, D: c.D, U: c.U} }

func describeCreate(c IdCreate) string {
	return fmt.Sprintf("%v %q (int=%v, unit %q, description %q) in scope %d", idKinds[c.K].k, idNames[c.N], idKinds[c.K].isI, idUnits[c.U], idDescs[c.D], c.S)
}

// conflictCheck: an error is returned exactly when an output name is used by
// two different outputs of a reader, or the view's aggregation does not fit.
func (w *idWorld) conflictCheck(m *idMade) {
	must, may := false, false
	for _, r := range w.rs {
		mine, sem := w.outputs(r.p, m.c)
		if sem {
			must, may = true, true
		}
		lo, hi := map[idOut]bool{}, map[idOut]bool{}
		names := map[string]bool{}
		for _, b := range mine {
			lo[b.o], hi[b.o] = true, true
			names[b.o.name] = true
		}
		for _, o := range w.made {
			if o.c.S != m.c.S || o == m {
				continue
			}
			bs, _ := w.outputs(r.p, o.c)
			for _, b := range bs {
				hi[b.o] = true
				if o.end != 0 && o.end < m.begin {
					lo[b.o] = true
				}
			}
		}
		count := func(s map[idOut]bool, n string) (k int) {
			for o := range s {
				if o.name == n {
					k++
				}
			}
			return
		}
		for n := range names {
			if count(lo, n) > 1 {
				must = true
			}
			if count(hi, n) > 1 {
				may = true
			}
		}
	}
	if must && m.err == nil {
		w.e.Fail("conflict", "creating %s conflicts with another instrument or its view, but no error was returned", describeCreate(m.c))
	}
	if !may && m.err != nil {
		w.e.Fail("conflict", "creating %s returned %v, but conflicts with nothing", describeCreate(m.c), m.err)
	}
}

func (r *idRd) collect(final bool) {
	w := r.w
	n := r.n
	r.n++
	begin := simrt.Seq()
	out := r.man.Produce(nil)
	simrt.Quiet(true)
	defer simrt.Quiet(false)
	end := simrt.Seq()
	seen := map[string]bool{}
	for _, sc := range out.Scopes {
		sk := scopeKey(sc.Library)
		if seen[sk] {
			w.e.Fail("shape", "reader %d: scope %s appears twice", r.idx, sk)
		}
		seen[sk] = true
		for pos, in := range sc.Instruments {
			pk := fmt.Sprintf("%s#%02d", sk, pos)
			d, had := r.descs[pk]
			if had {
				a, b := d, in.Descriptor
				a.Description, b.Description = "", ""
				if a != b {
					w.e.Fail("shape", "reader %d: output %s was %v, is now %v", r.idx, pk, d, in.Descriptor)
				}
			}
			r.descs[pk] = in.Descriptor
			ser, cnt := map[string]float64{}, uint64(0)
			for i := range in.Points {
				agg := in.Points[i].Aggregation
				r.aggs[pk] = agg.Kind()
				isI := in.Descriptor.NumberKind == number.Int64Kind
				ps := setKey(in.Points[i].Attributes)
				switch a := agg.(type) {
				case aggregation.Histogram:
					if size := w.sizeOf(r, in.Descriptor, sk); int32(a.Positive().Len()) > size {
						w.e.Fail("histogram-size", "reader %d %s: %d buckets, the configured maximum is %d", r.idx, pk, a.Positive().Len(), size)
					}
					ser[ps] += toF(a.Sum(), isI)
					cnt += a.Count()
				case aggregation.MinMaxSumCount:
					ser[ps] += toF(a.Sum(), isI)
					cnt += a.Count()
				case aggregation.Sum:
					ser[ps] += toF(a.Sum(), isI)
				default:
					w.e.Fail("shape", "reader %d %s: unexpected aggregation %T", r.idx, pk, agg)
				}
			}
			if r.p.Tempo == 2 {
				if r.acc[pk] == nil {
					r.acc[pk] = map[string]float64{}
				}
				for k, v := range ser {
					r.acc[pk][k] += v
				}
				r.cnt[pk] += cnt
			} else {
				r.acc[pk], r.cnt[pk] = ser, cnt
			}
		}
		w.listCheck(r, n, sk, sc.Instruments, begin, end)
	}
	if final {
		r.finalCheck()
	}
}

// sizeOf is the largest histogram size configured for an output.
func (w *idWorld) sizeOf(r *idRd, d sdkinstrument.Descriptor, sk string) (size int32) {
	k := visible(idOut{name: d.Name, sync: d.Kind.Synchronous(), isI: d.NumberKind == number.Int64Kind, unit: d.Unit})
	for _, m := range w.made {
		if sc := scopeOf(m.c.S); scopeKey(sc) != sk {
			continue
		}
		bs, _ := w.outputs(r.p, m.c)
		for _, b := range bs {
			if visible(b.o) == k && b.o.agg == aggregation.HistogramKind {
				size = max(size, b.o.cfg.size)
			}
		}
	}
	return
}

func visible(o idOut) string {
	return fmt.Sprintf("%s|%v|%v|%q", o.name, o.sync, o.isI, o.unit)
}

// listCheck: every output appears once, and every instrument created before
// the collection began has its outputs.
func (w *idWorld) listCheck(r *idRd, n int, sk string, got []data.Instrument, begin, end int64) {
	lo, hi := map[string]map[idOut]bool{}, map[string]map[idOut]bool{}
	add := func(m map[string]map[idOut]bool, o idOut) {
		k := visible(o)
		if m[k] == nil {
			m[k] = map[idOut]bool{}
		}
		m[k][o] = true
	}
	for _, m := range w.made {
		sc := scopeOf(m.c.S)
		if scopeKey(sc) != sk || m.begin > end {
			continue
		}
		bs, _ := w.outputs(r.p, m.c)
		for _, b := range bs {
			add(hi, b.o)
			if m.end != 0 && m.end < begin {
				add(lo, b.o)
			}
		}
	}
	cnt := map[string]int{}
	for _, in := range got {
		d := in.Descriptor
		cnt[visible(idOut{name: d.Name, sync: d.Kind.Synchronous(), isI: d.NumberKind == number.Int64Kind, unit: d.Unit})]++
	}
	for k, c := range cnt {
		if c > len(hi[k]) {
			w.e.Fail("duplicate-output", "reader %d collection %d: %d outputs %s in %s, the instruments and views call for %d", r.idx, n, c, k, sk, len(hi[k]))
		}
	}
	for k, s := range lo {
		if cnt[k] < len(s) {
			w.e.Fail("missing-output", "reader %d collection %d: %d outputs %s in %s, the instruments and views call for %d", r.idx, n, cnt[k], k, sk, len(s))
		}
	}
}

// finalCheck: each output holds every measurement of the instruments that feed
// it exactly once, and has the longest description.
func (r *idRd) finalCheck() {
	w := r.w
	type want struct {
		ser  map[string]float64
		cnt  uint64
		desc map[string]bool
		len  int
		obs  map[int]bool
	}
	wants := map[string]map[idOut]*want{}
	for _, m := range w.made {
		sc := scopeOf(m.c.S)
		sk := scopeKey(sc)
		if wants[sk] == nil {
			wants[sk] = map[idOut]*want{}
		}
		bs, _ := w.outputs(r.p, m.c)
		for _, b := range bs {
			x := wants[sk][b.o]
			if x == nil {
				x = &want{ser: map[string]float64{}, desc: map[string]bool{}, obs: map[int]bool{}, len: -1}
				wants[sk][b.o] = x
			}
			if len(b.desc) > x.len {
				x.len, x.desc = len(b.desc), map[string]bool{}
			}
			if len(b.desc) == x.len {
				x.desc[b.desc] = true
			}
			for bit := range m.started {
				if !x.obs[bit] { // two clauses with one output: once
					x.obs[bit] = true
					x.ser[idSeries(b.o.keys, idAttrs(m.c))] += math.Ldexp(1, bit)
					x.cnt++
				}
			}
			if g := m.group; g > 0 && !x.obs[g] {
				x.obs[g] = true
				x.ser[idSeries(b.o.keys, []attribute.KeyValue{attribute.Int("A", g), attribute.Int("B", g%2)})] += math.Ldexp(1, g)
				x.cnt++
			}
		}
	}
	for sk, outs := range wants {
		// group by what can be told apart
		exp := map[string][]string{}
		for o, x := range outs {
			k := visible(o)
			c := x.cnt
			if o.agg == aggregation.MonotonicSumKind || o.agg == aggregation.NonMonotonicSumKind {
				c = 0
			}
			a := o.agg
			if x.cnt == 0 {
				a = 0
			}
			exp[k] = append(exp[k], fmt.Sprintf("agg %v count %d %s", a, c, showSeries(x.ser)))
		}
		got := map[string][]string{}
		for pk, d := range r.descs {
			if !strings.HasPrefix(pk, sk+"#") {
				continue
			}
			k := visible(idOut{name: d.Name, sync: d.Kind.Synchronous(), isI: d.NumberKind == number.Int64Kind, unit: d.Unit})
			a := r.aggs[pk]
			if showSeries(r.acc[pk]) == "" {
				a = 0
			}
			got[k] = append(got[k], fmt.Sprintf("agg %v count %d %s", a, r.cnt[pk], showSeries(r.acc[pk])))
			ok := false
			var wantD []string
			for o, x := range outs {
				if visible(o) == k {
					for ds := range x.desc {
						wantD = append(wantD, ds)
						if ds == d.Description {
							ok = true
						}
					}
				}
			}
			if !ok {
				sort.Strings(wantD)
				w.e.Fail("description", "reader %d: output %s %s has description %q, the longest given is one of %q", r.idx, sk, k, d.Description, wantD)
			}
		}
		for k := range got {
			if exp[k] == nil {
				exp[k] = nil
			}
		}
		for k := range exp {
			a, b := exp[k], got[k]
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, "; ") != strings.Join(b, "; ") {
				w.e.Fail("wrong-total", "reader %d: outputs %s in %s: expected [%s], collected [%s]", r.idx, k, sk, strings.Join(a, "; "), strings.Join(b, "; "))
			}
		}
	}
}

func showSeries(m map[string]float64) string {
	var l []string
	for k, v := range m {
		if v != 0 {
			l = append(l, fmt.Sprintf("{%s}=%v", k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func genIdent(r *simh.Rand) any {
	p := &IdPlan{}
	for i, n := 0, r.Range(1, 2); i < n; i++ {
		rp := IdReader{Tempo: []int{0, 2}[r.Intn(2)], Empty: r.P(0.1)}
		if r.P(0.2) {
			rp.DefCfg = r.Range(1, len(idCfgs)-1)
		}
		if r.P(0.1) {
			rp.Inv = r.Range(1, 2)
		}
		for j, m := 0, r.Intn(4); j < m; j++ {
			cl := IdClause{N: r.Range(-2, 1), K: r.Intn(len(idKinds)), Rename: 0, Keys: r.Intn(4)}
			if r.P(0.3) {
				cl.Rename = r.Range(1, 4)
			}
			if r.P(0.4) {
				cl.Agg = r.Range(1, 4)
			}
			if r.P(0.2) {
				cl.Scope = r.Range(1, 3)
			}
			if r.P(0.2) {
				cl.Desc = r.Range(1, 3)
			}
			if r.P(0.15) {
				cl.Num = r.Range(1, 2)
			}
			if r.P(0.15) {
				cl.Cfg = r.Range(1, len(idCfgs)-1)
			}
			if r.P(0.08) {
				cl.Inv = r.Range(1, 2)
			}
			rp.Clauses = append(rp.Clauses, cl)
			if r.P(0.15) {
				rp.Clauses = append(rp.Clauses, cl)
			}
		}
		for j, m := 0, r.Range(0, 2); j < m; j++ {
			var gaps []int
			for k, l := 0, r.Range(1, 4); k < l; k++ {
				g := 0
				if r.P(0.4) {
					g = r.Range(1, 30)
				}
				gaps = append(gaps, g)
			}
			rp.Gaps = append(rp.Gaps, gaps)
		}
		p.Readers = append(p.Readers, rp)
	}
	kinds := []int{r.Intn(len(idKinds)), r.Intn(len(idKinds))}
	if r.P(0.3) {
		kinds = kinds[:1]
	}
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		var l []IdCreate
		for j, m := 0, r.Range(1, 4); j < m; j++ {
			c := IdCreate{S: 0, N: r.Intn(2), K: kinds[r.Intn(len(kinds))], D: r.Intn(len(idDescs)), Ops: r.Range(0, 4), A: r.Intn(3)}
			if r.P(0.2) {
				c.S = []int{1, 1, 2, 3}[r.Intn(4)]
			}
			if r.P(0.15) {
				c.U = 1
			}
			if r.P(0.3) {
				c.Gap = r.Range(1, 30)
			}
			l = append(l, c)
		}
		p.Creators = append(p.Creators, l)
	}
	return p
}

// scopeOf is the i-th instrumentation scope: all have the same name.
func scopeOf(i int) instrumentation.Scope {
	switch i {
	case 2:
		return instrumentation.Scope{Name: "s", Version: "v0", SchemaURL: "http://schema/1"}
	case 3:
		return instrumentation.Scope{Name: "s", Version: "v0", Attributes: attribute.NewSet(attribute.String("part", "x"))}
	}
	return instrumentation.Scope{Name: "s", Version: fmt.Sprintf("v%d", i)}
}

// scopeMatch tells whether a clause for scope cl matches scope i: what the
// clause does not name matches anything.
func scopeMatch(cl, i int) bool { return cl == i || cl == 0 && i != 1 }

func scopeKey(s instrumentation.Scope) string {
	return s.Name + "@" + s.Version + s.SchemaURL + s.Attributes.Encoded(attribute.DefaultEncoder())
}
