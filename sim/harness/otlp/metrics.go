package otlp

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/open-telemetry/otel-arrow/collector/processor/concurrentbatchprocessor"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	api "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/prom"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// MPlan is an application exporting metrics.
type MPlan struct {
	Prom    bool       `json:"prom,omitempty"`
	Self    bool       `json:"self,omitempty"` // self-telemetry is observed
	Clients []CPlan    `json:"clients"`
	Provs   []PPlan    `json:"provs"`
	Net     []NetFault `json:"net,omitempty"`
	RunMs   int        `json:"run_ms"`
}

// CPlan is one exporter.
type CPlan struct {
	Size    int  `json:"size"`
	Max     int  `json:"max"`
	BatchMs int  `json:"batch_ms"`
	TimeMs  int  `json:"time_ms"`
	Hdr     int  `json:"hdr"`
	SelfM   bool `json:"self_m"`
	SelfS   bool `json:"self_s"`
	BadOpen bool `json:"bad_open,omitempty"` // another exporter's connection cannot be opened
	BadEnd  bool `json:"bad_end,omitempty"`  // closing the connection fails
}

// PPlan is one provider.
type PPlan struct {
	Client   int      `json:"client"`
	Res      int      `json:"res"`
	Tempo    int      `json:"tempo"`
	PeriodMs int      `json:"period_ms"` // 0: exported directly from Calls
	TimeMs   int      `json:"time_ms,omitempty"`
	Insts    []IPlan  `json:"insts"`
	Writers  [][]WOp  `json:"writers"`
	Calls    [][]Call `json:"calls,omitempty"`
	ShutMs   int      `json:"shut_ms,omitempty"` // early shutdown
}

type IPlan struct {
	Kind  int `json:"kind"`
	Scope int `json:"scope"`
	Agg   int `json:"agg,omitempty"`  // 1: min-max-sum-count
	Hint  int `json:"hint,omitempty"` // aggregation hint in the description
}

var hintNames = []string{"histogram", "gauge", "minmaxsumcount", "nonmonotonic_sum"}

// desc is the description of an instrument, which may carry a hint.
func (p IPlan) desc(d string) string {
	if p.Hint == 0 {
		return d
	}
	return fmt.Sprintf(`{"aggregation":%q,"description":%q}`, hintNames[(p.Hint-1)%len(hintNames)], d)
}

type WOp struct {
	I   int `json:"i"`
	A   int `json:"a"`
	V   int `json:"v"`
	Gap int `json:"gap,omitempty"` // us
	N   int `json:"n,omitempty"`   // many series
}

type Call struct {
	GapMs  int  `json:"gap_ms"`
	TimeMs int  `json:"time_ms,omitempty"`
	Cancel bool `json:"cancel,omitempty"`
}

var resources = []*resource.Resource{
	resource.NewSchemaless(attribute.String("service.name", "a"), attribute.Int("n", 1)),
	resource.NewSchemaless(attribute.String("service.name", "b"), attribute.Bool("flag", true), attribute.Float64("x", 0.5)),
	resource.NewSchemaless(),
	resource.NewSchemaless(attribute.String("service.name", "a"), attribute.Int("n", 2), attribute.StringSlice("l", []string{"x", "y"})),
	// equal to the first, another object
	resource.NewSchemaless(attribute.Int("n", 1), attribute.String("service.name", "a")),
	// the same attributes under other schemas
	resource.NewWithAttributes("http://schema/r", attribute.String("service.name", "a"), attribute.Int("n", 1)),
	resource.NewWithAttributes("http://schema/s", attribute.String("service.name", "a"), attribute.Int("n", 1)),
}

type scopeP struct {
	name, version, url string
	at                 []attribute.KeyValue
}

var scopes = []scopeP{
	{"lib", "", "", nil}, {"lib", "v1", "", nil}, {"lib", "v1", "http://schema/1", nil}, {"", "", "", nil}, {"other", "v2", "http://schema/2", nil},
	{"lib", "v1", "", []attribute.KeyValue{attribute.String("part", "x")}}, {"lib", "v1", "", []attribute.KeyValue{attribute.String("part", "y"), attribute.IntSlice("n", []int{1, 2})}},
}

// attrSets are the attributes used, made anew in every run.
var attrSets = newAttrSets()

func newAttrSets() [][]attribute.KeyValue {
	return [][]attribute.KeyValue{
		nil,
		{attribute.String("A", "1")},
		{attribute.Int("A", 1)},
		{attribute.Int("B", 2), attribute.String("A", "x")},
		{attribute.Bool("A", true), attribute.Float64("F", -1.5)},
		{attribute.StringSlice("S", []string{"p", "", "q"}), attribute.Int64Slice("I", []int64{-3, 4})},
		{attribute.BoolSlice("X", []bool{true, false}), attribute.Float64Slice("Y", []float64{0.25})},
		{attribute.String("A", ""), attribute.String("é", "ü")},
		{{Key: "Z"}, attribute.String("A", "y")}, // a value without type
		{attribute.Int64("min", math.MinInt64), attribute.Float64("tiny", 5e-324), attribute.Int64Slice("max", []int64{math.MaxInt64, 1<<53 + 1}), attribute.StringSlice("none", nil)},
		{attribute.Int("a", 1), attribute.Int("b", 2), attribute.Int("c", 3), attribute.Int("d", 4), attribute.Int("e", 5), attribute.Int("f", 6), attribute.String("g", "7"), attribute.Bool("h", false), attribute.Int("i", 9), attribute.Int("j", 10), attribute.Int("k", 11), attribute.Int("l", 12)},
	}
}

var values = []float64{1, 0, -1, 2, 5, 100, -7, 1e9, 3, 12, -4096, 0.5, 1e-300, 1e300, -0.001, 1e-9, 8e307, 5e-324}

const (
	iCounter = iota
	fCounter
	iUpDown
	fUpDown
	iHist
	fHist
	iGauge
	fGauge
	ioCounter
	foUpDown
	foGauge
	nKinds
)

var kindNames = []string{"ic", "fc", "iu", "fu", "ih", "fh", "ig", "fg", "ioc", "fou", "fog"}

type exportCall struct {
	items       []string
	begin, end  time.Duration
	seq0        int64
	stall       time.Duration
	err         error
	ctx         context.Context
	ctxErr      error
	client      int
	outermostMs int
}

type mworld struct {
	e       *simh.Env
	p       *MPlan
	n       *network
	ctx     context.Context
	clients []*mclient
	provs   []*mprov
	calls   []*exportCall
}

type mclient struct {
	w        *mworld
	i        int
	p        CPlan
	endpoint string
	exp      sdk.PushExporter
	users    int
	shut     bool
}

type mprov struct {
	w     *mworld
	p     PPlan
	mp    *sdk.MeterProvider
	c     *mclient
	insts []func(op WOp)
	obs   []map[int]int // observable instruments: value index by attribute set
}

func endpoint(i int) string { return fmt.Sprintf("collector-%d:4317", i) }

var hdrSets = []map[string]string{{"lightstep-access-token": "tok"}, {}, {"a": "1", "b": "2"}}

func hdrString(m map[string]string) string {
	s := ""
	for _, k := range []string{"a", "b", "lightstep-access-token"} {
		if v, ok := m[k]; ok {
			if s != "" {
				s += ","
			}
			s += k + "=" + v
		}
	}
	return s
}

// selfSettings: self telemetry is on unless it is switched off.
func selfSettings(m, s *bool, cp CPlan) {
	if !cp.SelfM {
		*m = false
	}
	if !cp.SelfS {
		*s = false
	}
}

func (w *mworld) client(i int) *mclient {
	cp := w.p.Clients[i]
	c := &mclient{w: w, i: i, p: cp, endpoint: endpoint(i)}
	var err error
	if w.p.Prom {
		c.endpoint = fmt.Sprintf("0.0.0.0:%d", 9100+i)
		cfg := prom.NewConfig(prom.WithPort(9100 + i))
		selfSettings(&cfg.SelfMetrics, &cfg.SelfSpans, cp)
		if cp.BadOpen {
			bad := cfg
			bad.Exporter.Endpoint = fmt.Sprintf("0.0.0.0:%d", 9200+i)
			w.n.refused(bad.Exporter.Endpoint, func() error { _, err := prom.NewExporter(w.ctx, bad); return err })
		}
		c.exp, err = prom.NewExporter(w.ctx, cfg)
	} else {
		cfg := otelcol.NewConfig(otelcol.WithInsecure(), otelcol.WithEndpoint(c.endpoint), otelcol.WithHeaders(hdrSets[cp.Hdr%len(hdrSets)]))
		selfSettings(&cfg.SelfMetrics, &cfg.SelfSpans, cp)
		if cp.Size > 0 {
			cfg.Batcher = concurrentbatchprocessor.Config{Timeout: time.Duration(cp.BatchMs) * time.Millisecond, SendBatchSize: uint32(cp.Size), SendBatchMaxSize: uint32(cp.Max)}
			w.n.maxSize[c.endpoint] = cp.Max
			w.n.noURL[c.endpoint] = cp.Max > 0
		} else {
			w.n.maxSize[c.endpoint] = 1500
			w.n.noURL[c.endpoint] = w.p.wide()
		}
		if cp.TimeMs > 0 {
			cfg.Exporter.TimeoutSettings.Timeout = time.Duration(cp.TimeMs) * time.Millisecond
		}
		w.n.timeout[c.endpoint] = cfg.Exporter.TimeoutSettings.Timeout
		if cp.BadOpen {
			bad := cfg
			bad.Exporter.ClientConfig.Endpoint = "bad-" + c.endpoint
			w.n.refused(bad.Exporter.ClientConfig.Endpoint, func() error { _, err := otelcol.NewExporter(w.ctx, bad); return err })
		}
		c.exp, err = otelcol.NewExporter(w.ctx, cfg)
	}
	w.n.failClose[c.endpoint] = cp.BadEnd
	if err != nil {
		w.e.Fail("new-exporter", "exporter %d: %v", i, err)
	}
	return c
}

// The recording exporter between reader and client.
func (c *mclient) String() string { return c.exp.String() }

func (c *mclient) ExportMetrics(ctx context.Context, d data.Metrics) error {
	return c.export(ctx, d, c.exp.ExportMetrics)
}

func (c *mclient) ForceFlushMetrics(ctx context.Context, d data.Metrics) error {
	return c.export(ctx, d, c.exp.ForceFlushMetrics)
}

func (c *mclient) ShutdownMetrics(ctx context.Context, d data.Metrics) error {
	if c.users > 1 { // shared: the last user closes it, once no other exports
		err := c.export(ctx, d, c.exp.ForceFlushMetrics)
		c.users--
		return err
	}
	c.users--
	k := c.endpoint + "/metrics"
	err := c.export(ctx, d, func(ctx context.Context, d data.Metrics) error {
		return c.w.n.closed(c.endpoint, c.exp.ShutdownMetrics(ctx, d))
	})
	c.shut = true
	n := 0
	for _, s := range c.w.n.stops {
		if s == k {
			n++
		}
	}
	if n != 1 {
		c.w.e.Fail("shutdown", "%s: connection closed %d times by ShutdownMetrics", k, n)
	}
	for _, p := range c.w.n.pushes {
		if p.endpoint == c.endpoint && p.end == 0 {
			c.w.e.Fail("shutdown-in-flight", "%s: ShutdownMetrics returned while request %d is in progress", k, p.n)
		}
	}
	return err
}

func (c *mclient) export(ctx context.Context, d data.Metrics, f func(context.Context, data.Metrics) error) error {
	w := c.w
	led := w.n.ledger(c.endpoint, "metrics")
	x := &exportCall{client: c.i, begin: simrt.Elapsed(), seq0: simrt.Seq(), ctx: ctx}
	w.calls = append(w.calls, x)
	simrt.Quiet(true)
	x.items = wantMetrics(d, !w.p.Prom)
	simrt.Quiet(false)
	if w.n.noURL[c.endpoint] {
		x.items = noURL(x.items)
	}
	for _, s := range x.items {
		led.exported[s]++
	}
	w.e.Count("export")
	st0 := simrt.Snapshot().StallTime
	x.err = f(ctx, d)
	x.end = simrt.Elapsed()
	x.stall = simrt.Snapshot().StallTime - st0
	x.ctxErr = ctx.Err()
	w.n.settle(c.endpoint, "metrics", x, c.limit())
	return x.err
}

// limit is the longest an export may take once it is accepted.
func (c *mclient) limit() time.Duration {
	if c.w.p.Prom {
		return time.Hour
	}
	return time.Duration(c.p.BatchMs)*time.Millisecond + c.w.n.timeout[c.endpoint]
}

// settle checks what an export call returned against the network's history.
func (n *network) settle(endpoint, signal string, x *exportCall, limit time.Duration) {
	k := endpoint + "/" + signal
	led := n.ledger(endpoint, signal)
	if x.err == nil {
		for _, s := range x.items {
			led.returned[s]++
			if led.okd[s] < led.returned[s] {
				n.e.Fail("lost", "%s: an export returned success, but only %d of %d exports of this item reached the collector:\n  %s", k, led.okd[s], led.returned[s], s)
			}
		}
	} else {
		n.e.Count("export_failed")
		if x.ctxErr == nil {
			cause := false
			for _, p := range n.pushes {
				if p.err == nil || p.endpoint != endpoint || p.signal != signal || p.seq1 < x.seq0 {
					continue
				}
				if len(x.items) == 0 && len(p.items) == 0 {
					cause = true
				}
				for _, s := range x.items {
					if p.count[s] > 0 {
						cause = true
					}
				}
			}
			if !cause {
				n.e.Fail("spurious-error", "%s: an export of %d items failed with %q, but its context is alive and no request with its items failed", k, len(x.items), x.err)
			}
		}
	}
	if d := x.end - x.begin; d > limit+x.stall+time.Second {
		n.e.Fail("slow", "%s: an export took %v, more than batching and request timeout (%v) and %v of injected stalls explain", k, d, limit, x.stall)
	}
}

func (w *mworld) tempo(i int) view.Option {
	sel := view.StandardTemporality
	switch i {
	case 1:
		sel = view.DeltaPreferredTemporality
	case 2:
		sel = aggregation.LowMemoryTemporality
	}
	return view.WithDefaultAggregationTemporalitySelector(sel)
}

func (w *mworld) provider(p PPlan, readers []sdk.Reader) *mprov {
	pv := &mprov{w: w, p: p, c: w.clients[p.Client%len(w.clients)]}
	vo := []view.Option{w.tempo(p.Tempo)}
	name := func(i int) string { return fmt.Sprintf("%s%d", kindNames[p.Insts[i].Kind], i) }
	for i, in := range p.Insts {
		if in.Agg == 1 {
			vo = append(vo, view.WithClause(view.MatchInstrumentName(name(i)), view.WithAggregation(aggregation.MinMaxSumCountKind)))
		}
	}
	opts := []sdk.Option{sdk.WithResource(resources[p.Res%len(resources)])}
	for _, rd := range readers {
		opts = append(opts, sdk.WithReader(rd, vo...))
	}
	pv.mp = sdk.NewMeterProvider(opts...)
	ctx := w.ctx
	for i, in := range p.Insts {
		sc := scopes[in.Scope%len(scopes)]
		m := pv.mp.Meter(sc.name, api.WithInstrumentationVersion(sc.version), api.WithSchemaURL(sc.url), api.WithInstrumentationAttributes(sc.at...))
		nm := name(i)
		obs := map[int]int{}
		pv.obs = append(pv.obs, obs)
		at := func(op WOp) api.MeasurementOption {
			if op.N > 0 {
				return api.WithAttributes(attribute.Int("w", op.N))
			}
			return api.WithAttributes(attrSets[op.A%len(attrSets)]...)
		}
		val := func(op WOp) float64 { return values[op.V%len(values)] }
		iv := func(op WOp) int64 {
			if in.Kind != iHist && in.Agg == 0 && in.Hint == 0 { // not representable as float64
				switch op.V % len(values) {
				case 8:
					return 1<<53 + 1
				case 10:
					return -1<<59 - 1
				}
			}
			return int64(math.Max(-1e15, math.Min(1e15, val(op))))
		}
		sorted := func(f func(a, v int)) {
			for a := range attrSets {
				if v, ok := obs[a]; ok {
					f(a, v)
				}
			}
		}
		var f func(op WOp)
		var err error
		switch in.Kind {
		case iCounter:
			x, e := m.Int64Counter(nm, api.WithUnit("1"), api.WithDescription(in.desc("counts")))
			err, f = e, func(op WOp) { x.Add(ctx, abs(iv(op)), at(op)) }
		case fCounter:
			x, e := m.Float64Counter(nm, api.WithUnit("s"), api.WithDescription(in.desc("")))
			err, f = e, func(op WOp) { x.Add(ctx, math.Abs(val(op)), at(op)) }
		case iUpDown:
			x, e := m.Int64UpDownCounter(nm, api.WithDescription(in.desc("")))
			err, f = e, func(op WOp) { x.Add(ctx, iv(op), at(op)) }
		case fUpDown:
			x, e := m.Float64UpDownCounter(nm, api.WithDescription(in.desc("d")))
			err, f = e, func(op WOp) { x.Add(ctx, val(op), at(op)) }
		case iHist:
			x, e := m.Int64Histogram(nm, api.WithUnit("By"))
			err, f = e, func(op WOp) { x.Record(ctx, iv(op), at(op)) }
		case fHist:
			x, e := m.Float64Histogram(nm)
			err, f = e, func(op WOp) { x.Record(ctx, val(op), at(op)) }
		case iGauge:
			x, e := m.Int64Gauge(nm)
			err, f = e, func(op WOp) { x.Record(ctx, iv(op), at(op)) }
		case fGauge:
			x, e := m.Float64Gauge(nm)
			err, f = e, func(op WOp) { x.Record(ctx, val(op), at(op)) }
		case ioCounter:
			_, err = m.Int64ObservableCounter(nm, api.WithInt64Callback(func(_ context.Context, o api.Int64Observer) error {
				sorted(func(a, v int) { o.Observe(int64(v)*(1<<49+1), api.WithAttributes(attrSets[a]...)) })
				return nil
			}))
			f = func(op WOp) { obs[op.A%len(attrSets)] += int(op.V) }
		case foUpDown:
			_, err = m.Float64ObservableUpDownCounter(nm, api.WithFloat64Callback(func(_ context.Context, o api.Float64Observer) error {
				sorted(func(a, v int) { o.Observe(values[v], api.WithAttributes(attrSets[a]...)) })
				return nil
			}))
			f = func(op WOp) { obs[op.A%len(attrSets)] = op.V % len(values) }
		case foGauge:
			_, err = m.Float64ObservableGauge(nm, api.WithFloat64Callback(func(_ context.Context, o api.Float64Observer) error {
				sorted(func(a, v int) { o.Observe(values[v], api.WithAttributes(attrSets[a]...)) })
				return nil
			}))
			f = func(op WOp) { obs[op.A%len(attrSets)] = op.V % len(values) }
		}
		if err != nil {
			w.e.Fail("instrument", "%s: %v", nm, err)
		}
		pv.insts = append(pv.insts, f)
	}
	return pv
}

// wide: there may be more points than one request carries by default.
func (p *MPlan) wide() bool {
	for _, pv := range p.Provs {
		for _, ops := range pv.Writers {
			for _, op := range ops {
				if op.N > 0 {
					return true
				}
			}
		}
	}
	return false
}

func abs(i int64) int64 {
	if i < 0 {
		return -i
	}
	return i
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func runMetrics(e *simh.Env, p *MPlan) {
	if len(p.Clients) == 0 {
		return
	}
	handled = nil
	attrSets = newAttrSets()
	w := &mworld{e: e, p: p, n: newNetwork(e, p.Net), ctx: context.Background()}
	var self *selfObs
	if p.Self {
		self = newSelf(e)
		otel.SetMeterProvider(self.mp)
		otel.SetTracerProvider(self.tp)
	}
	for i := range p.Clients {
		w.clients = append(w.clients, w.client(i))
	}
	var hs []*simrt.Handle
	type direct struct {
		pv *mprov
		rd *sdk.ManualReader
	}
	var dirs []direct
	for _, pp := range p.Provs { // direct users keep their client open to the end
		w.clients[pp.Client%len(w.clients)].users++
	}
	for _, pp := range p.Provs {
		pp := pp
		c := w.clients[pp.Client%len(w.clients)]
		var pv *mprov
		if pp.PeriodMs > 0 {
			var po []sdk.PeriodicReaderOption
			if pp.TimeMs > 0 {
				po = append(po, sdk.WithTimeout(ms(pp.TimeMs)))
			}
			pv = w.provider(pp, []sdk.Reader{sdk.NewPeriodicReader(c, ms(pp.PeriodMs), po...)})
		} else {
			var rds []sdk.Reader
			var mans []*sdk.ManualReader
			for range pp.Calls {
				m := sdk.NewManualReader("direct")
				mans = append(mans, m)
				rds = append(rds, m)
			}
			pv = w.provider(pp, rds)
			for i, calls := range pp.Calls {
				i, calls := i, calls
				dirs = append(dirs, direct{pv, mans[i]})
				hs = append(hs, simrt.Go("exporter", func() {
					for _, cl := range calls {
						simrt.Sleep(ms(cl.GapMs))
						w.call(cl, func(ctx context.Context) { _ = c.ExportMetrics(ctx, mans[i].Produce(nil)) })
					}
				}))
			}
		}
		w.provs = append(w.provs, pv)
		for _, ops := range pp.Writers {
			ops := ops
			hs = append(hs, simrt.Go("writer", func() {
				for _, op := range ops {
					if op.Gap > 0 {
						simrt.Sleep(time.Duration(op.Gap) * time.Microsecond)
					}
					for n := op.N; n > 1; n-- {
						op.N = n
						pv.insts[op.I%len(pv.insts)](op)
					}
					pv.insts[op.I%len(pv.insts)](op)
				}
			}))
		}
		if pp.PeriodMs > 0 {
			for _, calls := range pp.Calls {
				calls := calls
				hs = append(hs, simrt.Go("flusher", func() {
					for _, cl := range calls {
						simrt.Sleep(ms(cl.GapMs))
						w.call(cl, func(ctx context.Context) { _ = pv.mp.ForceFlush(ctx) })
					}
				}))
			}
			if pp.ShutMs > 0 {
				hs = append(hs, simrt.Go("shutdown", func() {
					simrt.Sleep(ms(pp.ShutMs))
					_ = pv.mp.Shutdown(w.ctx)
				}))
			}
		}
	}
	for _, h := range hs {
		simrt.Join(h)
	}
	simrt.Sleep(ms(p.RunMs))
	for _, d := range dirs {
		_ = d.pv.c.ExportMetrics(w.ctx, d.rd.Produce(nil))
	}
	for _, pv := range w.provs {
		_ = pv.mp.Shutdown(w.ctx)
	}
	for _, c := range w.clients {
		if !c.shut {
			c.users = 1
			_ = c.ShutdownMetrics(w.ctx, data.Metrics{Resource: resources[0]})
		}
	}
	simrt.Sleep(time.Second)
	for _, pu := range w.n.pushes {
		for i, c := range w.clients {
			if pu.endpoint == c.endpoint && !p.Prom {
				if want := hdrString(hdrSets[p.Clients[i].Hdr%len(hdrSets)]); pu.hdr != want {
					e.Fail("headers", "%s: headers %q, configured %q", c.endpoint, pu.hdr, want)
				}
			}
		}
	}
	if self != nil {
		self.check(w.n, w.calls, func(i int) CPlan { return p.Clients[i] }, func(i int) string {
			if i < len(w.clients) {
				return w.clients[i].endpoint
			}
			return ""
		}, "metric", "lightstep-go/sdk/metric")
	}
}

func (w *mworld) call(cl Call, f func(ctx context.Context)) {
	callCtx(w.e, w.ctx, cl, f)
}

func callCtx(e *simh.Env, base context.Context, cl Call, f func(ctx context.Context)) {
	ctx := base
	var cancel context.CancelFunc = func() {}
	if cl.TimeMs > 0 {
		ctx, cancel = context.WithTimeout(base, ms(cl.TimeMs))
		if cl.Cancel { // canceled, not timed out, at that time
			ctx, cancel = context.WithCancel(base)
			c2 := cancel
			t := time.AfterFunc(ms(cl.TimeMs), c2)
			defer t.Stop()
			e.Count("fault_cancel")
		} else {
			e.Count("fault_deadline")
		}
	} else if cl.Cancel {
		ctx, cancel = context.WithCancel(base)
		cancel()
		e.Count("fault_canceled_call")
	}
	f(ctx)
	cancel()
}

var handled func(error)

func init() {
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) {
		if err == nil {
			panic("the error handler was given a nil error")
		}
		if handled != nil {
			handled(err)
		}
	}))
}

func stateOf(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case errors.Is(err, context.DeadlineExceeded):
		return "timeout"
	}
	return "error"
}
