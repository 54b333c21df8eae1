package otlp

import (
	"context"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/open-telemetry/otel-arrow/collector/processor/concurrentbatchprocessor"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/trace"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
	otelcoltrace "github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
)

// ids generates trace and span identities in order.
type ids struct{ n uint64 }

func (g *ids) NewIDs(context.Context) (trace.TraceID, trace.SpanID) {
	var t trace.TraceID
	g.n++
	binary.BigEndian.PutUint64(t[8:], g.n)
	binary.BigEndian.PutUint64(t[:8], 0xabc)
	return t, g.NewSpanID(nil, t)
}

func (g *ids) NewSpanID(context.Context, trace.TraceID) trace.SpanID {
	var s trace.SpanID
	g.n++
	binary.BigEndian.PutUint64(s[:], g.n)
	return s
}

// TPlan is an application exporting traces.
type TPlan struct {
	Self    bool       `json:"self,omitempty"`
	Opt     bool       `json:"opt,omitempty"` // self providers given as options
	Clients []CPlan    `json:"clients"`
	Provs   []TProv    `json:"provs"`
	Direct  [][]TCall  `json:"direct,omitempty"`
	Net     []NetFault `json:"net,omitempty"`
	RunMs   int        `json:"run_ms"`
}

type TProv struct {
	Client int        `json:"client"`
	Res    int        `json:"res"`
	BSP    bool       `json:"bsp"` // batch span processor; otherwise spans are kept for direct export
	Queue  int        `json:"queue,omitempty"`
	Batch  int        `json:"batch,omitempty"`
	WaitMs int        `json:"wait_ms,omitempty"`
	Work   [][]SpanOp `json:"work"`
	Calls  [][]Call   `json:"calls,omitempty"`
	ShutMs int        `json:"shut_ms,omitempty"`
}

type SpanOp struct {
	Gap    int  `json:"gap,omitempty"`
	Scope  int  `json:"scope"`
	Kind   int  `json:"kind"`
	A      int  `json:"a"`
	Events int  `json:"ev,omitempty"`
	Links  int  `json:"ln,omitempty"`
	Status int  `json:"st,omitempty"`
	Child  bool `json:"child,omitempty"`
	Dup    bool `json:"dup,omitempty"`
	State  bool `json:"state,omitempty"`
	N      int  `json:"n,omitempty"` // many spans
}

// TCall exports N spans taken from the kept ones.
type TCall struct {
	Call
	Client int  `json:"client"`
	N      int  `json:"n"`
	Rev    bool `json:"rev,omitempty"`
}

type tworld struct {
	e       *simh.Env
	p       *TPlan
	n       *network
	ctx     context.Context
	clients []*tclient
	calls   []*exportCall
	kept    []sdktrace.ReadOnlySpan
}

type tclient struct {
	w        *tworld
	i        int
	p        CPlan
	endpoint string
	exp      sdktrace.SpanExporter
	users    int
	shut     bool
}

func (w *tworld) client(i int, self *selfObs) *tclient {
	cp := w.p.Clients[i]
	c := &tclient{w: w, i: i, p: cp, endpoint: endpoint(i)}
	cfg := otelcoltrace.NewConfig(otelcoltrace.WithInsecure(), otelcoltrace.WithEndpoint(c.endpoint), otelcoltrace.WithHeaders(hdrSets[cp.Hdr%len(hdrSets)]))
	selfSettings(&cfg.SelfMetrics, &cfg.SelfSpans, cp)
	if cp.Size > 0 {
		cfg.Batcher = concurrentbatchprocessor.Config{Timeout: ms(cp.BatchMs), SendBatchSize: uint32(cp.Size), SendBatchMaxSize: uint32(cp.Max)}
		w.n.maxSize[c.endpoint] = cp.Max
		w.n.noURL[c.endpoint] = cp.Max > 0
	} else {
		w.n.maxSize[c.endpoint] = 1500
		w.n.noURL[c.endpoint] = w.p.wide()
		c.p.BatchMs = 1000
	}
	if cp.TimeMs > 0 {
		cfg.Exporter.TimeoutSettings.Timeout = ms(cp.TimeMs)
	}
	w.n.timeout[c.endpoint] = cfg.Exporter.TimeoutSettings.Timeout
	var opts []func(*otelcoltrace.ExporterOptions)
	if self != nil && w.p.Opt {
		// given providers are used whatever the settings say
		opts = append(opts, otelcoltrace.WithMeterProvider(self.mp), otelcoltrace.WithTracerProvider(self.tp))
		c.p.SelfM, c.p.SelfS = true, true
	}
	var err error
	if cp.BadOpen {
		bad := cfg
		bad.Exporter.ClientConfig.Endpoint = "bad-" + c.endpoint
		w.n.refused(bad.Exporter.ClientConfig.Endpoint, func() error { _, err := otelcoltrace.NewExporter(w.ctx, bad, opts...); return err })
	}
	w.n.failClose[c.endpoint] = cp.BadEnd
	c.exp, err = otelcoltrace.NewExporter(w.ctx, cfg, opts...)
	if err != nil {
		w.e.Fail("new-exporter", "exporter %d: %v", i, err)
	}
	return c
}

func (c *tclient) ExportSpans(ctx context.Context, spans []sdktrace.ReadOnlySpan) error {
	w := c.w
	led := w.n.ledger(c.endpoint, "traces")
	x := &exportCall{client: c.i, begin: simrt.Elapsed(), seq0: simrt.Seq(), ctx: ctx}
	w.calls = append(w.calls, x)
	simrt.Quiet(true)
	var raw []string
	for _, s := range spans {
		x.items = append(x.items, wantSpan(s))
		raw = append(raw, rawSpan(s))
	}
	simrt.Quiet(false)
	defer func() {
		simrt.Quiet(true)
		for i, s := range spans {
			if r := rawSpan(s); r != raw[i] {
				w.e.Fail("modified", "%s: the export changed the span it was given from\n  %s\nto\n  %s", c.endpoint, raw[i], r)
			}
		}
		simrt.Quiet(false)
	}()
	if w.n.noURL[c.endpoint] {
		x.items = noURL(x.items)
	}
	for _, s := range x.items {
		led.exported[s]++
	}
	w.e.Count("export")
	st0 := simrt.Snapshot().StallTime
	x.err = c.exp.ExportSpans(ctx, spans)
	x.end = simrt.Elapsed()
	x.stall = simrt.Snapshot().StallTime - st0
	x.ctxErr = ctx.Err()
	w.n.settle(c.endpoint, "traces", x, ms(c.p.BatchMs)+w.n.timeout[c.endpoint])
	return x.err
}

func (c *tclient) Shutdown(ctx context.Context) error {
	c.users--
	if c.users > 0 {
		return nil
	}
	c.shut = true
	err := c.w.n.closed(c.endpoint, c.exp.Shutdown(ctx))
	k := c.endpoint + "/traces"
	n := 0
	for _, s := range c.w.n.stops {
		if s == k {
			n++
		}
	}
	if n != 1 {
		c.w.e.Fail("shutdown", "%s: connection closed %d times by Shutdown", k, n)
	}
	for _, p := range c.w.n.pushes {
		if p.endpoint == c.endpoint && p.end == 0 {
			c.w.e.Fail("shutdown-in-flight", "%s: Shutdown returned while request %d is in progress", k, p.n)
		}
	}
	return err
}

// rawSpan shows what belongs to the span, in its order.
func rawSpan(s sdktrace.ReadOnlySpan) string {
	kvs := func(as []attribute.KeyValue) string {
		out := ""
		for _, kv := range as {
			out += fmt.Sprintf("%q=%s,", kv.Key, wantValue(kv.Value))
		}
		return out
	}
	out := s.Name() + " {" + kvs(s.Attributes()) + "}"
	for _, e := range s.Events() {
		out += " ev{" + kvs(e.Attributes) + "}"
	}
	for _, l := range s.Links() {
		out += " ln{" + kvs(l.Attributes) + "}"
	}
	return out
}

// keep is a span processor that only remembers.
type keep struct{ w *tworld }

func (k keep) OnStart(context.Context, sdktrace.ReadWriteSpan) {}
func (k keep) OnEnd(s sdktrace.ReadOnlySpan)                   { k.w.kept = append(k.w.kept, s) }
func (k keep) Shutdown(context.Context) error                  { return nil }
func (k keep) ForceFlush(context.Context) error                { return nil }

func (w *tworld) span(tp *sdktrace.TracerProvider, op SpanOp, parent context.Context) context.Context {
	sc := scopes[op.Scope%len(scopes)]
	tr := tp.Tracer(sc.name, trace.WithInstrumentationVersion(sc.version), trace.WithSchemaURL(sc.url), trace.WithInstrumentationAttributes(sc.at...))
	ctx := w.ctx
	if op.Child && parent != nil {
		ctx = parent
	} else if op.State {
		ts, _ := trace.ParseTraceState("a=1,b=2")
		t, s := (&ids{n: 77}).NewIDs(ctx)
		ctx = trace.ContextWithRemoteSpanContext(ctx, trace.NewSpanContext(trace.SpanContextConfig{TraceID: t, SpanID: s, TraceState: ts, TraceFlags: trace.FlagsSampled, Remote: true}))
	}
	so := []trace.SpanStartOption{trace.WithSpanKind(trace.SpanKind(op.Kind)), trace.WithAttributes(attrSets[op.A%len(attrSets)]...)}
	for i := 0; i < op.Links; i++ {
		t, s := (&ids{n: uint64(1000 + i)}).NewIDs(ctx)
		var ts trace.TraceState
		if op.State {
			ts, _ = trace.ParseTraceState(fmt.Sprintf("l=%d", i))
		}
		so = append(so, trace.WithLinks(trace.Link{SpanContext: trace.NewSpanContext(trace.SpanContextConfig{TraceID: t, SpanID: s, TraceState: ts}), Attributes: attrSets[(op.A+i)%len(attrSets)]}))
	}
	ctx, sp := tr.Start(ctx, fmt.Sprintf("op%d", op.Kind), so...)
	for i := 0; i < op.Events; i++ {
		sp.AddEvent(fmt.Sprint("ev", i), trace.WithAttributes(attrSets[(op.A+i+1)%len(attrSets)]...))
	}
	if op.Dup {
		sp.SetAttributes(attribute.String("A", "again"))
	}
	simrt.Y(0)
	switch op.Status {
	case 1:
		sp.SetStatus(codes.Ok, "fine")
	case 2:
		sp.SetStatus(codes.Error, "failed")
	}
	sp.End()
	return ctx
}

// wide: there may be more spans than one request carries by default.
func (p *TPlan) wide() bool {
	for _, pv := range p.Provs {
		for _, ops := range pv.Work {
			for _, op := range ops {
				if op.N > 0 {
					return true
				}
			}
		}
	}
	return false
}

func runTraces(e *simh.Env, p *TPlan) {
	if len(p.Clients) == 0 {
		return
	}
	handled = nil
	attrSets = newAttrSets()
	w := &tworld{e: e, p: p, n: newNetwork(e, p.Net), ctx: context.Background()}
	var self *selfObs
	if p.Self {
		self = newSelf(e)
		if !p.Opt {
			otel.SetMeterProvider(self.mp)
			otel.SetTracerProvider(self.tp)
		}
	}
	for i := range p.Clients {
		w.clients = append(w.clients, w.client(i, self))
	}
	gen := &ids{}
	var tps []*sdktrace.TracerProvider
	var hs []*simrt.Handle
	for _, pp := range p.Provs {
		if pp.BSP {
			w.clients[pp.Client%len(w.clients)].users++
		}
	}
	for _, pp := range p.Provs {
		pp := pp
		c := w.clients[pp.Client%len(w.clients)]
		var sp sdktrace.SpanProcessor = keep{w}
		if pp.BSP {
			sp = sdktrace.NewBatchSpanProcessor(c, sdktrace.WithMaxQueueSize(pp.Queue), sdktrace.WithMaxExportBatchSize(pp.Batch), sdktrace.WithBatchTimeout(ms(pp.WaitMs)))
		}
		lim := sdktrace.NewSpanLimits()
		lim.EventCountLimit, lim.LinkCountLimit, lim.AttributeCountLimit = 2, 2, 2
		if pp.Res%3 == 2 {
			lim.AttributeCountLimit = -1
		}
		if pp.Res%2 == 1 {
			lim.AttributePerEventCountLimit, lim.AttributePerLinkCountLimit = 1, 1
		}
		tp := sdktrace.NewTracerProvider(sdktrace.WithSpanProcessor(sp), sdktrace.WithResource(resources[pp.Res%len(resources)]), sdktrace.WithIDGenerator(gen), sdktrace.WithRawSpanLimits(lim))
		tps = append(tps, tp)
		for _, ops := range pp.Work {
			ops := ops
			hs = append(hs, simrt.Go("worker", func() {
				var last context.Context
				for _, op := range ops {
					if op.Gap > 0 {
						simrt.Sleep(time.Duration(op.Gap) * time.Microsecond)
					}
					for i := 1; i < op.N; i++ {
						w.span(tp, op, last)
					}
					last = w.span(tp, op, last)
				}
			}))
		}
		for _, calls := range pp.Calls {
			calls := calls
			hs = append(hs, simrt.Go("flusher", func() {
				for _, cl := range calls {
					simrt.Sleep(ms(cl.GapMs))
					callCtx(e, w.ctx, cl, func(ctx context.Context) { _ = tp.ForceFlush(ctx) })
				}
			}))
		}
		if pp.ShutMs > 0 {
			hs = append(hs, simrt.Go("shutdown", func() {
				simrt.Sleep(ms(pp.ShutMs))
				_ = tp.Shutdown(w.ctx)
			}))
		}
	}
	taken := 0
	for _, calls := range p.Direct {
		calls := calls
		hs = append(hs, simrt.Go("exporter", func() {
			for _, cl := range calls {
				simrt.Sleep(ms(cl.GapMs))
				end := min(taken+cl.N, len(w.kept))
				batch := append([]sdktrace.ReadOnlySpan(nil), w.kept[taken:end]...)
				taken = end
				if cl.Rev {
					for i, j := 0, len(batch)-1; i < j; i, j = i+1, j-1 {
						batch[i], batch[j] = batch[j], batch[i]
					}
				}
				c := w.clients[cl.Client%len(w.clients)]
				if c.shut {
					continue
				}
				c.users++
				callCtx(e, w.ctx, cl.Call, func(ctx context.Context) { _ = c.ExportSpans(ctx, batch) })
				c.users--
			}
		}))
	}
	for _, h := range hs {
		simrt.Join(h)
	}
	simrt.Sleep(ms(p.RunMs))
	for _, tp := range tps {
		_ = tp.Shutdown(w.ctx)
	}
	for _, c := range w.clients {
		if !c.shut {
			c.users = 1
			_ = c.Shutdown(w.ctx)
		}
	}
	simrt.Sleep(time.Second)
	for _, pu := range w.n.pushes {
		for i, c := range w.clients {
			if pu.endpoint == c.endpoint {
				if want := hdrString(hdrSets[p.Clients[i].Hdr%len(hdrSets)]); pu.hdr != want {
					e.Fail("headers", "%s: headers %q, configured %q", c.endpoint, pu.hdr, want)
				}
			}
		}
	}
	if self != nil {
		self.check(w.n, w.calls, func(i int) CPlan { return w.clients[i].p }, func(i int) string {
			if i < len(w.clients) {
				return w.clients[i].endpoint
			}
			return ""
		}, "span", "lightstep-go/sdk/trace")
	}
}
