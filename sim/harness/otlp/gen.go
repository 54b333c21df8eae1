package otlp

import (
	"context"
	"time"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/metric/noop"
	tracenoop "go.opentelemetry.io/otel/trace/noop"

	"github.com/lightstep/go-expohisto/mapping/exponent"
	"github.com/lightstep/go-expohisto/mapping/logarithm"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
)

func genNet(r *simh.Rand, long int) []NetFault {
	var fs []NetFault
	if r.P(0.25) {
		return nil
	}
	for i := r.Range(1, 10); i > 0; i-- {
		var f NetFault
		if r.P(0.5) {
			f.DelayMs = r.Range(1, 50)
			if r.P(0.3) {
				f.DelayMs = r.Range(1, long)
			}
		}
		if r.P(0.3) {
			f.What = r.Range(1, 5)
		}
		fs = append(fs, f)
	}
	return fs
}

func genClient(r *simh.Rand) CPlan {
	c := CPlan{Hdr: r.Intn(3), SelfM: r.P(0.8), SelfS: r.P(0.8)}
	if r.P(0.8) {
		c.Size = r.Range(1, 8)
		if r.P(0.7) {
			c.Max = c.Size + r.Range(0, 4)
		}
		if r.P(0.5) {
			c.BatchMs = r.Range(1, 200)
		}
	}
	if r.P(0.5) {
		c.TimeMs = r.Range(20, 3000)
	}
	c.BadOpen, c.BadEnd = r.P(0.1), r.P(0.15)
	return c
}

func genCalls(r *simh.Rand, n int) []Call {
	var out []Call
	for i := r.Range(1, n); i > 0; i-- {
		c := Call{}
		if r.P(0.6) {
			c.GapMs = r.Range(0, 30)
		}
		switch r.Intn(6) {
		case 0:
			c.TimeMs = r.Range(1, 60)
		case 1:
			c.TimeMs, c.Cancel = r.Range(1, 60), true
		case 2:
			if r.P(0.3) {
				c.Cancel = true
			}
		}
		out = append(out, c)
	}
	return out
}

func genM(prom, self bool) func(r *simh.Rand) any {
	return func(r *simh.Rand) any {
		p := &MPlan{Prom: prom, Self: self || r.P(0.1), RunMs: r.Range(0, 300)}
		for i := r.Range(1, 2); i > 0; i-- {
			p.Clients = append(p.Clients, genClient(r))
		}
		p.Net = genNet(r, 20000)
		if prom {
			for i := range p.Net {
				p.Net[i].DelayMs = 0
				p.Net[i].What %= 3
			}
		}
		minPeriod := 50 // with slow networks runs last longer
		for _, f := range p.Net {
			if f.DelayMs > 1000 || f.What == 3 || f.What == 5 {
				minPeriod = 400
			}
		}
		for i := r.Range(1, 3); i > 0; i-- {
			pv := PPlan{Client: r.Intn(len(p.Clients)), Res: r.Intn(len(resources)), Tempo: r.Intn(3)}
			for j := r.Range(1, 4); j > 0; j-- {
				in := IPlan{Kind: r.Intn(nKinds), Scope: r.Intn(len(scopes))}
				if prom && r.P(0.5) {
					in.Kind = iHist + r.Intn(2)
				}
				if (in.Kind == iHist || in.Kind == fHist) && r.P(0.5) {
					in.Agg = 1
				}
				if in.Kind <= fUpDown && r.P(0.5) {
					in.Hint = 1
					if r.P(0.4) {
						in.Hint = r.Range(2, len(hintNames))
					}
				}
				pv.Insts = append(pv.Insts, in)
			}
			if r.P(0.6) {
				pv.PeriodMs = []int{minPeriod + r.Range(0, 150), minPeriod + r.Range(150, 5000)}[r.Intn(2)]
				if r.P(0.3) {
					pv.TimeMs = r.Range(5, 500)
				}
				if r.P(0.4) {
					pv.Calls = append(pv.Calls, genCalls(r, 4))
				}
				if r.P(0.2) {
					pv.ShutMs = r.Range(1, 200)
				}
			} else {
				for j := r.Range(1, 3); j > 0; j-- {
					pv.Calls = append(pv.Calls, genCalls(r, 5))
				}
			}
			for j := r.Range(1, 2); j > 0; j-- {
				var ops []WOp
				for k := r.Range(1, 12); k > 0; k-- {
					op := WOp{I: r.Intn(len(pv.Insts)), A: r.Intn(len(attrSets)), V: r.Intn(len(values))}
					if r.P(0.5) {
						op.Gap = r.Range(1, 20000)
						if r.P(0.3) {
							op.Gap = r.Range(1, 1000000)
						}
					}
					ops = append(ops, op)
				}
				pv.Writers = append(pv.Writers, ops)
			}
			p.Provs = append(p.Provs, pv)
		}
		if r.P(0.005) { // one provider with more points than a request carries
			p.Clients, p.Net, p.Provs = p.Clients[:1], nil, p.Provs[:1]
			c, pv := &p.Clients[0], &p.Provs[0]
			c.Size, c.Max, c.TimeMs, c.BatchMs = 0, 0, 0, 0
			pv.PeriodMs, pv.TimeMs, pv.ShutMs, pv.Client = 0, 0, 0, 0
			pv.Calls = [][]Call{{{GapMs: 50}}}
			pv.Insts = []IPlan{{Kind: r.Intn(ioCounter)}, {Kind: r.Intn(ioCounter), Scope: r.Intn(len(scopes))}}
			pv.Writers = [][]WOp{{{I: 0, V: 1, N: r.Range(700, 1600)}}, {{I: 1, V: 3, N: r.Range(700, 1600)}}}
			return p
		}
		if r.P(0.5) {
			p.together(r)
		}
		return p
	}
}

// together makes a short run: the first exports of several providers through
// one exporter happen at the same time.
func (p *MPlan) together(r *simh.Rand) {
	p.Clients, p.RunMs = p.Clients[:1], 0
	if r.P(0.7) {
		p.Net = nil
	}
	for len(p.Provs) < 2 {
		pv := p.Provs[0]
		p.Provs = append(p.Provs, pv)
	}
	for i := range p.Provs {
		pv := &p.Provs[i]
		pv.Client, pv.Res = 0, p.Provs[0].Res+i
		pv.PeriodMs, pv.TimeMs, pv.ShutMs = 0, 0, 0
		pv.Calls = nil
		for j := r.Range(1, 2); j > 0; j-- {
			pv.Calls = append(pv.Calls, make([]Call, r.Range(1, 2)))
		}
		if len(pv.Insts) > 2 {
			pv.Insts = pv.Insts[:2]
		}
		pv.Writers = nil
		var ops []WOp
		for k := r.Range(1, 3); k > 0; k-- {
			ops = append(ops, WOp{I: r.Intn(len(pv.Insts)), A: r.Intn(len(attrSets)), V: r.Intn(len(values))})
		}
		pv.Writers = append(pv.Writers, ops)
	}
}

// together for spans.
func (p *TPlan) together(r *simh.Rand) {
	p.Clients, p.RunMs = p.Clients[:1], 0
	if r.P(0.7) {
		p.Net = nil
	}
	for len(p.Provs) < 2 {
		p.Provs = append(p.Provs, p.Provs[0])
	}
	for i := range p.Provs {
		pv := &p.Provs[i]
		pv.Client, pv.Res, pv.BSP = 0, p.Provs[0].Res+i, false
		pv.Calls, pv.ShutMs = nil, 0
		if len(pv.Work) > 1 {
			pv.Work = pv.Work[:1]
		}
		ops := append([]SpanOp(nil), pv.Work[0]...)
		if len(ops) > 3 {
			ops = ops[:3]
		}
		for k := range ops {
			ops[k].Gap = 0
		}
		pv.Work = [][]SpanOp{ops}
	}
	p.Direct = nil
	for j := r.Range(2, 3); j > 0; j-- {
		p.Direct = append(p.Direct, []TCall{{N: r.Range(1, 4), Rev: r.P(0.3)}, {N: r.Range(1, 4)}}[:r.Range(1, 2)])
	}
}

func genT(self bool) func(r *simh.Rand) any {
	return func(r *simh.Rand) any {
		p := &TPlan{Self: self || r.P(0.1), RunMs: r.Range(0, 300), Opt: r.P(0.4)}
		for i := r.Range(1, 2); i > 0; i-- {
			p.Clients = append(p.Clients, genClient(r))
		}
		p.Net = genNet(r, 20000)
		kept := false
		for i := r.Range(1, 3); i > 0; i-- {
			pv := TProv{Client: r.Intn(len(p.Clients)), Res: r.Intn(len(resources)), BSP: r.P(0.55)}
			if pv.BSP {
				pv.Queue = r.Range(2, 40)
				pv.Batch = r.Range(1, pv.Queue)
				pv.WaitMs = r.Range(1, 60)
				if r.P(0.4) {
					pv.Calls = append(pv.Calls, genCalls(r, 3))
				}
				if r.P(0.2) {
					pv.ShutMs = r.Range(1, 200)
				}
			} else {
				kept = true
			}
			for j := r.Range(1, 2); j > 0; j-- {
				var ops []SpanOp
				for k := r.Range(1, 8); k > 0; k-- {
					op := SpanOp{Scope: r.Intn(len(scopes)), Kind: r.Intn(7), A: r.Intn(len(attrSets)), Status: r.Intn(3), Child: r.P(0.4), Dup: r.P(0.2), State: r.P(0.2)}
					if r.P(0.4) {
						op.Events = r.Range(1, 3)
					}
					if r.P(0.4) {
						op.Links = r.Range(1, 3)
					}
					if r.P(0.5) {
						op.Gap = r.Range(1, 10000)
					}
					ops = append(ops, op)
				}
				pv.Work = append(pv.Work, ops)
			}
			p.Provs = append(p.Provs, pv)
		}
		if kept {
			for j := r.Range(1, 3); j > 0; j-- {
				var cs []TCall
				for _, c := range genCalls(r, 5) {
					cs = append(cs, TCall{Call: c, Client: r.Intn(len(p.Clients)), N: r.Range(0, 8), Rev: r.P(0.3)})
				}
				p.Direct = append(p.Direct, cs)
			}
		}
		if r.P(0.005) { // more spans than a request carries
			p.Clients, p.Net, p.Provs = p.Clients[:1], nil, p.Provs[:1]
			c, pv := &p.Clients[0], &p.Provs[0]
			c.Size, c.Max, c.TimeMs, c.BatchMs = 0, 0, 0, 0
			pv.BSP, pv.ShutMs, pv.Client, pv.Calls = false, 0, 0, nil
			pv.Work = nil
			for i := r.Range(1, 3); i > 0; i-- {
				pv.Work = append(pv.Work, []SpanOp{{Scope: r.Intn(len(scopes)), A: r.Intn(len(attrSets)), N: r.Range(500, 1600)}})
			}
			p.Direct = [][]TCall{{{Call: Call{GapMs: 100}, N: r.Range(1000, 4000)}}}
			return p
		}
		if r.P(0.5) {
			p.together(r)
		}
		return p
	}
}

type both struct {
	M *MPlan `json:"m,omitempty"`
	T *TPlan `json:"t,omitempty"`
}

func init() {
	simh.Warm = func() {
		for i := int32(-20); i <= 25; i++ {
			_, _ = logarithm.NewMapping(i)
			_, _ = exponent.NewMapping(i)
		}
		// the first provider set is also given to the global delegates
		_ = otel.GetMeterProvider()
		otel.SetMeterProvider(noop.NewMeterProvider())
		otel.SetTracerProvider(tracenoop.NewTracerProvider())
		_ = context.Background()
	}
	const cap, tm = 3000000, 30 * time.Minute
	newM := func() any { return &MPlan{} }
	newT := func() any { return &TPlan{} }
	simh.Register(&simh.Prop{ID: "C13", New: newM, Gen: genM(false, false), Run: func(e *simh.Env, p any) { runMetrics(e, p.(*MPlan)) }, Cap: cap, Time: tm, Stall: 5 * time.Millisecond})
	simh.Register(&simh.Prop{ID: "C14", New: newT, Gen: genT(false), Run: func(e *simh.Env, p any) { runTraces(e, p.(*TPlan)) }, Cap: cap, Time: tm, Stall: 5 * time.Millisecond})
	simh.Register(&simh.Prop{ID: "C21", New: newM, Gen: genM(true, false), Run: func(e *simh.Env, p any) { runMetrics(e, p.(*MPlan)) }, Cap: cap, Time: tm, Stall: 5 * time.Millisecond})
	simh.Register(&simh.Prop{ID: "C19", New: func() any { return &LPlan{} }, Gen: genL, Run: func(e *simh.Env, p any) { runLauncher(e, p.(*LPlan)) }, Cap: cap, Time: tm, Stall: 5 * time.Millisecond})
	simh.Register(&simh.Prop{ID: "C22", New: func() any { return &LPlan{} }, Gen: genCfg, Run: func(e *simh.Env, p any) { runLauncher(e, p.(*LPlan)) }, Cap: cap, Time: tm, Stall: 5 * time.Millisecond})
	simh.Register(&simh.Prop{ID: "C16", New: func() any { return &both{} }, Gen: func(r *simh.Rand) any {
		if r.Bool() {
			return &both{M: genM(r.P(0.2), true)(r).(*MPlan)}
		}
		return &both{T: genT(true)(r).(*TPlan)}
	}, Run: func(e *simh.Env, p any) {
		b := p.(*both)
		if b.M != nil {
			runMetrics(e, b.M)
		}
		if b.T != nil {
			runTraces(e, b.T)
		}
	}, Cap: cap, Time: tm, Stall: 5 * time.Millisecond})
}
