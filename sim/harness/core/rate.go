package core

import (
	"context"
	"errors"
	"math"
	"strings"
	"time"

	"go.opentelemetry.io/otel/attribute"
	api "go.opentelemetry.io/otel/metric"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// RatePlan is a run of C15.
type RatePlan struct {
	Direct bool       `json:"direct"` // the rate limiter itself; else the SDK's reports
	Slow   []int      `json:"slow"`   // ms the n-th reporting call takes
	Nest   bool       `json:"nest,omitempty"`
	Actors [][]RateOp `json:"actors"`
}

// RateOp is a call: an invalid measurement, or a use of the limiter.
type RateOp struct {
	Gap  int `json:"gap,omitempty"` // ms
	Site int `json:"site"`
	Dur  int `json:"dur,omitempty"` // ms
	K    int `json:"k,omitempty"`
}

type rateCall struct {
	site       int
	dur        time.Duration
	start, end time.Duration
	st0, st1   time.Duration
	at         time.Duration // f began; -1: not called
	n          int           // times called
	open       bool
	busy       time.Duration // time spent in f
}

type rateWorld struct {
	e     *simh.Env
	p     *RatePlan
	calls []*rateCall
	cur   map[int][]*rateCall // per goroutine
	nrep  int
	nest  func()
}

// begin and finish bracket a call.
func (w *rateWorld) begin(site int, dur time.Duration) *rateCall {
	c := &rateCall{site: site, dur: dur, at: -1, open: true}
	w.calls = append(w.calls, c)
	g := simrt.Self()
	w.cur[g] = append(w.cur[g], c)
	simrt.Y(0)
	c.start, c.st0 = simrt.Elapsed(), stallTime()
	return c
}

func (w *rateWorld) finish(c *rateCall) {
	c.end, c.st1 = simrt.Elapsed(), stallTime()
	c.open = false
	g := simrt.Self()
	w.cur[g] = w.cur[g][:len(w.cur[g])-1]
	if c.at < 0 && c.end-c.start > c.st1-c.st0 {
		w.e.Fail("rate-block", "a call at site %d that reported nothing took %v (%v of it stalls)", c.site, c.end-c.start, c.st1-c.st0)
	}
	if c.at >= 0 && c.end-c.start-c.busy > c.st1-c.st0 {
		w.e.Fail("rate-block", "a reporting call at site %d took %v besides its report (%v stalls)", c.site, c.end-c.start-c.busy, c.st1-c.st0)
	}
}

// report is the body of f.
func (w *rateWorld) report(site int) {
	now := simrt.Elapsed()
	g := simrt.Self()
	st := w.cur[g]
	if len(st) == 0 || st[len(st)-1].site != site {
		w.e.Fail("rate-foreign", "a report for site %d outside of a call at that site", site)
		return
	}
	c := st[len(st)-1]
	if c.n++; c.n > 1 {
		w.e.Fail("rate-twice", "one call at site %d reported %d times", site, c.n)
	}
	c.at = now
	w.e.Count("report")
	if w.nrep < len(w.p.Slow) && w.p.Slow[w.nrep] > 0 {
		d := time.Duration(w.p.Slow[w.nrep]) * time.Millisecond
		w.nrep++
		w.e.Count("fault_slow_handler")
		simrt.Sleep(d)
	} else {
		w.nrep++
	}
	if w.p.Nest && w.nest != nil && len(st) < 3 {
		w.e.Count("reentrant")
		w.nest()
	}
	c.busy += simrt.Elapsed() - now
}

func (w *rateWorld) check() {
	for i, c := range w.calls {
		if c.open {
			w.e.Fail("rate-open", "a call at site %d never returned", c.site)
		}
		if c.at >= 0 {
			// The decision lies between the start of the call and that of f.
			for _, d := range w.calls[:i] {
				if d.site != c.site || d.at < 0 {
					continue
				}
				if c.at-d.start < c.dur && d.at-c.start < d.dur {
					w.e.Fail("rate-exceeded", "site %d reported at %v and again at %v, within %v", c.site, d.at, c.at, c.dur)
				}
			}
			continue
		}
		ok := false
		for _, d := range w.calls {
			if d.site == c.site && d.at >= 0 && d != c && d.start <= c.end && d.at >= c.start-c.dur {
				ok = true
				break
			}
		}
		if !ok {
			w.e.Fail("rate-silent", "the call at site %d at %v reported nothing, although nothing was reported there within the last %v", c.site, c.start, c.dur)
		}
	}
}

const nSites = 6

func runRate(e *simh.Env, p *RatePlan) {
	w := &rateWorld{e: e, p: p, cur: map[int][]*rateCall{}}
	var act func(o RateOp)
	if p.Direct {
		e.Count("direct")
		act = func(o RateOp) {
			s := o.Site % nSites
			c := w.begin(s, time.Duration(o.Dur)*time.Millisecond)
			siteFns[s](c.dur, func() { w.report(s) })
			w.finish(c)
		}
		w.nest = func() { act(RateOp{Site: w.nrep, Dur: 500}) }
	} else {
		e.Count("sdk")
		handled = func(err error) {
			switch {
			case errors.Is(err, aggregator.ErrNaNInput):
				w.report(0)
			case errors.Is(err, aggregator.ErrInfInput):
				w.report(1)
			case errors.Is(err, aggregator.ErrNegativeInput):
				w.report(2)
			case strings.Contains(err.Error(), "empty attribute key"):
				w.report(3)
			default:
				e.Fail("rate-unknown", "unexpected report: %v", err)
			}
		}
		rd := sdk.NewManualReader("r")
		mp := sdk.NewMeterProvider(sdk.WithReader(rd))
		m := mp.Meter("m")
		fc, _ := m.Float64Counter("fc")
		fh, _ := m.Float64Histogram("fh")
		fu, _ := m.Float64UpDownCounter("fu")
		ic, _ := m.Int64Counter("ic")
		fg, _ := m.Float64Gauge("fg")
		ctx := context.Background()
		nkey := 0
		act = func(o RateOp) {
			s := o.Site % 4
			d := 30 * time.Second
			kv := api.WithAttributes(attribute.Int("A", o.K%3))
			v := math.NaN()
			switch s {
			case 1:
				v = math.Inf(1 - 2*(o.K%2))
			case 2:
				v = -1
			case 3:
				// Names are looked at when a series is new.
				v, d = 1, time.Minute
				nkey++
				kv = api.WithAttributes(attribute.Int("", nkey), attribute.Int("A", nkey))
			}
			c := w.begin(s, d)
			switch {
			case s == 2 && o.K%2 == 0:
				ic.Add(ctx, -1, kv)
			case s == 2 || o.K%4 == 0:
				fc.Add(ctx, v, kv)
			case o.K%4 == 1:
				fh.Record(ctx, v, kv)
			case o.K%4 == 2:
				fu.Add(ctx, v, kv)
			default:
				fg.Record(ctx, v, kv)
			}
			w.finish(c)
		}
		w.nest = func() { act(RateOp{Site: w.nrep % 3, K: 2}) }
		defer func() {
			handled = nil
			_ = mp.Shutdown(ctx)
		}()
	}
	var hs []*simrt.Handle
	for _, ops := range p.Actors {
		ops := ops
		hs = append(hs, simrt.Go("caller", func() {
			for _, o := range ops {
				if o.Gap > 0 {
					simrt.Sleep(time.Duration(o.Gap) * time.Millisecond)
				}
				act(o)
			}
		}))
	}
	for _, h := range hs {
		simrt.Join(h)
	}
	w.check()
}

func genRate(r *simh.Rand) any {
	p := &RatePlan{Direct: r.P(0.6), Nest: r.P(0.2)}
	base := 30000
	if p.Direct {
		base = []int{10, 100, 1000}[r.Intn(3)]
	}
	if r.P(0.5) {
		for i := r.Range(1, 6); i > 0; i-- {
			p.Slow = append(p.Slow, []int{0, 1, base / 3, base * 2}[r.Intn(4)])
		}
	}
	nsite := r.Range(1, nSites)
	gaps := []int{0, 0, 1, base / 3, base / 2, base - 1, base, base + 1, base * 2, base*2 + 1}
	for n := r.Range(1, 4); n > 0; n-- {
		var ops []RateOp
		for k := r.Range(1, 8); k > 0; k-- {
			o := RateOp{Site: r.Intn(nsite), K: r.Intn(8)}
			if r.P(0.6) {
				o.Gap = gaps[r.Intn(len(gaps))]
			}
			if p.Direct {
				o.Dur = base
				if r.P(0.2) {
					o.Dur = base * 2
				}
			}
			ops = append(ops, o)
		}
		p.Actors = append(p.Actors, ops)
	}
	return p
}

func init() {
	simh.Register(&simh.Prop{ID: "C15", New: func() any { return &RatePlan{} }, Gen: genRate, Cap: 4000000, Time: 24 * time.Hour, Stall: 400 * time.Millisecond,
		Run: func(e *simh.Env, p any) { runRate(e, p.(*RatePlan)) }})
}

var siteFns [nSites]func(time.Duration, func())
