package core

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"

	"go.opentelemetry.io/otel/attribute"
	api "go.opentelemetry.io/otel/metric"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// AIPlan is an asynchronous instrument.
type AIPlan struct {
	Kind  int `json:"kind"` // 0/1 counter 2/3 updown 4/5 gauge (int/float)
	Meter int `json:"meter"`
}

// CbPlan is a callback.
type CbPlan struct {
	Insts []int   `json:"insts"` // declared instruments
	Obs   []ObsOp `json:"obs"`
	Late  bool    `json:"late,omitempty"`  // its observer is also used after it returned
	Init  bool    `json:"init,omitempty"`  // registered before anything else starts
	Ctor  bool    `json:"ctor,omitempty"`  // passed to the instrument constructor (first instrument)
	Err   bool    `json:"err,omitempty"`   // returns an error
	Wrap  bool    `json:"wrap,omitempty"`  // its instruments are given wrapped, as by the global provider
	Refus int     `json:"refus,omitempty"` // preceded by a registration that has to be refused: 1 no instruments 2 no function 3 another SDK's instrument 4 another meter's
	Alien bool    `json:"alien,omitempty"` // also observes another SDK's instruments
	Re    int     `json:"re,omitempty"`    // uses its own meter: 1 creates its instrument again 2 unregisters itself 3 registers another callback
}

// ObsOp is one observation inside a callback.
type ObsOp struct {
	I   int  `json:"i"`
	A   int  `json:"a"`
	Bad int  `json:"bad,omitempty"`
	Nth int  `json:"nth,omitempty"` // only in every nth invocation
	Rep bool `json:"rep,omitempty"` // the value stays the same for two invocations
}

// CbOp is a registration change.
type CbOp struct {
	Cb   int `json:"cb"`
	What int `json:"what"` // 0 register 1 unregister
	Gap  int `json:"gap,omitempty"`
}

// wrapI and wrapF are wrapped instruments, alienI and alienF those of another
// SDK.
type wrapI struct {
	api.Int64Observable
	in api.Observable
}

func (x wrapI) Unwrap() api.Observable { return x.in }

type wrapF struct {
	api.Float64Observable
	in api.Observable
}

func (x wrapF) Unwrap() api.Observable { return x.in }

type alienI struct{ api.Int64Observable }
type alienF struct{ api.Float64Observable }

func (a *ainst) obsI(wrap bool) api.Int64Observable {
	if wrap {
		return wrapI{in: a.i64}
	}
	return a.i64
}

func (a *ainst) obsF(wrap bool) api.Float64Observable {
	if wrap {
		return wrapF{in: a.f64}
	}
	return a.f64
}

func (a *ainst) observable(wrap bool) api.Observable {
	if a.isInt {
		return a.obsI(wrap)
	}
	return a.obsF(wrap)
}

type ainst struct {
	idx   int
	p     AIPlan
	name  string
	isInt bool
	i64   api.Int64Observable
	f64   api.Float64Observable
	prev  map[int]float64
	mul   int64
	exp   int
}

func (a *ainst) int(v float64) int64     { return int64(v) * a.mul }
func (a *ainst) float(v float64) float64 { return math.Ldexp(v, a.exp) }

func (a *ainst) toF(n number.Number) float64 { return unscale(n, a.isInt, a.mul, a.exp) }

type obsRec struct {
	in  *ainst
	set attribute.Set
	val float64
}

type inv struct {
	cb         *cback
	c          *coll
	begin, end int64
	obs        []obsRec
	err        error
}

type regRec struct {
	start, end     int64
	ustart, uend   int64
	reg            api.Registration
	uns            []error
	cb             *cback
	n              int // order of registration calls
	unregs, unoks  int
	failedReg      bool
	lastInvocation *inv
}

type cback struct {
	idx  int
	p    CbPlan
	regs []*regRec
	n    int
}

type asyncWorld struct {
	insts  []*ainst
	cbs    []*cback
	invs   []*inv
	val    float64
	curOf  map[int]*coll
	specs  map[string]*aspec // per reader index + output key
	obsErr int
}

type aspec struct {
	in    *ainst
	keys  int
	delta bool
	drop  bool
}

func (a *ainst) ikind() sdkinstrument.Kind {
	switch a.p.Kind / 2 {
	case 0:
		return sdkinstrument.AsyncCounter
	case 1:
		return sdkinstrument.AsyncUpDownCounter
	}
	return sdkinstrument.AsyncGauge
}

func (a *ainst) gauge() bool { return a.p.Kind/2 == 2 }

func (w *world) ameter(a *ainst) api.Meter { return w.meters[a.p.Meter%w.p.Meters] }

func (w *world) akey(a *ainst) string {
	return fmt.Sprintf("m%d/%s", a.p.Meter%w.p.Meters, a.name)
}

// asyncOpts declares the outputs of the asynchronous instruments; called
// while readers are being configured.
func (w *world) asyncInit() {
	w.a = &asyncWorld{curOf: map[int]*coll{}, specs: map[string]*aspec{}}
	for i, p := range w.p.Async {
		a := &ainst{idx: i, p: p, name: fmt.Sprintf("a%d", i), isInt: p.Kind%2 == 0, prev: map[int]float64{}, mul: 1}
		if w.p.Big {
			a.mul, a.exp = 1<<49+1, -30
		}
		w.a.insts = append(w.a.insts, a)
	}
	for i, p := range w.p.Cbs {
		w.a.cbs = append(w.a.cbs, &cback{idx: i, p: p})
	}
}

func (w *world) asyncCreate() {
	for _, a := range w.a.insts {
		m := w.ameter(a)
		var io []api.Int64Callback
		var fo []api.Float64Callback
		for _, cb := range w.a.cbs {
			if cb.p.Ctor && len(cb.p.Insts) > 0 && cb.p.Insts[0] == a.idx {
				cb := cb
				cb.p.Insts = cb.p.Insts[:1]
				a := a
				cb.regs = append(cb.regs, &regRec{cb: cb, start: simrt.Seq()})
				io = append(io, func(ctx context.Context, o api.Int64Observer) error {
					return w.runCb(cb, func(in *ainst, v float64, opt api.ObserveOption) {
						if in == a {
							o.Observe(in.int(v), opt)
						}
					})
				})
				fo = append(fo, func(ctx context.Context, o api.Float64Observer) error {
					return w.runCb(cb, func(in *ainst, v float64, opt api.ObserveOption) {
						if in == a {
							o.Observe(in.float(v), opt)
						}
					})
				})
			}
		}
		switch a.p.Kind {
		case 0:
			var os []api.Int64ObservableCounterOption
			for _, f := range io {
				os = append(os, api.WithInt64Callback(f))
			}
			a.i64, _ = m.Int64ObservableCounter(a.name, os...)
		case 1:
			var os []api.Float64ObservableCounterOption
			for _, f := range fo {
				os = append(os, api.WithFloat64Callback(f))
			}
			a.f64, _ = m.Float64ObservableCounter(a.name, os...)
		case 2:
			var os []api.Int64ObservableUpDownCounterOption
			for _, f := range io {
				os = append(os, api.WithInt64Callback(f))
			}
			a.i64, _ = m.Int64ObservableUpDownCounter(a.name, os...)
		case 3:
			var os []api.Float64ObservableUpDownCounterOption
			for _, f := range fo {
				os = append(os, api.WithFloat64Callback(f))
			}
			a.f64, _ = m.Float64ObservableUpDownCounter(a.name, os...)
		case 4:
			var os []api.Int64ObservableGaugeOption
			for _, f := range io {
				os = append(os, api.WithInt64Callback(f))
			}
			a.i64, _ = m.Int64ObservableGauge(a.name, os...)
		case 5:
			var os []api.Float64ObservableGaugeOption
			for _, f := range fo {
				os = append(os, api.WithFloat64Callback(f))
			}
			a.f64, _ = m.Float64ObservableGauge(a.name, os...)
		}
	}
	w.acreated = true
	for _, cb := range w.a.cbs {
		if cb.p.Ctor {
			for _, reg := range cb.regs {
				reg.end = simrt.Seq()
			}
		}
		if cb.p.Init && !cb.p.Ctor {
			w.register(cb)
		}
	}
}

func (w *world) register(cb *cback) {
	if cb.p.Ctor || len(cb.p.Insts) == 0 {
		return
	}
	var obs []api.Observable
	meter := -1
	declared := map[*ainst]bool{}
	for _, i := range cb.p.Insts {
		if i < 0 || i >= len(w.a.insts) {
			continue
		}
		a := w.a.insts[i]
		m := a.p.Meter % w.p.Meters
		if meter < 0 {
			meter = m
		}
		if m != meter {
			continue
		}
		declared[a] = true
		obs = append(obs, a.observable(cb.p.Wrap))
	}
	if len(obs) == 0 {
		return
	}
	if cb.p.Refus > 0 {
		w.refused(cb, meter, obs)
	}
	reg := &regRec{cb: cb, start: simrt.Seq()}
	cb.regs = append(cb.regs, reg)
	var err error
	reg.reg, err = w.meters[meter].RegisterCallback(func(ctx context.Context, o api.Observer) error {
		return w.runReg(reg, func(in *ainst, v float64, opt api.ObserveOption) {
			if in.isInt {
				o.ObserveInt64(in.obsI(cb.p.Wrap), in.int(v), opt)
			} else {
				o.ObserveFloat64(in.obsF(cb.p.Wrap), in.float(v), opt)
			}
			if cb.p.Alien {
				w.e.Count("alien_observation")
				o.ObserveInt64(alienI{}, 77, opt)
				o.ObserveFloat64(alienF{}, 77, opt)
			}
		}, declared)
	}, obs...)
	if err != nil {
		w.e.Fail("register", "RegisterCallback failed: %v", err)
	}
	reg.end = simrt.Seq()
}

// refused tries a registration that makes no sense.
func (w *world) refused(cb *cback, meter int, obs []api.Observable) {
	f := func(context.Context, api.Observer) error {
		w.e.Fail("register", "a callback whose registration was refused (%d) runs", cb.p.Refus)
		return nil
	}
	what := "no instruments"
	switch cb.p.Refus {
	case 1:
		obs = nil
	case 2:
		f, what = nil, "no function"
	case 3:
		obs, what = append(append([]api.Observable(nil), obs...), alienI{}), "an instrument of another SDK"
	case 4:
		for _, a := range w.a.insts {
			if a.p.Meter%w.p.Meters != meter {
				obs, what = append(append([]api.Observable(nil), obs...), a.observable(cb.p.Wrap)), "an instrument of another meter"
			}
		}
		if what == "no instruments" {
			return
		}
	}
	w.e.Count("refused_registration")
	if _, err := w.meters[meter].RegisterCallback(f, obs...); err == nil {
		w.e.Fail("register", "RegisterCallback with %s succeeded", what)
	}
}

func (w *world) unregister(cb *cback) {
	if len(cb.regs) == 0 || cb.p.Ctor {
		return
	}
	reg := cb.regs[len(cb.regs)-1]
	if reg.reg == nil {
		return
	}
	reg.unregs++
	if reg.ustart == 0 {
		reg.ustart = simrt.Seq()
	}
	err := reg.reg.Unregister()
	if err == nil {
		reg.unoks++
		reg.uend = simrt.Seq()
		if reg.unoks > 1 {
			w.e.Fail("unregister", "Unregister of one registration succeeded twice")
		}
	} else if !errors.Is(err, sdk.ErrAlreadyUnregistered) {
		w.e.Fail("unregister", "Unregister failed: %v", err)
	} else if reg.unregs == 1 {
		w.e.Fail("unregister", "the only Unregister call of a registration reported %v", err)
	}
}

func (w *world) runCb(cb *cback, observe func(*ainst, float64, api.ObserveOption)) error {
	return w.runReg(cb.regs[0], observe, map[*ainst]bool{w.a.insts[cb.p.Insts[0]]: true})
}

// reenter uses the meter from inside a callback.
func (w *world) reenter(reg *regRec, n int) {
	cb := reg.cb
	if cb.p.Re == 0 || n > 3 || len(cb.p.Insts) == 0 || cb.p.Insts[0] < 0 || cb.p.Insts[0] >= len(w.a.insts) {
		return
	}
	a := w.a.insts[cb.p.Insts[0]]
	w.e.Count("callback_uses_meter")
	switch cb.p.Re {
	case 1:
		m := w.ameter(a)
		var err error
		switch a.p.Kind {
		case 0:
			_, err = m.Int64ObservableCounter(a.name)
		case 1:
			_, err = m.Float64ObservableCounter(a.name)
		case 2:
			_, err = m.Int64ObservableUpDownCounter(a.name)
		case 3:
			_, err = m.Float64ObservableUpDownCounter(a.name)
		case 4:
			_, err = m.Int64ObservableGauge(a.name)
		case 5:
			_, err = m.Float64ObservableGauge(a.name)
		}
		if err != nil {
			w.e.Fail("create", "creating instrument %s again inside a callback failed: %v", a.name, err)
		}
	case 2:
		if n == 2 {
			w.unregister(cb)
		}
	case 3:
		o := w.a.cbs[(cb.idx+1)%len(w.a.cbs)]
		if n == 1 && w.acreated && (len(o.regs) == 0 || o.regs[len(o.regs)-1].uend != 0) {
			w.register(o)
		}
	}
}

// runReg is the body of every callback.
func (w *world) runReg(reg *regRec, observe func(*ainst, float64, api.ObserveOption), declared map[*ainst]bool) error {
	cb := reg.cb
	v := &inv{cb: cb, begin: simrt.Seq(), c: w.a.curOf[simrt.Self()]}
	reg.lastInvocation = v
	if v.c == nil {
		w.e.Fail("callback", "callback %d runs outside a collection", cb.idx)
	}
	w.a.invs = append(w.a.invs, v)
	v.c.runs = append(v.c.runs, reg)
	cb.n++
	n := cb.n
	simrt.Y(0)
	w.reenter(reg, n)
	for _, ob := range cb.p.Obs {
		if ob.I < 0 || ob.I >= len(w.a.insts) || ob.A < 0 || ob.A >= len(w.p.Attrs) {
			continue
		}
		if ob.Nth > 1 && n%ob.Nth != 0 {
			continue
		}
		in := w.a.insts[ob.I]
		kvs := w.p.Attrs[ob.A].attrs()
		w.a.val++
		if w.a.val > 2000 {
			w.a.val = 1000 // sums of large integers stay in range
		}
		val := w.a.val
		if ob.Rep && n%2 == 1 {
			if pv, ok := in.prev[ob.A]; ok {
				val = pv
			}
		}
		in.prev[ob.A] = val
		if in.p.Kind/2 > 0 && ob.A%2 == 1 {
			val = -val
		}
		valid := true
		if ob.Bad != 0 {
			switch {
			case !in.isInt && ob.Bad == 1:
				val, valid = math.NaN(), false
			case !in.isInt && ob.Bad == 2:
				val, valid = math.Inf(1), false
			default:
				val = -val // any finite value is accepted
			}
			if !valid {
				w.e.Count("invalid_observation")
			}
		}
		if !declared[in] {
			valid = false
			w.e.Count("undeclared_observation")
		}
		if valid {
			v.obs = append(v.obs, obsRec{in: in, set: w.model(kvs, 0, 0), val: val})
		}
		observe(in, val, api.WithAttributes(kvs...))
	}
	if cb.p.Late && n <= 3 {
		w.e.Count("late_observation")
		simrt.Go("late", func() {
			// the callback has certainly returned when the collection is
			// over or has moved on to another callback
			over := func() bool {
				for _, o := range w.a.invs {
					if o.c == v.c && o.begin > v.begin {
						return true
					}
				}
				return v.c.end != 0
			}
			for !over() {
				sleepUs(2)
			}
			for in := range declared {
				observe(in, 1e6, api.WithAttributes(attribute.Bool("late", true)))
			}
		})
	}
	simrt.Y(0)
	if cb.p.Err {
		v.end = simrt.Seq()
		v.err = fmt.Errorf("injected error of callback %d, invocation %d", cb.idx, n)
		w.e.Count("callback_error")
		return v.err
	}
	v.end = simrt.Seq()
	return nil
}

func (w *world) cbActor(ops []CbOp) {
	for _, op := range ops {
		sleepUs(op.Gap)
		if op.Cb < 0 || op.Cb >= len(w.a.cbs) {
			continue
		}
		cb := w.a.cbs[op.Cb]
		if op.What == 0 {
			// one registration per callback plan at a time
			if len(cb.regs) == 0 || cb.regs[len(cb.regs)-1].uend != 0 {
				w.e.Count("register")
				w.register(cb)
			}
		} else {
			w.e.Count("unregister")
			w.unregister(cb)
		}
	}
}

// asyncCheck verifies the whole history.
func (w *world) asyncCheck(errs []error) {
	for _, v := range w.a.invs {
		if v.err == nil || v.c.end == 0 {
			continue
		}
		told := false
		for _, h := range errs {
			told = told || errors.Is(h, v.err)
		}
		if !told {
			w.e.Fail("callback-error", "reader %d collection %d: callback %d returned %q, the error handler was not told", v.c.r.idx, v.c.n, v.cb.idx, v.err)
		}
	}
	for _, r := range w.readers {
		colls := append([]*coll(nil), r.colls...)
		for _, c := range colls {
			w.asyncRuns(c)
		}
		// collections of a reader, in the order they observed
		clean := true
		for _, c := range colls {
			c.first = 0
			for _, v := range w.a.invs {
				if v.c == c && (c.first == 0 || v.begin < c.first) {
					c.first = v.begin
				}
			}
			if c.overlap && c.first == 0 {
				clean = false
			}
		}
		sort.SliceStable(colls, func(i, j int) bool {
			a, b := colls[i], colls[j]
			x, y := a.first, b.first
			if x == 0 {
				x = a.begin
			}
			if y == 0 {
				y = b.begin
			}
			return x < y
		})
		for key, sp := range r.aouts {
			prev := map[string]float64{}
			seen := map[string]bool{}
			for _, c := range colls {
				if c.end == 0 {
					continue
				}
				want, alts := w.expected(c, sp)
				w.asyncColl(c, key, sp, want, alts, prev, seen, clean)
				for k := range want {
					seen[k] = true
				}
				prev = want
			}
		}
	}
}

// asyncLimits: an asynchronous instrument obeys the aggregator limit too, and
// a cumulative sum still adds up to what was observed when series overflow.
func (w *world) asyncLimits() {
	if w.a == nil || w.p.ACard == 0 {
		return
	}
	for _, r := range w.readers {
		for _, c := range r.colls {
			if c.end == 0 {
				continue
			}
			for key, sp := range r.aouts {
				pts := c.aout[key]
				if len(pts) > w.p.ACard {
					w.e.Fail("cardinality", "reader %d collection %d: %s has %d series, the aggregator limit is %d", r.idx, c.n, key, len(pts), w.p.ACard)
				}
				want, _ := w.expected(c, sp)
				if pts[overflowKey] != nil {
					w.e.Count("async_overflow_series")
					if len(want) < w.p.ACard {
						w.e.Fail("overflow-early", "reader %d collection %d: %s has an overflow series with %d sets observed (aggregator limit %d)", r.idx, c.n, key, len(want), w.p.ACard)
					}
				}
				if sp.delta || sp.in.gauge() {
					continue
				}
				var got, exp float64
				for _, pv := range pts {
					got += pv.raw
				}
				for _, v := range want {
					exp += v
				}
				if got != exp {
					w.e.Fail("async-overflow", "reader %d collection %d: the series of %s add up to %v, observed %v", r.idx, c.n, key, got, exp)
				}
				for sk, pv := range pts {
					if v, ok := want[sk]; sk != overflowKey && (!ok || v != pv.raw) {
						w.e.Fail("async-overflow", "reader %d collection %d: %s %s reports %v, observed %v (%v)", r.idx, c.n, key, sk, pv.raw, v, ok)
					}
				}
			}
		}
	}
}

// expected is what the callbacks of a collection observed, per series.
func (w *world) expected(c *coll, sp *aspec) (map[string]float64, map[string][]float64) {
	type last struct {
		set attribute.Set
		val float64
	}
	acc := map[string]last{}
	for _, v := range w.a.invs {
		if v.c != c {
			continue
		}
		for _, o := range v.obs {
			if o.in == sp.in {
				acc[setKey(o.set)] = last{o.set, o.val}
			}
		}
	}
	want := map[string]float64{}
	alts := map[string][]float64{}
	for _, l := range acc {
		sk := setKey(filter(l.set, sp.keys))
		want[sk] += l.val
		alts[sk] = append(alts[sk], l.val)
	}
	return want, alts
}

func (w *world) asyncRuns(c *coll) {
	n := map[*regRec]int{}
	for _, reg := range c.runs {
		n[reg]++
	}
	for _, cb := range w.a.cbs {
		for ri, reg := range cb.regs {
			k := n[reg]
			name := fmt.Sprintf("reader %d collection %d: callback %d (registration %d)", c.r.idx, c.n, cb.idx, ri)
			if k > 1 {
				w.e.Fail("callback-twice", "%s ran %d times", name, k)
			}
			if k == 1 && reg.uend != 0 && reg.uend < c.begin {
				w.e.Fail("callback-unregistered", "%s ran although it was unregistered before the collection began", name)
			}
			if k == 0 && c.end != 0 && reg.end != 0 && reg.end < c.begin && (reg.ustart == 0 || reg.ustart > c.end) {
				w.e.Fail("callback-skipped", "%s did not run although it was registered throughout", name)
			}
		}
	}
}

func (w *world) asyncColl(c *coll, key string, sp *aspec, want map[string]float64, alts map[string][]float64, prev map[string]float64, seen map[string]bool, clean bool) {
	got := c.aout[key]
	where := fmt.Sprintf("reader %d collection %d %s", c.r.idx, c.n, key)
	for sk := range got {
		if _, ok := want[sk]; !ok {
			w.e.Fail("async-series", "%s: series %s (value %v) was not observed in this collection", where, sk, got[sk].raw)
		}
	}
	for sk, v := range want {
		pv := got[sk]
		if sp.in.gauge() {
			ok := pv != nil
			if ok {
				ok = false
				for _, x := range alts[sk] {
					if x == pv.raw {
						ok = true
					}
				}
			}
			if !ok {
				w.e.Fail("async-value", "%s %s: gauge reports %v, observed %v", where, sk, rawOf(pv), alts[sk])
			}
			continue
		}
		if !sp.delta {
			if pv == nil || pv.raw != v {
				w.e.Fail("async-value", "%s %s: reports %v, observed %v", where, sk, rawOf(pv), v)
			}
			continue
		}
		if !clean {
			continue
		}
		p, had := prev[sk]
		d := v - p
		switch {
		case had && d == 0:
			if pv != nil && pv.raw != 0 {
				w.e.Fail("async-value", "%s %s: delta %v, but the observed value did not change (%v)", where, sk, pv.raw, v)
			}
		case !had && seen[sk]:
			// reappearing series: the SDK documents that it may forget it
		default:
			if pv == nil || pv.raw != d {
				w.e.Fail("async-value", "%s %s: delta %v, observed %v, previous collection observed %v (present: %v)", where, sk, rawOf(pv), v, p, had)
			}
		}
	}
}

func rawOf(p *pointVal) any {
	if p == nil {
		return "nothing"
	}
	return p.raw
}

func (w *world) parseAsync(c *coll, key string, sp *aspec, sk string, agg aggregation.Aggregation) *pointVal {
	pv := &pointVal{}
	switch a := agg.(type) {
	case aggregation.Gauge:
		if !sp.in.gauge() {
			w.e.Fail("shape", "reader %d %s: unexpected gauge", c.r.idx, key)
		}
		pv.raw = sp.in.toF(a.Gauge())
	case aggregation.Sum:
		if sp.in.gauge() {
			w.e.Fail("shape", "reader %d %s: unexpected sum", c.r.idx, key)
		}
		pv.raw = sp.in.toF(a.Sum())
	default:
		w.e.Fail("shape", "reader %d %s: unexpected %T", c.r.idx, key, agg)
	}
	return pv
}
