package core

import (
	"context"
	"errors"
	"time"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	api "go.opentelemetry.io/otel/metric"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// handler receives what the SDK reports to the global error handler.
var handled func(err error)

func init() {
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) {
		if err == nil {
			panic("the error handler was given a nil error")
		}
		if handled != nil {
			handled(err)
		}
	}))
}

type clientKey struct{}

// clientCall is one ForceFlush or Shutdown call of the application.
type clientCall struct {
	f          Flush
	id         int
	begin, end int64
	bt, et     time.Duration
	st0        time.Duration
	stall      time.Duration // injected while the call was in progress
	ctxEnd     time.Duration // when the context ends; 0: never
	err        error
}

func stallTime() time.Duration { return simrt.Snapshot().StallTime }

func (w *world) client(f Flush) *clientCall {
	c := &clientCall{f: f, id: len(w.calls) + 1}
	w.calls = append(w.calls, c)
	ctx := context.WithValue(w.ctx, clientKey{}, c.id)
	var cancel context.CancelFunc = func() {}
	if f.TimeoutUs > 0 {
		ctx, cancel = context.WithTimeout(ctx, time.Duration(f.TimeoutUs)*time.Microsecond)
		c.ctxEnd = simrt.Elapsed() + time.Duration(f.TimeoutUs)*time.Microsecond
		w.e.Count("deadline")
	} else if f.Canceled {
		ctx, cancel = context.WithCancel(ctx)
		cancel()
		c.ctxEnd = simrt.Elapsed() + 1 // 0 means none
		w.e.Count("canceled_call")
	}
	simrt.Y(0)
	c.begin, c.bt = simrt.Seq(), simrt.Elapsed()
	c.st0 = stallTime()
	if f.What == 1 {
		w.shut = true
		c.err = w.mp.Shutdown(ctx)
	} else {
		w.e.Count("force_flush")
		c.err = w.mp.ForceFlush(ctx)
	}
	c.end, c.et = simrt.Seq(), simrt.Elapsed()
	c.stall = stallTime() - c.st0
	cancel()
	return c
}

func (r *reader) obedient() bool {
	for _, f := range r.p.Exports {
		if f.SleepUs > 0 && !f.Obey {
			return false
		}
	}
	return true
}

// runLife: an application with push readers, flushed and shut down at any
// time, over faulty exporters.
func runLife(e *simh.Env, p *Plan, timing bool) {
	var errs []error
	handled = func(err error) { errs = append(errs, err) }
	defer func() { handled = nil }()
	w := newWorld(e, p)
	w.onColl = func(c *coll) { w.conserve(c) }
	// instruments obtained after Shutdown do nothing: get them first
	for _, in := range w.insts {
		in.shared = w.lookup(in)
	}
	w.nonew = true
	recs := w.assign()
	var hs []*simrt.Handle
	for wi := range p.Workers {
		wi := wi
		hs = append(hs, simrt.Go("writer", func() {
			for oi, op := range p.Workers[wi] {
				rec := recs[[2]int{wi, oi}]
				if rec == nil {
					continue
				}
				sleepUs(op.Gap)
				w.do(op, rec)
			}
		}))
	}
	for _, r := range w.readers {
		r := r
		if r.man == nil {
			continue
		}
		for _, gaps := range r.p.Collectors {
			gaps := gaps
			hs = append(hs, simrt.Go("collector", func() { w.collector(r, gaps) }))
		}
	}
	for _, fl := range p.Flushers {
		fl := fl
		hs = append(hs, simrt.Go("client", func() {
			for _, f := range fl {
				sleepUs(f.Gap)
				w.client(f)
			}
		}))
	}
	if p.RunUs > 0 {
		sleepUs(p.RunUs)
		w.client(Flush{What: 1})
	}
	for _, h := range hs {
		simrt.Join(h)
	}
	w.client(Flush{What: 1})
	// the provider is shut down: nothing happens any more
	simrt.Sleep(20 * time.Millisecond)
	w.client(Flush{})
	m := w.mp.Meter("late")
	x, err := m.Int64Counter("late")
	if err == nil && x != nil {
		x.Add(w.ctx, 1, api.WithAttributes(attribute.Int("A", 1)))
	}
	if _, err := m.RegisterCallback(func(context.Context, api.Observer) error {
		e.Fail("late-callback", "a callback registered after Shutdown was called")
		return nil
	}); err != nil {
		_ = err
	}
	for _, r := range w.readers {
		if r.man != nil {
			r.prod.Produce(nil) // fails on an unexpected instrument
		}
	}
	w.lifeCheck(errs, timing)
}

func (w *world) lifeCheck(errs []error, timing bool) {
	e := w.e
	// who shut down?
	var win *clientCall
	n := 0
	for _, c := range w.calls {
		if c.f.What == 1 && !errors.Is(c.err, sdk.ErrAlreadyShutdown) {
			n++
			win = c
		}
	}
	if n != 1 {
		e.Fail("shutdown-once", "%d of the Shutdown calls did not report that the provider was already shut down", n)
	}
	for _, c := range w.calls {
		if c.f.What == 1 && c != win && c.end < win.begin {
			e.Fail("shutdown-once", "Shutdown call %d reported an earlier shutdown, but none had been called", c.id)
		}
	}
	if w.p.Twice {
		n := 0
		for _, err := range errs {
			if errors.Is(err, sdk.ErrMultipleReaderRegistration) {
				n++
			}
		}
		for _, r := range w.readers {
			if r.man != nil && r.man.Producer != sdk.Producer(r.prod) {
				e.Fail("second-provider", "reader %d was taken over by the second provider it was registered with", r.idx)
			}
		}
		if n != len(w.readers) {
			e.Fail("second-provider", "%d of %d readers registered twice were reported", n, len(w.readers))
		}
	}
	obey := true
	for _, r := range w.readers {
		if r.exp != nil && !r.obedient() {
			obey = false
		}
	}
	for _, r := range w.readers {
		if r.exp == nil {
			continue
		}
		w.exporterCheck(r, win, errs, timing)
	}
	for _, c := range w.calls {
		if c == win || c.f.What == 0 {
			w.resultCheck(c, win)
		}
		if timing && obey && c.ctxEnd > 0 {
			lim := c.ctxEnd
			if c.bt > lim {
				lim = c.bt
			}
			if late := c.et - lim - c.stall; late > 0 {
				what := "ForceFlush"
				if c.f.What == 1 {
					what = "Shutdown"
				}
				e.Fail("deadline", "%s (call %d) returned %v after its context ended", what, c.id, late)
			}
		}
	}
}

// exporterCheck looks at the sequence of calls one exporter received.
func (w *world) exporterCheck(r *reader, win *clientCall, errs []error, timing bool) {
	e := w.e
	x := r.exp
	interval := time.Duration(r.p.Periodic) * time.Millisecond
	if r.p.NoInterval > 0 {
		interval = sdk.DefaultInterval
		e.Count("default_interval")
	}
	timeout := interval
	if r.p.TimeoutMs < 0 {
		timeout = sdk.DefaultTimeout
	}
	if r.p.TimeoutMs > 0 {
		timeout = time.Duration(r.p.TimeoutMs) * time.Millisecond
	}
	var shut *export
	used := map[*coll]*export{}
	nexp := 0
	for _, c := range x.calls {
		if shut != nil {
			e.Fail("after-shutdown", "reader %d: the exporter received %s after its shutdown", r.idx, c.kind)
		}
		// a flush in progress may outlive a Shutdown that gave up
		// because its own context ended
		gaveUp := win.ctxEnd > 0 && c.client > 0 && w.calls[c.client-1].begin < win.end
		if c.begin > win.end && !gaveUp {
			e.Fail("after-shutdown", "reader %d: the exporter received %s after Shutdown had returned", r.idx, c.kind)
		}
		if c.kind == "shutdown" {
			shut = c
			if c.begin < win.begin {
				e.Fail("shutdown-early", "reader %d: the exporter was shut down before Shutdown was called", r.idx)
			}
		}
		if c.c == nil {
			e.Fail("export-data", "reader %d: %s without a collection", r.idx, c.kind)
		}
		if o := used[c.c]; o != nil {
			e.Fail("export-twice", "reader %d: collection %d was handed to the exporter twice (%s, %s)", r.idx, c.c.n, o.kind, c.kind)
		}
		used[c.c] = c
		if c.kind == "export" {
			nexp++
			if max := int((c.bt - w.t0) / interval); nexp > max {
				e.Fail("too-often", "reader %d: periodic export number %d after %v, the interval is %v", r.idx, nexp, c.bt-w.t0, interval)
			}
			if !c.hasDL {
				e.Fail("no-deadline", "reader %d: periodic export without a deadline", r.idx)
			}
			if c.deadline > c.bt+timeout {
				e.Fail("no-deadline", "reader %d: periodic export has %v to finish, the timeout is %v", r.idx, c.deadline-c.bt, timeout)
			}
			if timing && simrt.Snapshot().StallTime == 0 && len(w.p.Flushers) == 0 && c.deadline < c.c.bt+timeout {
				e.Fail("short-deadline", "reader %d: periodic export has %v to finish, the timeout is %v", r.idx, c.deadline-c.c.bt, timeout)
			}
			if c.err != nil {
				ok := false
				for _, h := range errs {
					if errors.Is(h, c.err) {
						ok = true
					}
				}
				if !ok {
					e.Fail("error-swallowed", "reader %d: the error of a periodic export was not reported: %v", r.idx, c.err)
				}
			}
		} else {
			if c.client == 0 {
				e.Fail("context", "reader %d: %s without the caller's context", r.idx, c.kind)
			}
			cc := w.calls[c.client-1]
			if cc.ctxEnd > 0 && !cc.f.Canceled && (!c.hasDL || c.deadline > cc.ctxEnd) {
				e.Fail("context", "reader %d: %s without the caller's deadline", r.idx, c.kind)
			}
			if (c.kind == "shutdown") != (cc.f.What == 1) {
				e.Fail("context", "reader %d: the exporter received %s for the wrong call", r.idx, c.kind)
			}
		}
	}
	if shut == nil && win.ctxEnd == 0 {
		e.Fail("no-shutdown", "reader %d: the exporter was not shut down", r.idx)
	}
	for _, c := range r.colls {
		if used[c] == nil {
			for key, pts := range c.out {
				for sk := range pts {
					e.Fail("not-exported", "reader %d: collection %d (%s %s) was never handed to the exporter", r.idx, c.n, key, sk)
				}
			}
		}
	}
	if !timing {
		return
	}
	// progress: the next periodic export comes within two intervals, not
	// counting stalls and the time flushes hold the reader
	last, ls := w.t0, time.Duration(0)
	step := func(t time.Duration, st time.Duration, what string) {
		var held time.Duration
		for _, c := range x.calls {
			if c.kind != "export" && c.et > last && c.bt < t {
				held += c.et - c.bt
			}
		}
		if gap := t - last - (st - ls) - held; gap > 2*interval {
			e.Fail("no-export", "reader %d: no periodic export for %v before %s, the interval is %v", r.idx, gap, what, interval)
		}
	}
	for _, c := range x.calls {
		if c.kind == "export" {
			step(c.bt, c.st0, "the next")
			last, ls = c.et, c.st1
		}
	}
	step(win.bt, win.st0, "Shutdown")
}

// resultCheck: the result of a flush or shutdown tells what happened.
func (w *world) resultCheck(c *clientCall, win *clientCall) {
	e := w.e
	what := "ForceFlush"
	if c.f.What == 1 {
		what = "Shutdown"
	}
	failed := false
	// a call that was given all the time it needs reaches every reader,
	// whatever happens to the others
	all := (c.err == nil || c.ctxEnd == 0) && (c == win || c.end < win.begin)
	if c.err == nil && c.f.What == 1 {
		all = true
	}
	for _, r := range w.readers {
		if r.exp == nil {
			continue
		}
		var mine []*export
		for _, x := range r.exp.calls {
			if x.client == c.id {
				mine = append(mine, x)
				if x.err != nil {
					failed = true
					if !errors.Is(c.err, x.err) {
						e.Fail("result", "%s (call %d) returned %v, but reader %d's exporter failed with %v", what, c.id, c.err, r.idx, x.err)
					}
				}
			}
		}
		if len(mine) > 1 {
			e.Fail("result", "%s (call %d): reader %d's exporter was called %d times", what, c.id, r.idx, len(mine))
		}
		if all && len(mine) == 0 {
			e.Fail("result", "%s (call %d) returned %v, but reader %d's exporter was not called", what, c.id, c.err, r.idx)
		}
		if len(mine) == 1 && mine[0].end > c.end {
			e.Fail("result", "%s (call %d) returned before reader %d's exporter was done", what, c.id, r.idx)
		}
		if all {
			w.delivered(r, c, what)
		}
	}
	if c.err != nil && !failed && c.ctxEnd == 0 && c.end < win.begin {
		e.Fail("result", "%s (call %d) returned %v although nothing failed", what, c.id, c.err)
	}
	if c == win && c.err != nil && !failed && c.ctxEnd == 0 {
		e.Fail("result", "%s (call %d) returned %v although nothing failed", what, c.id, c.err)
	}
}

// delivered: what was recorded before the call began has reached the exporter
// when the call returns.
func (w *world) delivered(r *reader, c *clientCall, what string) {
	for key, spec := range r.outs {
		if spec.agg == aggregation.GaugeKind {
			continue
		}
		var m uint64
		for _, x := range r.exp.calls {
			if x.end == 0 || x.end > c.end {
				continue
			}
			if !spec.delta {
				m = 0
			}
			for _, pv := range x.c.out[key] {
				m |= pv.mask
			}
		}
		for _, op := range spec.in.ops {
			if op.end != 0 && op.end < c.begin && m>>op.id&1 == 0 {
				w.e.Fail("not-delivered", "%s (call %d) returned %v, but %s op%d, recorded before the call, was not handed to reader %d's exporter", what, c.id, c.err, key, op.id, r.idx)
			}
		}
	}
}
