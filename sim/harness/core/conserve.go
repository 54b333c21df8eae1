package core

import (
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// conserve checks one finished collection against the history of operations.
func (w *world) conserve(c *coll) {
	r := c.r
	for key, spec := range r.outs {
		if spec.agg == aggregation.GaugeKind {
			continue
		}
		in := spec.in
		pts := c.out[key]
		if spec.delta {
			del := r.cum[key]
			if del == nil {
				del = map[string]uint64{}
				r.cum[key] = del
			}
			for sk, pv := range pts {
				for osk, m := range del {
					if d := m & pv.mask; d != 0 {
						w.e.Fail("counted-twice", "reader %d collection %d %s %s: delta contains %s, already delivered in series %s", r.idx, c.n, key, sk, w.describe(in, d), osk)
					}
				}
				del[sk] |= pv.mask
			}
			if r.open == 0 {
				var tot uint64
				for _, m := range del {
					tot |= m
				}
				w.lower(c, key, spec, tot)
			}
			continue
		}
		var tot uint64
		for sk, pv := range pts {
			if d := tot & pv.mask; d != 0 {
				w.e.Fail("counted-twice", "reader %d collection %d %s %s: %s is counted in two series", r.idx, c.n, key, sk, w.describe(in, d))
			}
			tot |= pv.mask
		}
		w.lower(c, key, spec, tot)
		// present: a series is reported whatever its total
		for _, op := range in.zops {
			if sk := setKey(filter(op.set, spec.keys)); op.end != 0 && op.end < c.begin && pts[sk] == nil && !w.limited {
				w.e.Fail("lost", "reader %d collection %d %s: series %s is missing, a measurement of 0 completed before the collection began", r.idx, c.n, key, sk)
			}
		}
		// monotone: what an earlier collection showed stays, in the same series
		for _, o := range r.colls {
			if o.end == 0 || o.end > c.begin || o == c {
				continue
			}
			for sk, pv := range o.out[key] {
				var now uint64
				if pts[sk] == nil {
					w.e.Fail("went-back", "reader %d %s: collection %d contained series %s, collection %d no longer does", r.idx, key, o.n, sk, c.n)
				}
				now = pts[sk].mask
				if d := pv.mask &^ now; d != 0 {
					w.e.Fail("went-back", "reader %d %s %s: collection %d contained %s, collection %d no longer does", r.idx, key, sk, o.n, w.describe(in, d), c.n)
				}
			}
		}
	}
}

// lower: everything that completed before the collection began is included.
func (w *world) lower(c *coll, key string, spec *outSpec, tot uint64) {
	for _, op := range spec.in.ops {
		if op.end != 0 && op.end < c.begin && tot>>op.id&1 == 0 {
			w.e.Fail("lost", "reader %d collection %d %s: op%d (value %v, series %s) completed before the collection began and is missing from everything delivered so far", c.r.idx, c.n, key, op.id, op.val, setKey(filter(op.set, spec.keys)))
		}
	}
}

// stamps checks the time intervals of a collection.
func (w *world) stamps(c *coll) {
	r := c.r
	var end, dstart time.Time
	first := true
	all := map[string]map[string]*pointVal{}
	for key, pts := range c.out {
		all[key] = pts
	}
	for key, pts := range c.aout {
		all[key] = pts
	}
	for key, pts := range all {
		for sk, pv := range pts {
			if first {
				end = pv.end
				first = false
				c.stamp = end
			}
			if !pv.end.Equal(end) {
				w.e.Fail("stamp", "reader %d collection %d: points of one collection end at different times (%v, %v)", r.idx, c.n, pv.end.Sub(w.start), end.Sub(w.start))
			}
			if pv.tempo == aggregation.DeltaTemporality {
				if dstart.IsZero() {
					dstart = pv.start
				}
				if !pv.start.Equal(dstart) {
					w.e.Fail("stamp", "reader %d collection %d %s %s: delta points of one collection start at different times", r.idx, c.n, key, sk)
				}
			} else if pv.start.Before(w.start) || pv.start.After(w.started) {
				w.e.Fail("stamp", "reader %d collection %d %s %s: cumulative start %v is not the provider's start time", r.idx, c.n, key, sk, pv.start.Sub(w.start))
			}
			if pv.start.After(pv.end) {
				w.e.Fail("stamp", "reader %d collection %d %s %s: interval ends before it starts", r.idx, c.n, key, sk)
			}
		}
	}
	if first {
		c.stamp = time.Time{}
		return
	}
	b, e := end.Sub(w.start)-(c.bt-w.t0), end.Sub(w.start)-(c.et-w.t0)
	if b < 0 || e > 0 {
		w.e.Fail("stamp", "reader %d collection %d: end time is outside the collection call", r.idx, c.n)
	}
	c.dstart = dstart
}

// tile checks, over the whole history, that delta intervals of a reader do not
// overlap and leave no gap in which a measurement was made.
func (w *world) tile(r *reader) {
	for _, a := range r.colls {
		if a.stamp.IsZero() || a.dstart.IsZero() {
			continue
		}
		for _, b := range r.colls {
			if a == b || b.stamp.IsZero() {
				continue
			}
			if b.end != 0 && b.end < a.begin && a.stamp.Before(b.stamp) {
				w.e.Fail("stamp", "reader %d: collection %d ends before the earlier collection %d", r.idx, a.n, b.n)
			}
			if b.dstart.IsZero() {
				continue
			}
			// overlap: (a.dstart, a.stamp) and (b.dstart, b.stamp)
			lo, hi := a.dstart, a.stamp
			if b.dstart.After(lo) {
				lo = b.dstart
			}
			if b.stamp.Before(hi) {
				hi = b.stamp
			}
			if lo.Before(hi) {
				w.e.Fail("stamp", "reader %d: delta intervals of collections %d and %d overlap", r.idx, a.n, b.n)
			}
		}
	}
}

// contig: sequential delta collections start exactly where the previous one
// ended (known only when the previous collection had a point).
func (w *world) contig(r *reader) {
	for i, c := range r.colls {
		if c.overlap || c.dstart.IsZero() {
			continue
		}
		if i == 0 {
			if c.dstart.Before(w.start) || c.dstart.After(w.started) {
				w.e.Fail("stamp", "reader %d: the first delta interval starts at %v instead of the provider's start", r.idx, c.dstart.Sub(w.start))
			}
			continue
		}
		p := r.colls[i-1]
		if p.overlap {
			continue
		}
		if !p.stamp.IsZero() {
			if !c.dstart.Equal(p.stamp) {
				w.e.Fail("stamp", "reader %d: delta interval of collection %d starts at %v, the previous one ended at %v", r.idx, c.n, c.dstart.Sub(w.start), p.stamp.Sub(w.start))
			}
		} else {
			d := c.dstart.Sub(w.start) + w.t0
			if d < p.bt || d > p.et {
				w.e.Fail("stamp", "reader %d: delta interval of collection %d starts at %v, outside the previous collection [%v,%v]", r.idx, c.n, d, p.bt, p.et)
			}
		}
	}
}

// stable: data returned earlier has not been touched since.
func (w *world) stable(r *reader) {
	for _, h := range r.held {
		if got := fingerprint(h.d); got != h.sum {
			w.e.Fail("snapshot-changed", "reader %d: data returned by collection %d changed after it was returned\nwas:\n%s\nis:\n%s", r.idx, h.c.n, h.sum, got)
		}
	}
}

type mode struct {
	conserve, stamps, stable, gauge, slices, limits, async bool
}

// runWorld executes a plan and checks what mode asks for.
func runWorld(e *simh.Env, p *Plan, m mode) *world {
	var errs []error
	handled = func(err error) { errs = append(errs, err) }
	defer func() { handled = nil }()
	w := newWorld(e, p)
	w.holds = m.stable
	w.lens = m.slices
	w.onColl = func(c *coll) {
		if m.conserve {
			w.conserve(c)
		}
		if m.stamps {
			w.stamps(c)
		}
		if m.gauge {
			w.gaugeLin(c)
		}
		if m.limits {
			w.limitsCheck(c)
		}
	}
	recs := w.assign()
	var hs []*simrt.Handle
	for wi := range p.Workers {
		wi := wi
		hs = append(hs, simrt.Go("writer", func() {
			for oi, op := range p.Workers[wi] {
				rec := recs[[2]int{wi, oi}]
				if rec == nil {
					continue
				}
				sleepUs(op.Gap)
				if !rec.valid {
					e.Count("invalid_value")
				}
				w.do(op, rec)
			}
		}))
	}
	for _, r := range w.readers {
		r := r
		if r.man == nil {
			continue
		}
		for _, gaps := range r.p.Collectors {
			gaps := gaps
			hs = append(hs, simrt.Go("collector", func() {
				w.collector(r, gaps)
			}))
		}
	}
	for _, ops := range p.Actors {
		ops := ops
		hs = append(hs, simrt.Go("registrar", func() { w.cbActor(ops) }))
	}
	for _, fl := range p.Flushers {
		fl := fl
		hs = append(hs, simrt.Go("flusher", func() { w.flusher(fl) }))
	}
	for _, h := range hs {
		simrt.Join(h)
	}
	for _, r := range w.readers {
		if r.man != nil {
			r.prod.Produce(nil)
		}
	}
	if err := w.mp.Shutdown(w.ctx); err != nil && !w.shut && !anyErr(p) {
		e.Fail("shutdown-error", "Shutdown returned %v, no exporter failed", err)
	}
	for _, r := range w.readers {
		if m.stamps {
			w.tile(r)
			w.contig(r)
		}
		if m.stable {
			w.stable(r)
		}
	}
	if m.async {
		w.asyncCheck(errs)
	}
	if m.limits {
		w.asyncLimits()
	}
	return w
}

// runPhases: bursts of activity on ever new attribute sets, separated by idle
// periods in which every reader keeps collecting.  Idle series free their
// place, so no burst overflows a limit that is large enough for one burst.
func runPhases(e *simh.Env, p *Plan) {
	w := newWorld(e, p)
	per := p.ICard - 1
	if p.Phases < 1 || per < 1 {
		return
	}
	phase := 0
	w.onColl = func(c *coll) {
		w.conserve(c)
		for key, spec := range c.r.outs {
			if spec.delta && c.out[key][overflowKey] != nil {
				e.Fail("not-reclaimed", "reader %d collection %d: %s overflowed in burst %d although the previous series were idle for more than %d collections (limit %d, %d sets in use)", c.r.idx, c.n, key, phase, p.Inactive, p.ICard, per)
			}
		}
	}
	recs := w.assign()
	for phase = 0; phase < p.Phases; phase++ {
		var hs []*simrt.Handle
		for wi := range p.Workers {
			wi := wi
			hs = append(hs, simrt.Go("writer", func() {
				for oi, op := range p.Workers[wi] {
					rec := recs[[2]int{wi, oi}]
					if rec == nil || op.A/per != phase {
						continue
					}
					sleepUs(op.Gap)
					w.do(op, rec)
				}
			}))
		}
		for _, r := range w.readers {
			r := r
			for _, gaps := range r.p.Collectors {
				gaps := gaps
				hs = append(hs, simrt.Go("collector", func() { w.collector(r, gaps) }))
			}
		}
		for _, h := range hs {
			simrt.Join(h)
		}
		hs = hs[:0]
		if p.Exact {
			// one reader collects what is left and then the configured
			// number of times; the others twice, to report and to forget
			for i := 0; i <= p.Inactive; i++ {
				w.readers[0].prod.Produce(nil)
			}
			for i := 0; i < 2; i++ {
				for _, r := range w.readers[1:] {
					r.prod.Produce(nil)
				}
			}
			e.Count("idle_period")
			continue
		}
		for _, r := range w.readers {
			r := r
			hs = append(hs, simrt.Go("idle", func() {
				for i := 0; i < p.Inactive+3; i++ {
					r.prod.Produce(nil)
				}
			}))
		}
		for _, h := range hs {
			simrt.Join(h)
		}
		// once more, one after the other, so that every reader has seen
		// the release of every record
		for i := 0; i < 2; i++ {
			for _, r := range w.readers {
				r.prod.Produce(nil)
			}
		}
		e.Count("idle_period")
	}
	_ = w.mp.Shutdown(w.ctx)
}

// runKeep: rounds of activity on the same sets, which fill the limit, and on
// newcomers.  A set that is not idle for the configured number of collections
// in a row keeps its series.
func runKeep(e *simh.Env, p *Plan) {
	w := newWorld(e, p)
	per := p.ICard - 1
	if per < 1 {
		return
	}
	w.onColl = w.conserve
	recs := w.assign()
	type last struct {
		end int64
		own bool
	}
	for round, who := range p.Keep {
		prev := map[*instr]map[string]last{}
		for _, in := range w.insts {
			prev[in] = map[string]last{}
			for _, op := range in.ops {
				if l := prev[in][op.lkey]; op.end > l.end {
					prev[in][op.lkey] = last{op.end, op.own}
				}
			}
		}
		var hs []*simrt.Handle
		var now []*opRec
		for wi := range p.Workers {
			wi := wi
			for oi, op := range p.Workers[wi] {
				if rec := recs[[2]int{wi, oi}]; rec != nil && op.R == round {
					now = append(now, rec)
				}
			}
			hs = append(hs, simrt.Go("writer", func() {
				for oi, op := range p.Workers[wi] {
					rec := recs[[2]int{wi, oi}]
					if rec == nil || op.R != round {
						continue
					}
					sleepUs(op.Gap)
					w.do(op, rec)
				}
			}))
		}
		for _, h := range hs {
			simrt.Join(h)
		}
		sets := map[*instr]map[string]bool{}
		for _, rec := range now {
			if sets[rec.inst] == nil {
				sets[rec.inst] = map[string]bool{}
			}
			sets[rec.inst][rec.lkey] = true
		}
		for _, rec := range now {
			if !rec.valid {
				continue
			}
			if round == 0 {
				rec.own = len(sets[rec.inst]) <= per
				continue
			}
			l, n := prev[rec.inst][rec.lkey], 0
			for _, r := range w.readers {
				for _, c := range r.colls {
					if c.begin > l.end && c.begin < rec.start {
						n++
					}
				}
			}
			rec.own = l.own && n <= p.Inactive
			if rec.own && n == p.Inactive {
				e.Count("kept_at_limit")
			}
		}
		hs = hs[:0]
		for ri, r := range w.readers {
			ri, r := ri, r
			hs = append(hs, simrt.Go("collector", func() {
				for _, k := range who {
					if k == ri {
						r.prod.Produce(nil)
					}
				}
			}))
		}
		for _, h := range hs {
			simrt.Join(h)
		}
	}
	for _, r := range w.readers {
		r.prod.Produce(nil)
		for _, c := range r.colls {
			for key, spec := range r.outs {
				ov := c.out[key][overflowKey]
				if ov == nil {
					continue
				}
				for _, op := range spec.in.ops {
					if op.own && ov.mask>>op.id&1 == 1 {
						e.Fail("forgotten-early", "reader %d collection %d: %s counts op%d of %s in the overflow series although that series was never idle for %d collections in a row", r.idx, c.n, key, op.id, setKey(op.set), p.Inactive)
					}
				}
			}
		}
	}
	_ = w.mp.Shutdown(w.ctx)
}

func anyErr(p *Plan) bool {
	for _, r := range p.Readers {
		for _, f := range r.Exports {
			if f.Err || f.Obey {
				return true
			}
		}
	}
	return false
}
