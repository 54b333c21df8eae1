package core

import (
	"context"
	"math"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
)

func (w *world) collector(r *reader, gaps []int) {
	var buf *data.Metrics
	for _, g := range gaps {
		sleepUs(g)
		if r.p.Reuse {
			if buf == nil {
				buf = &data.Metrics{}
			}
			*buf = r.prod.Produce(buf)
		} else {
			r.prod.Produce(nil)
		}
	}
}

func (w *world) flusher(ops []Flush) {
	for _, f := range ops {
		sleepUs(f.Gap)
		ctx := w.ctx
		var cancel context.CancelFunc = func() {}
		if f.TimeoutUs > 0 {
			ctx, cancel = context.WithTimeout(ctx, time.Duration(f.TimeoutUs)*time.Microsecond)
		} else if f.Canceled {
			ctx, cancel = context.WithCancel(ctx)
			cancel()
		}
		if f.What == 1 {
			w.shut = true
			w.e.Count("early_shutdown")
			_ = w.mp.Shutdown(ctx)
		} else {
			w.e.Count("force_flush")
			_ = w.mp.ForceFlush(ctx)
		}
		cancel()
	}
}

// gaugeLin: the value of a gauge series in a collection is one that could have
// been the latest.  A value v is excluded when another write of the series
// started after v's write ended and itself ended before the collection began.
func (w *world) gaugeLin(c *coll) {
	r := c.r
	for key, spec := range r.outs {
		if spec.agg != aggregation.GaugeKind {
			continue
		}
		in := spec.in
		bySeries := map[string][]*opRec{}
		for _, op := range in.ops {
			if op.start != 0 {
				sk := setKey(filter(op.set, spec.keys))
				bySeries[sk] = append(bySeries[sk], op)
			}
		}
		for sk, pv := range c.out[key] {
			var src *opRec
			for _, op := range bySeries[sk] {
				if op.val == pv.raw {
					src = op
				}
			}
			if src == nil {
				w.e.Fail("gauge", "reader %d collection %d %s %s: value %v was never recorded in this series", r.idx, c.n, key, sk, pv.raw)
			}
			if src.start > c.end {
				w.e.Fail("gauge", "reader %d collection %d %s %s: value from the future", r.idx, c.n, key, sk)
			}
			if src.end != 0 {
				for _, o := range bySeries[sk] {
					if o.end != 0 && o.end < c.begin && o.start > src.end {
						w.e.Fail("gauge-stale", "reader %d collection %d %s %s: reports %v, but %v was recorded entirely after it and completed before the collection began", r.idx, c.n, key, sk, src.val, o.val)
					}
				}
			}
			if spec.delta && !c.overlap {
				// an interval with no write must not report: the value's
				// write must not have completed before the previous
				// collection began
				if p := r.prev(c); p != nil && src.end != 0 && src.end < p.begin {
					w.e.Fail("gauge-stale", "reader %d collection %d %s %s: delta gauge repeats %v, which was complete before the previous collection began", r.idx, c.n, key, sk, src.val)
				}
			}
			pv.mask = 1 << src.id
		}
		// missing series
		for sk, ops := range bySeries {
			if c.out[key][sk] != nil {
				continue
			}
			for _, op := range ops {
				if op.end == 0 || op.end > c.begin {
					continue
				}
				if spec.delta {
					// must have been reported by someone since
					ok := c.overlap || r.open > 0
					for _, o := range r.colls {
						if o.end != 0 && o.end > op.start && o.out[key][sk] != nil {
							ok = true
						}
						if o.overlap {
							ok = true
						}
					}
					if ok {
						continue
					}
				}
				w.e.Fail("gauge-lost", "reader %d collection %d %s: series %s, recorded before the collection began, is missing", r.idx, c.n, key, sk)
			}
		}
		// never backwards between collections
		if !c.overlap {
			for _, o := range r.colls {
				if o.end == 0 || o.end > c.begin {
					continue
				}
				for sk, opv := range o.out[key] {
					npv := c.out[key][sk]
					if npv == nil {
						continue
					}
					a, b := in.ops[log2(opv.mask)], in.ops[log2(npv.mask)]
					if a != b && b.end != 0 && b.end < a.start {
						w.e.Fail("gauge-stale", "reader %d %s %s: collection %d showed %v, the later collection %d shows the older %v", r.idx, key, sk, o.n, a.val, c.n, b.val)
					}
				}
			}
		}
	}
}

func log2(m uint64) int { return int(math.Log2(float64(m))) }

func (r *reader) prev(c *coll) *coll {
	var p *coll
	for _, o := range r.colls {
		if o.end != 0 && o.end < c.begin && (p == nil || o.end > p.end) {
			p = o
		}
	}
	return p
}

// limitsCheck: a collection never has more series than the configured limits,
// the overflow series appears only when a limit has been reached, and a set
// that has its own series keeps it as long as nothing is evicted.
func (w *world) limitsCheck(c *coll) {
	r := c.r
	for key, spec := range r.outs {
		pts := c.out[key]
		if w.p.ACard > 0 && len(pts) > w.p.ACard {
			w.e.Fail("cardinality", "reader %d collection %d: %s has %d series, the aggregator limit is %d", r.idx, c.n, key, len(pts), w.p.ACard)
		}
		if w.p.ICard > 0 && w.p.Inactive > 1000 && len(pts) > w.p.ICard {
			w.e.Fail("cardinality", "reader %d collection %d: %s has %d series, the instrument limit is %d", r.idx, c.n, key, len(pts), w.p.ICard)
		}
		ov := pts[overflowKey]
		if ov == nil {
			continue
		}
		w.e.Count("overflow_series")
		raw, flt := map[string]bool{}, map[string]bool{}
		for _, l := range [][]*opRec{spec.in.ops, spec.in.zops} {
			for _, op := range l {
				if op.start != 0 {
					raw[op.lkey] = true
					flt[setKey(filter(op.set, spec.keys))] = true
				}
			}
		}
		if !(w.p.ACard > 0 && len(flt) >= w.p.ACard) && !(w.p.ICard > 0 && len(raw) >= w.p.ICard) {
			w.e.Fail("overflow-early", "reader %d collection %d: %s has an overflow series with %d sets recorded (limits: aggregator %d, instrument %d)", r.idx, c.n, key, len(flt), w.p.ACard, w.p.ICard)
		}
		if w.p.Inactive <= 1000 || spec.agg == aggregation.GaugeKind {
			continue
		}
		for _, op := range spec.in.ops {
			if ov.mask>>op.id&1 == 0 {
				continue
			}
			for _, o := range spec.in.ops {
				if o.lkey != op.lkey || o.end == 0 || o.end > op.start {
					continue
				}
				// where was o reported?
				for _, oc := range r.colls {
					if oc.end == 0 && oc != c {
						continue
					}
					for sk, pv := range oc.out[key] {
						if !w.overflows(spec, sk) && pv.mask>>o.id&1 == 1 {
							w.e.Fail("overflow-active", "reader %d collection %d: %s counts op%d in the overflow series although series %s was already in use by op%d", r.idx, c.n, key, op.id, sk, o.id)
						}
					}
				}
			}
		}
	}
}
