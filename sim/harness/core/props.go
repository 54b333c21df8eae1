package core

import (
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
)

func newPlan() any { return &Plan{} }

var keys3 = []string{"A", "B", "C"}

type gen struct {
	r     *simh.Rand
	kinds []int
	tempo []int
	views bool
	dups  bool
	big   bool
}

func (g *gen) attrs(p *Plan, n int) {
	r := g.r
	for i := 0; i < n; i++ {
		var l KVs
		for _, k := range keys3 {
			if r.P(0.6) {
				kv := KV{K: k, V: r.Range(0, 2)}
				switch r.Intn(10) {
				case 0:
					kv.T, kv.S = 1, "s"
				case 1:
					kv.T = 2
				case 2:
					kv.T = 5
				case 3: // slices: 3/6 and 4/7 have equal elements in another order
					kv.T = []int{3, 6}[r.Intn(2)]
				case 4:
					kv.T, kv.S = []int{4, 7}[r.Intn(2)], "s"
				}
				if p.Ignore { // colliding lists are documented to merge
					kv = KV{K: k, V: r.Range(1, 3)}
				}
				l = append(l, kv)
			}
		}
		if g.dups && len(l) > 0 && r.P(0.3) {
			l = append(l, KV{K: l[0].K, V: r.Range(3, 4)})
		}
		if r.P(0.04) { // a long list
			for j, m := 0, r.Range(6, 14); j < m; j++ {
				l = append(l, KV{K: string(rune(97 + j)), V: r.Intn(2)})
			}
		}
		p.Attrs = append(p.Attrs, l)
		// a permutation of the same list (same set, same fingerprint)
		if len(l) > 1 && r.P(0.4) {
			q := append(KVs(nil), l...)
			i, j := r.Intn(len(q)), r.Intn(len(q))
			if q[i].K != q[j].K || g.dups {
				q[i], q[j] = q[j], q[i]
				p.Attrs = append(p.Attrs, q)
			}
		}
	}
}

func (g *gen) gap() int {
	r := g.r
	switch r.Intn(6) {
	case 0:
		return r.Range(1, 20)
	case 1:
		return r.Range(1, 3000)
	}
	return 0
}

func (g *gen) workers(p *Plan, nw, nop int) {
	r := g.r
	for i := 0; i < nw; i++ {
		var ops []Op
		n := r.Range(1, nop)
		for j := 0; j < n; j++ {
			op := Op{I: r.Intn(len(p.Insts)), A: r.Intn(len(p.Attrs)), Api: r.Intn(3), Gap: g.gap()}
			op.New = r.P(0.15)
			if r.P(0.06) {
				op.Bad = r.Range(1, 5)
			}
			ops = append(ops, op)
		}
		p.Workers = append(p.Workers, ops)
	}
}

// keep draws rounds in which the first n sets stay in use and others come up.
func (g *gen) keep(p *Plan, n int) {
	r := g.r
	p.Workers = make([][]Op, r.Range(1, 3))
	for round, rounds := 0, r.Range(2, 5); round < rounds; round++ {
		var ops []Op
		for i := range p.Insts {
			for a := 0; a < n; a++ {
				if round == 0 || !r.P(0.1) {
					ops = append(ops, Op{I: i, A: a, Api: r.Intn(3), Gap: g.gap(), R: round})
				}
			}
			for k := r.Intn(3); k > 0 && round > 0; k-- {
				ops = append(ops, Op{I: i, A: n + r.Intn(len(p.Attrs)-n), Api: r.Intn(3), Gap: g.gap(), R: round})
			}
		}
		for len(ops) > 0 {
			i, wi := r.Intn(len(ops)), r.Intn(len(p.Workers))
			p.Workers[wi] = append(p.Workers[wi], ops[i])
			ops = append(ops[:i], ops[i+1:]...)
		}
		m := p.Inactive
		if r.P(0.3) {
			m = r.Range(1, p.Inactive+1)
		}
		var who []int
		for k := 0; k < m; k++ {
			who = append(who, r.Intn(len(p.Readers)))
		}
		p.Keep = append(p.Keep, who)
	}
}

func (g *gen) readers(p *Plan) {
	r := g.r
	n := 1
	if r.P(0.4) {
		n = 2
	}
	if r.P(0.1) {
		n = 3
	}
	for i := 0; i < n; i++ {
		rp := RPlan{Tempo: g.tempo[r.Intn(len(g.tempo))]}
		if r.P(0.25) {
			rp.Periodic = r.Range(1, 4)
			rp.Exports = g.faults(r.Intn(6))
			if r.P(0.3) {
				rp.TimeoutMs = r.Range(1, 3)
			}
		} else {
			nc := 1
			if r.P(0.3) {
				nc = 2
			}
			for j := 0; j < nc; j++ {
				var gaps []int
				for k, m := 0, r.Range(1, 6); k < m; k++ {
					gaps = append(gaps, g.gap())
				}
				rp.Collectors = append(rp.Collectors, gaps)
			}
			rp.Reuse = r.P(0.5)
		}
		if g.views {
			for k := range p.Insts {
				if r.P(0.3) {
					v := VPlan{Inst: k, Keys: r.Intn(4)}
					if r.P(0.4) && (p.Insts[k].Kind == kIntHist || p.Insts[k].Kind == kFloatHist) {
						v.Agg = r.Range(1, 3)
					}
					rp.Views = append(rp.Views, v)
					if r.P(0.4) {
						v2 := VPlan{Inst: k, Keys: r.Intn(4), Rename: 1}
						rp.Views = append(rp.Views, v2)
					}
				}
			}
		}
		p.Readers = append(p.Readers, rp)
	}
}

func (g *gen) faults(n int) []Fault {
	r := g.r
	var out []Fault
	for i := 0; i < n; i++ {
		var f Fault
		if r.P(0.4) {
			f.SleepUs = r.Range(1, 6000)
			f.Obey = r.P(0.6)
		}
		f.Err = r.P(0.25)
		out = append(out, f)
	}
	return out
}

func (g *gen) flushers(p *Plan) {
	r := g.r
	if !r.P(0.3) {
		return
	}
	var fl []Flush
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		fl = append(fl, Flush{Gap: g.gap()})
	}
	p.Flushers = append(p.Flushers, fl)
}

// base draws a whole application.
func (g *gen) base() *Plan {
	r := g.r
	p := &Plan{Inactive: r.Range(1, 3), Meters: 1}
	if r.P(0.25) {
		p.Ignore = true
	}
	if r.P(0.2) {
		p.Meters = 2
	}
	ni := 1
	if r.P(0.5) {
		ni = r.Range(1, 3)
	}
	for i := 0; i < ni; i++ {
		p.Insts = append(p.Insts, IPlan{Kind: g.kinds[r.Intn(len(g.kinds))], Meter: r.Intn(2)})
	}
	g.dups = !p.Ignore && r.P(0.3)
	g.attrs(p, r.Range(1, 3))
	if r.P(0.15) {
		p.Proc = true
	}
	p.Big = r.P(0.3)
	g.readers(p)
	g.workers(p, r.Range(1, 4), []int{2, 4, 8, 14}[r.Intn(4)])
	g.flushers(p)
	return p
}

// hints puts hints in the descriptions of some instruments.
func (g *gen) hints(p *Plan, prob float64) {
	r := g.r
	for i := range p.Insts {
		in := &p.Insts[i]
		if !r.P(prob) {
			continue
		}
		switch in.Kind {
		case kIntCounter, kFloatCounter, kIntUpDown, kFloatUpDown:
			in.HAgg = []int{0, 2, 3}[r.Intn(3)]
		case kIntHist, kFloatHist:
			in.HAgg = []int{0, 2}[r.Intn(2)]
		default:
			continue
		}
		in.HTemp = r.Intn(3)
	}
}

// async adds asynchronous instruments and callbacks.
func (g *gen) async(p *Plan) {
	r := g.r
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		p.Async = append(p.Async, AIPlan{Kind: r.Intn(6), Meter: r.Intn(2)})
	}
	nc := r.Range(1, 4)
	for i := 0; i < nc; i++ {
		cb := CbPlan{Init: r.P(0.6), Ctor: r.P(0.15), Late: r.P(0.1), Err: r.P(0.1)}
		if r.P(0.25) {
			cb.Re = r.Range(1, 3)
		}
		cb.Wrap, cb.Alien = r.P(0.15), r.P(0.1)
		if r.P(0.15) {
			cb.Refus = r.Range(1, 4)
		}
		for k := 0; k < n; k++ {
			if r.P(0.6) {
				cb.Insts = append(cb.Insts, k)
			}
		}
		if len(cb.Insts) == 0 {
			cb.Insts = []int{r.Intn(n)}
		}
		for j, m := 0, r.Range(1, 4); j < m; j++ {
			o := ObsOp{I: cb.Insts[r.Intn(len(cb.Insts))], A: r.Intn(len(p.Attrs))}
			if r.P(0.05) {
				o.I = r.Intn(n)
			}
			if r.P(0.1) {
				o.Bad = r.Range(1, 3)
			}
			if r.P(0.2) {
				o.Nth = r.Range(2, 3)
			}
			o.Rep = r.P(0.3)
			cb.Obs = append(cb.Obs, o)
		}
		p.Cbs = append(p.Cbs, cb)
	}
	for i, na := 0, r.Range(0, 3); i < na; i++ {
		var ops []CbOp
		for j, m := 0, r.Range(1, 5); j < m; j++ {
			ops = append(ops, CbOp{Cb: r.Intn(nc), What: r.Intn(2), Gap: g.gap()})
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.views {
		for i := range p.Readers {
			for k := 0; k < n; k++ {
				if r.P(0.25) {
					v := VPlan{Inst: 100 + k, Keys: r.Intn(4)}
					if r.P(0.15) {
						v.Agg = 4
					}
					p.Readers[i].Views = append(p.Readers[i].Views, v)
				}
			}
		}
	}
}

// many makes one operation a long series of measurements.
func (g *gen) many(p *Plan) {
	r := g.r
	if !r.P(0.01) {
		return
	}
	for _, ops := range p.Workers {
		if len(ops) > 0 && r.P(0.5) {
			ops[r.Intn(len(ops))].N = []int{255, 255, 255, 256, 127, 511}[r.Intn(6)]
		}
	}
}

var sumKinds = []int{kIntCounter, kFloatCounter, kIntUpDown, kFloatUpDown, kIntHist, kFloatHist}

func init() {
	std := func(id string, g func(r *simh.Rand) any, run func(e *simh.Env, p *Plan)) {
		simh.Register(&simh.Prop{ID: id, New: newPlan, Gen: g, Cap: 4000000, Time: 24 * time.Hour, Stall: 4 * time.Millisecond,
			Run: func(e *simh.Env, p any) { run(e, p.(*Plan)) }})
	}
	std("C01", func(r *simh.Rand) any {
		g := &gen{r: r, kinds: sumKinds, tempo: []int{0}, views: true}
		p := g.base()
		g.hints(p, 0.1)
		g.many(p)
		return p
	}, func(e *simh.Env, p *Plan) { runWorld(e, p, mode{conserve: true}) })
	std("C02", func(r *simh.Rand) any {
		g := &gen{r: r, kinds: sumKinds, tempo: []int{1, 2, 2, 2, 0}, views: true}
		p := g.base()
		if len(p.Readers) > 0 && p.Readers[0].Tempo == 0 {
			p.Readers[0].Tempo = 2
		}
		g.hints(p, 0.1)
		g.many(p)
		return p
	}, func(e *simh.Env, p *Plan) { runWorld(e, p, mode{conserve: true}) })
	std("C03", func(r *simh.Rand) any {
		g := &gen{r: r, kinds: append([]int{kIntGauge}, sumKinds...), tempo: []int{0, 1, 2}, views: true}
		p := g.base()
		for i := range p.Readers {
			p.Readers[i].Reuse = r.P(0.3)
		}
		if r.P(0.3) {
			g.async(p)
		}
		return p
	}, func(e *simh.Env, p *Plan) { runWorld(e, p, mode{stable: true}) })
	std("C04", func(r *simh.Rand) any {
		g := &gen{r: r, kinds: append([]int{kIntGauge}, sumKinds...), tempo: []int{0, 1, 2, 2}}
		p := g.base()
		if r.P(0.4) {
			g.async(p)
		}
		return p
	}, func(e *simh.Env, p *Plan) { runWorld(e, p, mode{stamps: true}) })
	std("C05", func(r *simh.Rand) any {
		g := &gen{r: r, kinds: sumKinds, tempo: []int{0, 1, 2}, views: r.P(0.4)}
		p := g.base()
		p.Attrs = nil
		g.dups = false
		n := r.Range(3, 8)
		for i := 0; i < n; i++ {
			l := KVs{{K: "A", V: i + 1}}
			if r.P(0.3) {
				l = append(l, KV{K: "B", V: r.Range(1, 2)})
			}
			p.Attrs = append(p.Attrs, l)
		}
		p.Workers = nil
		g.workers(p, r.Range(1, 4), []int{4, 8, 14}[r.Intn(3)])
		if r.P(0.5) {
			p.Inactive = 5000
		}
		switch r.Intn(3) {
		case 0:
			p.ICard = r.Range(1, n)
		case 1:
			p.ACard = r.Range(1, n)
		default:
			p.ICard, p.ACard = r.Range(1, n), r.Range(2, n)
		}
		if p.ACard > 0 && r.P(0.4) {
			g.async(p)
			for i := range p.Cbs {
				cb := &p.Cbs[i]
				for len(cb.Obs) < p.ACard+1 && r.P(0.9) {
					cb.Obs = append(cb.Obs, ObsOp{I: cb.Insts[0], A: r.Intn(len(p.Attrs)), Nth: r.Intn(3)})
				}
			}
		}
		return p
	}, func(e *simh.Env, p *Plan) { runWorld(e, p, mode{conserve: true, limits: true}) })
	std("C10", func(r *simh.Rand) any {
		g := &gen{r: r, kinds: sumKinds, tempo: []int{1, 2, 2, 2}, views: r.P(0.3)}
		p := g.base()
		p.Flushers = nil
		g.dups = false
		for i := range p.Readers {
			p.Readers[i].Periodic = 0
			if p.Readers[i].Collectors == nil {
				p.Readers[i].Collectors = [][]int{{0, g.gap()}}
			}
		}
		lim := r.Range(2, 5)
		p.ICard, p.ACard = lim, lim
		p.Phases = r.Range(2, 4)
		p.Attrs = nil
		for i := 0; i < (lim-1)*p.Phases; i++ {
			l := KVs{{K: "A", V: i + 1}}
			if g.views && r.P(0.5) {
				l = append(l, KV{K: "B", V: r.Intn(2)})
			}
			p.Attrs = append(p.Attrs, l)
		}
		p.Workers = nil
		p.Exact = r.P(0.5)
		if r.P(0.3) {
			g.keep(p, lim-1)
			return p
		}
		g.workers(p, r.Range(1, 4), []int{4, 8, 14}[r.Intn(3)])
		return p
	}, func(e *simh.Env, p *Plan) {
		if p.Keep != nil {
			runKeep(e, p)
		} else {
			runPhases(e, p)
		}
	})
	std("C17", func(r *simh.Rand) any {
		g := &gen{r: r, kinds: append([]int{kIntGauge}, sumKinds...), tempo: []int{0, 1, 2}, views: true}
		p := g.base()
		p.Trunc = r.Range(2, 6)
		for i := range p.Attrs {
			for j := range p.Attrs[i] {
				kv := &p.Attrs[i][j]
				if r.P(0.5) {
					kv.T, kv.S, kv.L = []int{1, 4, 7}[r.Intn(3)], "s", "abcdefgh"[:r.Range(0, 8)]
					if p.Ignore && kv.T == 7 {
						kv.T = 1
					}
				}
				if r.P(0.2) {
					kv.K += "abcdefgh"[:r.Range(1, 8)]
				}
			}
		}
		if !p.Ignore && r.P(0.5) {
			// lists with the fingerprint of another list
			for i, n := 0, len(p.Attrs); i < n; i++ {
				l := append(KVs(nil), p.Attrs[i]...)
				for j := range l {
					if r.P(0.7) {
						l[j].T = []int{3, 4, 9}[r.Intn(3)]
					}
				}
				q := append(KVs(nil), l...)
				for j := range q {
					switch q[j].T {
					case 3:
						q[j].T = 6
					case 4:
						q[j].T = 7
					case 9:
						q[j].T = 10
					}
				}
				p.Attrs = append(p.Attrs, l, q)
			}
			for i := range p.Workers {
				for j := range p.Workers[i] {
					p.Workers[i][j].A = r.Intn(len(p.Attrs))
				}
			}
		}
		for i := range p.Workers {
			for j := range p.Workers[i] {
				p.Workers[i][j].Api = r.Range(1, 3)
			}
		}
		if r.P(0.3) {
			g.async(p)
		}
		return p
	}, func(e *simh.Env, p *Plan) { runWorld(e, p, mode{conserve: true, slices: true, async: true}) })
	std("C18", func(r *simh.Rand) any {
		g := &gen{r: r, kinds: sumKinds, tempo: []int{0, 1, 2, 2}, views: r.P(0.3)}
		p := g.base()
		p.Ignore = false
		p.Attrs = nil
		// lists that are easily confused: equal elements in another order,
		// equal bits under another type, permutations, duplicate keys
		family := r.P(0.3)
		for i, n := 0, r.Range(2, 6); i < n; i++ {
			var l KVs
			if family {
				p.Attrs = append(p.Attrs, KVs{{K: "A", V: r.Intn(5), T: r.Range(12, 15)}})
				continue
			}
			if r.P(0.25) {
				c := collide[r.Intn(len(collide))]
				if r.P(0.3) {
					x := KV{K: "D", V: r.Intn(2)}
					c[0], c[1] = append(KVs{x}, c[0]...), append(KVs{x}, c[1]...)
				}
				p.Attrs = append(p.Attrs, c[0], c[1])
				continue
			}
			if r.P(0.08) { // long lists that differ in one place
				for k, m := 0, r.Range(5, 14); k < m; k++ {
					l = append(l, KV{K: string(rune('a' + k)), V: r.Intn(2), T: []int{0, 0, 0, 2, 5, 11}[r.Intn(6)]})
				}
				l2, x := append(KVs(nil), l...), r.Intn(len(l))
				if r.P(0.5) {
					x = len(l) - 1
				}
				l2[x].V = 1 - l2[x].V
				p.Attrs = append(p.Attrs, l, l2)
				if r.P(0.3) {
					p.Attrs = append(p.Attrs, l[:len(l)-1])
				}
				continue
			}
			for k, m := 0, r.Range(1, 2); k < m; k++ {
				kv := KV{K: keys3[r.Intn(2)], V: r.Range(0, 1), T: []int{0, 2, 3, 6, 5, 4, 7, 8, 9, 10, 11}[r.Intn(11)]}
				if r.P(0.3) {
					kv.V, kv.T = r.Intn(5), r.Range(12, 16)
				}
				l = append(l, kv)
			}
			p.Attrs = append(p.Attrs, l)
			if r.P(0.5) && len(l) > 1 {
				p.Attrs = append(p.Attrs, KVs{l[1], l[0]})
			}
		}
		p.Workers = nil
		g.workers(p, r.Range(1, 4), []int{4, 8, 14}[r.Intn(3)])
		if r.P(0.3) {
			g.async(p)
		}
		return p
	}, func(e *simh.Env, p *Plan) { runWorld(e, p, mode{conserve: true, async: true}) })
	life := func(r *simh.Rand, timing bool) *Plan {
		g := &gen{r: r, kinds: sumKinds, tempo: []int{0, 1, 2, 2}, views: r.P(0.2)}
		p := g.base()
		p.Flushers = nil
		obey := r.P(0.7)
		for i := range p.Readers {
			rp := &p.Readers[i]
			if i == 0 || r.P(0.5) {
				rp.Collectors, rp.Reuse = nil, false
				rp.Periodic = r.Range(1, 5)
				if r.P(0.2) {
					rp.Periodic = 1000
				}
				rp.TimeoutMs = 0
				if r.P(0.4) {
					rp.TimeoutMs = r.Range(1, 20)
				}
			}
			if rp.Periodic > 0 {
				rp.Exports = g.faults(r.Range(0, 12))
				for j := range rp.Exports {
					if rp.Exports[j].SleepUs > 0 && r.P(0.3) {
						rp.Exports[j].SleepUs = r.Range(5000, 40000)
					}
					if obey {
						rp.Exports[j].Obey = true
					}
				}
			}
		}
		if timing || r.P(0.4) {
			p.RunUs = r.Range(1, 60000)
		}
		p.Twice = r.P(0.1)
		if r.P(0.1) { // no interval is given, or no timeout
			rp := p.Readers[0]
			rp.TimeoutMs = -r.Intn(2)
			if r.P(0.7) {
				rp.NoInterval, rp.Periodic = r.Range(1, 2), 30000
				if p.RunUs > 0 && r.P(0.6) {
					p.RunUs = r.Range(20000, 95000) * 1000
				}
			}
			p.Readers = []RPlan{rp}
		}
		for i, n := 0, r.Range(0, 3); i < n; i++ {
			var fl []Flush
			for j, m := 0, r.Range(1, 4); j < m; j++ {
				f := Flush{Gap: g.gap()}
				if r.P(0.3) {
					f.Gap = r.Range(1, 20000)
				}
				if r.P(0.5) {
					f.TimeoutUs = r.Range(1, 8000)
				} else if r.P(0.15) {
					f.Canceled = true
				}
				if r.P(0.2) && !(timing && r.P(0.7)) {
					f.What = 1
				}
				fl = append(fl, f)
			}
			p.Flushers = append(p.Flushers, fl)
		}
		return p
	}
	std("C08", func(r *simh.Rand) any { return life(r, false) }, func(e *simh.Env, p *Plan) { runLife(e, p, false) })
	std("C09", func(r *simh.Rand) any { return life(r, true) }, func(e *simh.Env, p *Plan) { runLife(e, p, true) })
	simh.Register(&simh.Prop{ID: "C11", New: func() any { return &IdPlan{} }, Gen: genIdent, Cap: 4000000, Time: 24 * time.Hour, Stall: 4 * time.Millisecond,
		Run: func(e *simh.Env, p any) { runIdent(e, p.(*IdPlan)) }})
	std("C07", func(r *simh.Rand) any {
		g := &gen{r: r, kinds: sumKinds, tempo: []int{0, 1, 2}, views: true}
		p := g.base()
		g.async(p)
		if r.P(0.7) {
			p.Workers = nil
			p.Insts = nil
		}
		if r.P(0.1) { // long values are cut
			p.Trunc = r.Range(2, 4)
			for _, l := range p.Attrs {
				for j := range l {
					if r.P(0.5) && !p.Ignore {
						l[j].T, l[j].S, l[j].L = 1, "s", "abcdefgh"[:r.Range(0, 8)]
					}
				}
			}
		}
		return p
	}, func(e *simh.Env, p *Plan) { runWorld(e, p, mode{async: true}) })
	std("C06", func(r *simh.Rand) any {
		g := &gen{r: r, kinds: []int{kIntGauge, kFloatGauge}, tempo: []int{0, 1, 2}, views: true}
		if r.P(0.15) { // many series merge into one, some while they are collected
			p := &Plan{Inactive: r.Range(1, 3), Meters: 1, Insts: []IPlan{{Kind: g.kinds[r.Intn(2)]}}}
			for i, n := 0, r.Range(3, 7); i < n; i++ {
				p.Attrs = append(p.Attrs, KVs{{K: "A", V: i}})
			}
			g.readers(p)
			for i := range p.Readers {
				rd := &p.Readers[i]
				if rd.Tempo == 0 || r.P(0.5) {
					rd.Tempo = r.Range(1, 2)
				}
				if r.P(0.8) {
					rd.Views = []VPlan{{Keys: r.Range(2, 3)}}
				}
				for j, m := 0, r.Intn(6); j < m && len(rd.Collectors) > 0; j++ {
					rd.Collectors[0] = append(rd.Collectors[0], 0)
				}
			}
			g.workers(p, r.Range(2, 4), []int{8, 14, 24}[r.Intn(3)])
			for _, ops := range p.Workers {
				for i := range ops {
					if r.P(0.5) {
						ops[i].Gap = 0
					}
				}
			}
			return p
		}
		p := g.base()
		for i := range p.Insts {
			if r.P(0.3) { // an up-down counter declared a gauge by a hint
				in := &p.Insts[i]
				in.Kind, in.HAgg, in.HTemp = []int{kIntUpDown, kFloatUpDown}[r.Intn(2)], 1, r.Intn(3)
			}
		}
		return p
	}, func(e *simh.Env, p *Plan) { runWorld(e, p, mode{gauge: true}) })
}

// Different attribute lists with the same fingerprint at the time of writing:
// the same value under another key, or a string and the integer it hashes to.
// If fingerprints are computed in another way, these are lists like any other.
var collide = [][2]KVs{
	{{{K: "A", V: 1}}, {{K: "B", V: -4128051862503696319}}},
	{{{K: "A", V: 2}}, {{K: "B", V: 3175641890184066505}}},
	{{{K: "B", V: 0}}, {{K: "A", V: -5780925717794707358}}},
	{{{K: "B", V: 1}}, {{K: "A", V: 7165892196290116884}}},
	{{{K: "A", V: 1}}, {{K: "C", V: 1825588276042463469}}},
	{{{K: "A", V: 0, T: 11}}, {{K: "A", V: -3247774798456978881}}},
	{{{K: "B", V: 1, T: 11}}, {{K: "B", V: -9142586270102516767}}},
	// an attribute with fingerprint zero: lists of different lengths collide
	{{}, {{K: "A", V: -481286586073694170}}},
	{{}, {{K: "B", V: -5473998361110931697}}},
	{{{K: "A", V: 1}}, {{K: "A", V: 1}, {K: "B", V: -5473998361110931697}}},
	{{{K: "B", V: 0}}, {{K: "A", V: -481286586073694170}, {K: "B", V: 0}}},
	{{{K: "A", V: 1}}, {{K: "A", V: 1}, {K: "C", V: 4992171368802600312}}},
	{{{K: "A", V: -481286586073694170}}, {{K: "B", V: -5473998361110931697}}},
}
