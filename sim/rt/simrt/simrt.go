// Package simrt is a deterministic scheduler.  It runs inside a
// testing/synctest bubble: the bubble supplies the fake clock and quiescence
// detection, simrt decides which goroutine takes the next step.  Exactly one
// goroutine (the token holder) executes instrumented code at a time; at every
// yield point a seeded policy decides whether it keeps the token.
package simrt

import (
	"runtime"
	"testing/synctest"
	"time"
)

const (
	MaxProcs = 16384
	maxRec   = 1 << 16
)

// Policies.
const (
	PolRandom = iota // switch with fixed probability at every yield
	PolPCT           // priorities with d change points
	PolSite          // switch often, but only at a random subset of sites
	PolBurst         // run one goroutine for a long random burst
	NumPolicies
)

type Config struct {
	Seed     uint64
	Policy   int
	PSwitch  float64 // PolRandom
	Depth    int     // PolPCT: change points
	EstSteps int     // PolPCT: expected length
	PStall   float64 // chance that a scheduling decision stalls everything and lets time pass
	StallMax time.Duration
	StepCap  int
	FairFrom int           // from this step on: uniformly random, fair in probability
	MaxTime  time.Duration // simulated time limit
	Replay   []Dec         // if non-nil: follow it, default policy elsewhere
	IsReplay bool
}

// Dec is one recorded decision: after proc P's local step L (N-th decision
// there), run To; Sleep>0 is a stall instead.
type Dec struct {
	P     int32 `json:"p"`
	L     int32 `json:"l"`
	N     int32 `json:"n,omitempty"`
	To    int32 `json:"to,omitempty"`
	Sleep int64 `json:"sleep,omitempty"`
	V     bool  `json:"v,omitempty"` // the holder gave up the token at a yield point
	Site  int32 `json:"s,omitempty"`
}

type state uint8

const (
	stNew state = iota
	stReady
	stRunning
	stLockWait
	stDone
)

type proc struct {
	id      int32
	st      state
	local   int32
	wake    chan struct{}
	managed bool // created by simrt.Go
	site    int32
	prio    uint64
	nextq   *proc
	name    string
	quiet   int // >0: no switching (harness bookkeeping)
}

type Stats struct {
	Steps      int
	Switches   int
	Decisions  int
	Stalls     int
	StallTime  time.Duration
	SimTime    time.Duration
	Procs      int
	Hash       uint64
	LockBlocks int
	Fair       bool
}

type Sim struct {
	cfg     Config
	epoch   uint64
	rng     uint64
	rtSeed  uint64
	procs   []*proc
	rdy     []*proc // ready to run, by id
	n       int32
	cur     *proc
	last    *proc
	ready   int
	notify  chan struct{}
	resched bool
	capAt   int           // step count at which the cap is examined again
	capTime time.Duration // simulated time then
	live    int           // managed procs not done
	stats   Stats
	rec     []Dec
	nrec    int
	start   time.Time
	change  [16]int
	burst   int
	siteKey uint64
	replay  map[decKey]Dec
	seq     int64
	lowPrio uint64
	vol     bool
}

type decKey struct {
	p, l, n int32
	v       bool
}

var (
	active bool
	S      *Sim
	epochN uint64
	recBuf []Dec

	// Hits marks the yield sites reached by this process.
	Hits [1 << 16]bool
)

//go:norace
func (s *Sim) rnd() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (s *Sim) chance(p float64) bool {
	if p <= 0 {
		return false
	}
	return float64(s.rnd()>>11)/(1<<53) < p
}

//go:norace
func (s *Sim) intn(n int) int { return int(s.rnd() % uint64(n)) }

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return active }

//go:norace
func (s *Sim) newProc() *proc {
	if int(s.n) >= MaxProcs-1 {
		Fatal("infra", "too many simulated goroutines")
	}
	s.n++
	p := &proc{id: s.n, wake: make(chan struct{}, 1)}
	p.prio = 1<<32 + s.rnd()>>32
	s.procs = Push(s.procs, p)
	return p
}

// makeReady marks p ready to run.
//
//go:norace
func (s *Sim) makeReady(p *proc) {
	p.st = stReady
	s.ready++
	i := len(s.rdy)
	s.rdy = Push(s.rdy, p)
	for i > 0 && s.rdy[i-1].id > p.id {
		s.rdy[i] = s.rdy[i-1]
		i--
	}
	s.rdy[i] = p
}

// self returns the calling goroutine's proc, adopting it if it is new.
//
//go:norace
func (s *Sim) self() *proc {
	id := runtime.SimID()
	if id>>16 == s.epoch {
		return s.procs[id&0xffff]
	}
	if !runtime.SimInBubble() {
		return nil
	}
	p := s.newProc()
	runtime.SimSetID(s.epoch<<16 | uint64(p.id))
	return p
}

// PreGo reserves a proc for the goroutine the caller is about to start.
//
//go:norace
func PreGo() {
	s := S
	if !active || s.self() == nil {
		return
	}
	p := s.newProc()
	s.resched = true
	runtime.SimSetChild(s.epoch<<16 | uint64(p.id))
}

// Go starts f as a managed goroutine; a run ends when all of them are done.
//
//go:norace
func Go(name string, f func()) *Handle {
	s := S
	h := &Handle{}
	newManaged(s, h, name)
	go func() {
		defer procExit(h)
		Y(0)
		f()
	}()
	return h
}

//go:norace
func newManaged(s *Sim, h *Handle, name string) {
	p := s.newProc()
	p.managed = true
	p.name = name
	s.live++
	s.resched = true
	h.p = p
	h.ID = int(p.id)
	runtime.SimSetChild(s.epoch<<16 | uint64(p.id))
}

// Handle identifies a managed goroutine.
type Handle struct {
	p    *proc
	ID   int
	done bool
	w    waitq
}

//go:norace
func procExit(h *Handle) {
	if r := recover(); r != nil {
		buf := make([]byte, 16384)
		buf = buf[:runtime.Stack(buf, false)]
		OnPanic(h.p.name, r, string(buf))
	}
	raceRelease(h)
	procExit2(h)
}

//go:norace
func procExit2(h *Handle) {
	s := S
	p := h.p
	h.done = true
	s.wakeAll(&h.w)
	p.st = stDone
	s.live--
	raceDisable()
	select {
	case s.notify <- struct{}{}:
	default:
	}
	raceEnable()
}

// Join waits for h.
//
//go:norace
func Join(h *Handle) {
	join(h)
	raceAcquire(h)
}

//go:norace
func join(h *Handle) {
	s := S
	Y(0)
	for !h.done {
		s.block(&h.w)
	}
}

// OnPanic and OnFatal are set by the harness.
var OnPanic = func(name string, r any, stack string) { panic(r) }
var OnFatal = func(class, msg string) { panic(class + ": " + msg) }

//go:norace
func Fatal(class, msg string) { OnFatal(class, msg) }

// TraceFn, when set, sees every step (debugging nondeterminism).
var TraceFn func(proc, site int32)

// Y is a yield point.
//
//go:norace
func Y(site int) {
	if !active {
		return
	}
	s := S
	p := s.self()
	if p == nil {
		return
	}
	p.site = int32(site)
	Hits[site&0xffff] = true
	p.local++
	if s.cur != p {
		p.park(s, stReady)
		s.reseed(p)
		return
	}
	if p.quiet > 0 {
		return
	}
	s.stats.Steps++
	if TraceFn != nil {
		TraceFn(p.id, int32(site))
	}
	if s.stats.Steps > s.capAt {
		s.overCap("no completion within the step cap, although every goroutine was scheduled fairly")
	}
	if s.wantSwitch(p, site) {
		s.vol = true
		p.park(s, stReady)
	}
	s.reseed(p)
}

// reseed ties the Go runtime's random choices (select and map order, timer
// ties) to the goroutine's position, so that what other code drew does not
// matter.
//
//go:norace
func (s *Sim) reseed(p *proc) {
	runtime.SimSeed(s.rtSeed ^ uint64(uint32(p.id))*0xd6e8feb86659fd93 ^ uint64(uint32(p.local))*0xa0761d6478bd642f)
}

//go:norace
func (s *Sim) wantSwitch(p *proc, site int) bool {
	c := &s.cfg
	if c.IsReplay {
		_, ok := s.replay[decKey{p.id, p.local, 0, true}]
		return ok
	}
	if s.stats.Steps > c.FairFrom {
		s.stats.Fair = true
		return s.rnd()&3 == 0
	}
	switch c.Policy {
	case PolPCT:
		for i := 0; i < c.Depth; i++ {
			if s.change[i] == s.stats.Steps {
				s.lowPrio--
				p.prio = s.lowPrio
				return true
			}
		}
		if s.resched {
			s.resched = false
			return true
		}
		// re-examine occasionally: goroutines woken by channels or timers
		return s.stats.Steps&63 == 0
	case PolSite:
		h := (uint64(site) + s.siteKey) * 0x9e3779b97f4a7c15
		h ^= h >> 29
		if h%8 == 0 {
			return s.rnd()&1 == 0
		}
		return s.rnd()%256 == 0
	case PolBurst:
		s.burst--
		if s.burst <= 0 {
			s.burst = 1 + s.intn(60)
			if s.rnd()&3 == 0 {
				s.burst = 1 + s.intn(4)
			}
			return true
		}
		return false
	default:
		return s.chance(c.PSwitch)
	}
}

// park gives up the token and waits to be granted it again.
//
//go:norace
func (p *proc) park(s *Sim, st state) {
	if st == stReady {
		s.makeReady(p)
	} else {
		p.st = st
	}
	raceDisable()
	if s.cur != p {
		select {
		case s.notify <- struct{}{}:
		default:
		}
	}
	<-p.wake
	raceEnable()
}

// Gosched yields in favour of any other goroutine.
//
//go:norace
func Gosched() {
	if !active {
		runtime.Gosched()
		return
	}
	s := S
	p := s.self()
	if p == nil {
		return
	}
	if s.cur == p {
		s.lowPrio--
		p.prio = s.lowPrio
		p.local++
		s.stats.Steps++
		if s.stats.Steps > s.capAt {
			s.overCap("no completion within the step cap (spinning)")
		}
		p.yieldHint(s)
		return
	}
	p.park(s, stReady)
}

var gosched *proc

//go:norace
func (p *proc) yieldHint(s *Sim) {
	gosched = p
	p.park(s, stReady)
}

// Sleep is time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	Y(0)
	time.Sleep(d)
	Y(0)
}

//go:norace
func Recv[T any](c <-chan T) T {
	Y(0)
	v := <-c
	Y(0)
	return v
}

//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	Y(0)
	v, ok := <-c
	Y(0)
	return v, ok
}

// --- wait queues for simulated locks

type waitq struct{ head *proc }

// WaitQ is used by simsync.
type WaitQ = waitq

//go:norace
func (s *Sim) block(q *waitq) {
	p := s.self()
	if p == nil {
		Fatal("infra", "blocking outside the simulation")
	}
	p.nextq = q.head
	q.head = p
	p.local++
	s.stats.LockBlocks++
	p.park(s, stLockWait)
}

//go:norace
func (s *Sim) wakeAll(q *waitq) {
	for p := q.head; p != nil; {
		n := p.nextq
		p.nextq = nil
		s.makeReady(p)
		p = n
		s.resched = true
	}
	q.head = nil
}

// Block parks the caller on q until WakeAll.
//
//go:norace
func Block(q *WaitQ) {
	if !active {
		panic("simrt: would block outside a simulation")
	}
	S.block(q)
}

//go:norace
func WakeAll(q *WaitQ) {
	if q.head != nil && active {
		S.wakeAll(q)
	}
}

// WakeOne wakes one waiter chosen by the seed.
//
//go:norace
func WakeOne(q *WaitQ) {
	if q.head == nil || !active {
		return
	}
	s := S
	n := 0
	for p := q.head; p != nil; p = p.nextq {
		n++
	}
	k := int(s.side() % uint64(n))
	pp := &q.head
	for ; k > 0; k-- {
		pp = &(*pp).nextq
	}
	p := *pp
	*pp = p.nextq
	p.nextq = nil
	s.makeReady(p)
	s.resched = true
}

// Coin draws a seeded boolean (simulated library nondeterminism, e.g. Pool).
//
//go:norace
func Coin() bool {
	if !active {
		return false
	}
	return S.side()&1 == 1
}

// side draws from a stream that does not depend on how the schedule was
// produced (search or replay), only on the seed and the caller's position.
//
//go:norace
func (s *Sim) side() uint64 {
	var a uint64
	if p := s.self(); p != nil {
		a = uint64(p.id)<<32 | uint64(uint32(p.local))
	}
	z := (a ^ s.cfg.Seed) * 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Seq returns the next global event number.
//
//go:norace
func Seq() int64 {
	S.seq++
	return S.seq
}

// Self returns the caller's id.
//
//go:norace
func Self() int {
	if !active {
		return 0
	}
	p := S.self()
	if p == nil {
		return 0
	}
	return int(p.id)
}

// Quiet runs f without preemption (harness bookkeeping through the SDK's API).
//
//go:norace
func Quiet(on bool) {
	p := S.self()
	if p == nil {
		return
	}
	if on {
		p.quiet++
	} else {
		p.quiet--
	}
}

// Run executes main and everything it starts; it must be called on the main
// goroutine of a synctest bubble.
//
//go:norace
func Run(cfg Config, main func()) Stats {
	s := setup(cfg)
	Go("main", main)
	runtime.SimSetChild(0)
	s.loop()
	return s.finish()
}

//go:norace
func setup(cfg Config) *Sim {
	epochN++
	s := &Sim{cfg: cfg, epoch: epochN, rng: cfg.Seed * 0xd1342543de82ef95, lowPrio: 1 << 31, procs: make([]*proc, 1, 64)}
	s.rnd()
	s.rec = recBuf[:0]
	s.notify = make(chan struct{}, 1)
	s.siteKey = s.rnd()
	s.stats.Hash = 14695981039346656037
	if s.cfg.StepCap == 0 {
		s.cfg.StepCap = 400000
	}
	s.capAt = s.cfg.StepCap
	if s.cfg.FairFrom == 0 {
		s.cfg.FairFrom = s.cfg.StepCap / 4
	}
	if s.cfg.MaxTime == 0 {
		s.cfg.MaxTime = 24 * time.Hour
	}
	est := s.cfg.EstSteps
	if est <= 0 {
		est = 2000
	}
	if s.cfg.Depth > len(s.change) {
		s.cfg.Depth = len(s.change)
	}
	for i := 0; i < s.cfg.Depth; i++ {
		s.change[i] = 1 + s.intn(est)
	}
	if cfg.IsReplay {
		s.replay = make(map[decKey]Dec, len(cfg.Replay))
		for _, d := range cfg.Replay {
			s.replay[decKey{d.P, d.L, d.N, d.V}] = d
		}
	}
	s.rtSeed = cfg.Seed ^ 0x5851f42d4c957f2d
	runtime.SimSeed(s.rtSeed)
	s.start = time.Now()
	S = s
	active = true
	gosched = nil
	return s
}

//go:norace
func (s *Sim) finish() Stats {
	active = false
	recBuf = s.rec
	s.stats.SimTime = time.Since(s.start)
	s.stats.Procs = int(s.n)
	return s.stats
}

// Push appends x without the runtime's slice functions, which report their
// accesses to the race detector.
//
//go:norace
func Push[T any](l []T, x T) []T {
	if n := len(l); n == cap(l) {
		m := make([]T, n, 2*n+8)
		for i := range l {
			m[i] = l[i]
		}
		l = m
	}
	l = l[:len(l)+1]
	l[len(l)-1] = x
	return l
}

// Recorded returns the recorded decisions of the current or last run.
//
//go:norace
func Recorded() []Dec {
	return append([]Dec(nil), S.rec[:S.nrec]...)
}

// Snapshot returns the statistics so far.
//
//go:norace
func Snapshot() Stats {
	st := S.stats
	st.SimTime = time.Since(S.start)
	st.Procs = int(S.n)
	return st
}

//go:norace
func (s *Sim) record(d Dec) {
	if s.nrec < maxRec {
		s.rec = Push(s.rec, d)
		s.nrec++
	}
}

//go:norace
func (s *Sim) mix(v uint64) {
	s.stats.Hash = (s.stats.Hash ^ v) * 1099511628211
}

//go:norace
func (s *Sim) loop() {
	raceDisable()
	var lp, ll, ln int32
	lv := false
	for {
		synctest.Wait()
		s.last = s.cur
		if s.cur != nil && s.cur.st == stRunning {
			// blocked in a channel operation, a timer, or gone
			s.cur.st = stNew
		}
		s.cur = nil
		if s.live == 0 {
			break
		}
		if time.Since(s.start) > s.cfg.MaxTime {
			Fatal("stuck", "the workload did not finish within the simulated time limit: "+s.describe())
		}
		// candidates
		cand := s.rdy
		nc := len(cand)
		if nc == 0 {
			select {
			case <-s.notify:
				continue
			default:
			}
			t := time.NewTimer(s.cfg.MaxTime + time.Hour)
			select {
			case <-s.notify:
				t.Stop()
			case <-t.C:
				Fatal("stuck", "deadlock, nothing can run: "+s.describe())
			}
			continue
		}
		// key of this decision
		vol := s.vol && s.last != nil
		var kp, kl int32
		if s.last != nil {
			kp, kl = s.last.id, s.last.local
		} else {
			kp, kl, vol = lp, ll, lv
		}
		s.vol = false
		if kp == lp && kl == ll && vol == lv {
			ln++
		} else {
			lp, ll, ln, lv = kp, kl, 0, vol
		}
		s.stats.Decisions++
		var next *proc
		if s.cfg.IsReplay {
			d, ok := s.replay[decKey{kp, kl, ln, vol}]
			if ok && d.Sleep > 0 {
				s.stall(kp, kl, ln, vol, time.Duration(d.Sleep))
				continue
			}
			if ok {
				for i := 0; i < nc; i++ {
					if cand[i].id == d.To {
						next = cand[i]
					}
				}
			}
			if next == nil {
				// default: keep running, else lowest id; but a spinning
				// goroutine must not be chosen over others
				for i := 0; i < nc; i++ {
					if cand[i] == s.last && s.last != gosched {
						next = s.last
					}
				}
				for i := 0; next == nil && i < nc; i++ {
					if cand[i] != gosched || nc == 1 {
						next = cand[i]
					}
				}
			}
		} else {
			if s.chance(s.cfg.PStall) {
				d := time.Duration(1)
				switch s.rnd() & 3 {
				case 0:
					d = time.Duration(1 + s.rnd()%1000)
				case 1:
					d = time.Duration(1 + s.rnd()%uint64(time.Millisecond))
				default:
					if s.cfg.StallMax > 0 {
						d = time.Duration(1 + s.rnd()%uint64(s.cfg.StallMax))
					}
				}
				s.stall(kp, kl, ln, vol, d)
				continue
			}
			switch {
			case s.cfg.Policy == PolPCT && s.stats.Steps <= s.cfg.FairFrom:
				next = cand[0]
				for i := 1; i < nc; i++ {
					if cand[i].prio > next.prio {
						next = cand[i]
					}
				}
			default:
				k := s.intn(nc)
				if cand[k] == gosched && nc > 1 {
					k = (k + 1) % nc
				}
				next = cand[k]
			}
		}
		gosched = nil
		s.resched = false
		if next != s.last {
			s.stats.Switches++
		}
		s.mix(uint64(next.id)<<32 | uint64(uint32(next.site)))
		s.record(Dec{P: kp, L: kl, N: ln, V: vol, To: next.id, Site: next.site})
		s.cur = next
		next.st = stRunning
		s.ready--
		for i := range s.rdy {
			if s.rdy[i] == next {
				for j := i + 1; j < len(s.rdy); j++ {
					s.rdy[j-1] = s.rdy[j]
				}
				s.rdy = s.rdy[:len(s.rdy)-1]
				break
			}
		}
		next.wake <- struct{}{}
	}
	raceEnable()
}

//go:norace
func (s *Sim) stall(kp, kl, ln int32, v bool, d time.Duration) {
	s.record(Dec{P: kp, L: kl, N: ln, V: v, Sleep: int64(d)})
	s.mix(uint64(d) | 1<<63)
	s.stats.Stalls++
	s.stats.StallTime += d
	time.Sleep(d)
}

// overCap: the step cap bounds a run, and a run with simulated time passing
// (timers, periodic work) the steps without progress of the clock, up to ten
// times the cap.
//
//go:norace
func (s *Sim) overCap(msg string) {
	now := Elapsed()
	if now > s.capTime && s.stats.Steps < 10*s.cfg.StepCap {
		s.capTime = now
		s.capAt = s.stats.Steps + s.cfg.StepCap
		return
	}
	if TraceFn != nil {
		msg = "after " + Elapsed().String() + ": " + s.describe()
	}
	Fatal("livelock", msg)
}

//go:norace
func (s *Sim) describe() string {
	out := ""
	for i := int32(1); i <= s.n; i++ {
		p := s.procs[i]
		if p.st == stDone {
			continue
		}
		st := [...]string{"blocked outside (channel/timer/gone)", "ready", "running", "waiting for a lock", "done"}[p.st]
		out += "[g" + itoa(int(p.id)) + " " + p.name + " " + st + " near site " + itoa(int(p.site)) + "] "
	}
	return out
}

//go:norace
func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b[i:])
}

// Elapsed is the simulated time since the run started.
//
//go:norace
func Elapsed() time.Duration { return time.Since(S.start) }
