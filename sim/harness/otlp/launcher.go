package otlp

import (
	"context"
	"fmt"
	"math"
	"os"
	"runtime/metrics"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/shirou/gopsutil/v3/cpu"
	"github.com/shirou/gopsutil/v3/mem"
	"github.com/shirou/gopsutil/v3/net"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	api "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"

	"github.com/open-telemetry/opentelemetry-collector-contrib/exporter/otelarrowexporter"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// LPlan is an application set up by the launcher.
type LPlan struct {
	NoSpans    bool       `json:"no_spans,omitempty"`
	NoMetrics  bool       `json:"no_metrics,omitempty"`
	SameEP     bool       `json:"same_ep,omitempty"`
	Token      int        `json:"token,omitempty"` // 0 none, 1 option, 2 environment, 3 both
	Hdr        int        `json:"hdr"`
	Tempo      int        `json:"tempo"` // index in tempos
	Period     int        `json:"period"`
	Res        int        `json:"res"`
	Insecure   int        `json:"insecure"` // bit 0 spans, bit 1 metrics
	Propagator int        `json:"prop"`
	SpanEnv    bool       `json:"env,omitempty"` // endpoints from the environment
	Debug      bool       `json:"debug,omitempty"`
	Scopes     int        `json:"scopes"`
	Work       [][]LOp    `json:"work"`
	Net        []NetFault `json:"net,omitempty"`
	RunMs      int        `json:"run_ms"`
	NoWait     bool       `json:"no_wait,omitempty"` // shut down while workers still run
	// From says where each setting comes from: 0 option, 1 environment, 2 both
	// (the option wins).
	From []int `json:"from,omitempty"`
	// Svc is where the service name comes from: as in From, 3 resource attributes
	// of the environment.
	Svc     int      `json:"svc,omitempty"`
	Ver     int      `json:"ver,omitempty"` // service version: 0 default, 1 option, 2 environment, 3 both
	ResEnv  int      `json:"res_env,omitempty"`
	Default bool     `json:"default,omitempty"` // default endpoints
	Libs    []string `json:"libs,omitempty"`    // built-in libraries; nil: disabled
	// Bad is what is wrong with the configuration.
	Bad   int  `json:"bad,omitempty"`
	Order bool `json:"order,omitempty"` // WithHeaders after WithAccessToken
	// connections that cannot be opened, or fail to close: bit 0 spans, bit 1 metrics
	NoOpen  int `json:"no_open,omitempty"`
	NoClose int `json:"no_close,omitempty"`
}

// wrong configurations
const (
	badNone = iota
	// found before anything is set up, ends the application
	badService
	badToken
	badEnv
	// found when the signal is set up, the other signal works
	badPeriod
	badPeriodSign
	badTempo
	badProps
	nBad
)

// settings in From
const (
	sPeriod = iota
	sTempo
	sInsecureS
	sInsecureM
	sProps
	sMetrics
	sBuiltins
	sLibs
	sLevel
	sHeaders
	nSettings
)

func (p *LPlan) from(s int) int {
	if s < len(p.From) {
		return p.From[s] % 3
	}
	return 0
}

// LOp is one span (I < 0) or one measurement.
type LOp struct {
	I   int `json:"i"`
	A   int `json:"a"`
	V   int `json:"v"`
	Gap int `json:"gap,omitempty"` // us
}

var tempos = []string{"", "cumulative", "delta", "lowmemory", "stateless", "Delta"}
var propagators = [][]string{nil, {"b3"}, {"tracecontext", "baggage"}, {"ottrace", "nonsense"}, {"nonsense", "tracecontext", "b3"}, {"baggage", "b3"}}

// llog is the application's logger.
type llog struct {
	e     *simh.Env
	exit  bool
	fatal []string
	debug []string
}

// exited is what a logger whose Fatalf ends the application throws.
type exited struct{}

func (l *llog) Fatalf(f string, v ...any) {
	l.fatal = append(l.fatal, fmt.Sprintf(f, v...))
	if l.exit {
		panic(exited{})
	}
}
func (l *llog) Debugf(f string, v ...any) { l.debug = append(l.debug, fmt.Sprintf(f, v...)) }

type lspan struct {
	name       string
	begun      bool
	ended      bool // before Shutdown was called
	sent, okd  int
	resA, scpA string
}

type lseries struct {
	name string
	attr string
	mono bool
	// done: sum of the measurements completed before Shutdown was called;
	// all: of all begun ones
	done, all int64
	// reported is the sum of the deltas, or the last cumulative value
	reported int64
	tempo    string
	seen     bool
	pend     int // measurements in progress
}

type lworld struct {
	e       *simh.Env
	p       *LPlan
	n       *network
	spans   map[string]*lspan
	series  map[string]*lseries
	pushT   []time.Duration
	stallAt []time.Duration
	wantRes string
	stopped bool
	spanEP  string
	metEP   string
	hdrs    map[string]string
	res     map[string]string
	libs    map[string]int // scopes of the built-in libraries: metrics reported
	libErrs map[string]int // unknown ones: errors reported
	// cut: an export was given up, as the error handler was told
	cut bool
	// closeErr: the error handler was told that a connection failed to close
	closeErr bool
}

func (w *lworld) handle(err error) {
	for l := range w.libErrs {
		if strings.Contains(err.Error(), l) {
			w.libErrs[l]++
			w.e.Count("unknown_builtin")
			return
		}
	}
	if strings.Contains(err.Error(), errClose.Error()) {
		w.closeErr = true
	}
	if !w.stopped && !(w.closeErr && w.p.NoClose != 0) {
		failed := false
		for _, pu := range w.n.pushes {
			failed = failed || pu.err != nil || pu.end == 0 || pu.end-pu.begin > time.Second // slow ones run into time limits
		}
		if !failed && simrt.Snapshot().StallTime == 0 {
			w.e.Fail("error", "no request failed, but the error handler is given %q", err)
		}
	}
	w.e.Count("handled_error")
	if s := err.Error(); strings.Contains(s, "cancel") || strings.Contains(s, "deadline") {
		w.cut = true
		w.e.Count("export_given_up")
	}
}

func lres(i int) map[string]string {
	switch i % 5 {
	case 1:
		return map[string]string{"host.name": "h", "team": "blue"}
	case 2:
		return map[string]string{"host.name": "host", "service.version": "7", "empty": ""}
	case 3:
		return map[string]string{"host.name": "", "team": "green"}
	case 4:
		return map[string]string{"service.name": "", "team": "0"}
	}
	return map[string]string{"host.name": "h"}
}

var resEnvs = []map[string]string{nil, {"team": "red", "zone": "z"}, {"host.name": "e"}, {"host.name": "", "zone": "1"}, {"service.version": "e9", "host.name": "envhost"}}

var lenv = []string{"LS_ACCESS_TOKEN", "OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", "OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", "LS_SERVICE_NAME", "LS_SERVICE_VERSION",
	"OTEL_EXPORTER_OTLP_HEADERS", "OTEL_EXPORTER_OTLP_METRIC_PERIOD", "OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", "OTEL_EXPORTER_OTLP_SPAN_INSECURE",
	"OTEL_EXPORTER_OTLP_METRIC_INSECURE", "OTEL_PROPAGATORS", "LS_METRICS_ENABLED", "LS_METRICS_BUILTINS_ENABLED", "LS_METRICS_BUILTIN_LIBRARIES", "OTEL_LOG_LEVEL",
	"OTEL_RESOURCE_ATTRIBUTES", "OTEL_SERVICE_NAME"}

func sortedPairs(m map[string]string, sep, end string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+sep+v)
	}
	sort.Strings(l)
	return strings.Join(l, end)
}

// configure makes the options and the environment.
func (w *lworld) configure(log *llog) (opts []launcher.Option, check func()) {
	p := w.p
	add := func(o launcher.Option) { opts = append(opts, o) }
	// set gives one setting its value, by option, environment or both
	set := func(s int, env, val, other string, o launcher.Option) {
		switch p.from(s) {
		case 1:
			os.Setenv(env, val)
			return
		case 2:
			os.Setenv(env, other)
		}
		add(o)
	}
	add(launcher.WithLogger(log))
	add(launcher.WithErrorHandler(otel.ErrorHandlerFunc(w.handle)))

	// identity
	w.res = map[string]string{"service.version": "unknown"}
	renv := map[string]string{}
	for k, v := range resEnvs[p.ResEnv%len(resEnvs)] {
		renv[k] = v
		w.res[k] = v
	}
	if p.Bad != badService {
		switch p.Svc % 4 {
		case 0:
			add(launcher.WithServiceName("svc"))
		case 1:
			os.Setenv("LS_SERVICE_NAME", "svc")
		case 2:
			os.Setenv("LS_SERVICE_NAME", "envsvc")
			add(launcher.WithServiceName("svc"))
		case 3:
			renv["service.name"] = "svc"
		}
		w.res["service.name"] = "svc"
	}
	if len(renv) > 0 {
		os.Setenv("OTEL_RESOURCE_ATTRIBUTES", sortedPairs(renv, "=", ","))
	}
	w.res["service.version"] = "unknown" // even if the environment's attributes have one
	if p.Ver&2 != 0 {
		os.Setenv("LS_SERVICE_VERSION", "v-env")
		w.res["service.version"] = "v-env"
	}
	if p.Ver&1 != 0 {
		add(launcher.WithServiceVersion("v1"))
		w.res["service.version"] = "v1"
	}
	attrs := lres(p.Res)
	add(launcher.WithResourceAttributes(attrs))
	for k, v := range attrs {
		if v != "" {
			w.res[k] = v
		}
	}
	if w.res["host.name"] == "" {
		delete(w.res, "host.name")
		if h, err := os.Hostname(); err == nil {
			w.res["host.name"] = h
		}
	}

	// headers
	hdrs := map[string]string{}
	for k, v := range hdrSets[p.Hdr%len(hdrSets)] {
		hdrs[k] = v
	}
	w.hdrs = map[string]string{}
	if p.from(sHeaders) == 1 {
		os.Setenv("OTEL_EXPORTER_OTLP_HEADERS", "a:env,c:3")
		w.hdrs["a"], w.hdrs["c"] = "env", "3"
	}
	if p.Bad == badToken {
		delete(hdrs, "lightstep-access-token")
	}
	if !p.Order {
		add(launcher.WithHeaders(hdrs))
	}
	for k, v := range hdrs {
		w.hdrs[k] = v
	}
	tok := p.Token
	if p.Default && p.Bad != badToken && tok == 0 {
		tok = 1
	}
	if p.Bad == badToken {
		tok = 0
	}
	if tok&2 != 0 {
		os.Setenv("LS_ACCESS_TOKEN", "envtok")
		if w.hdrs["lightstep-access-token"] == "" {
			w.hdrs["lightstep-access-token"] = "envtok"
		}
	}
	if tok&1 != 0 {
		add(launcher.WithAccessToken("opttok"))
		if !p.Order || hdrs["lightstep-access-token"] == "" {
			w.hdrs["lightstep-access-token"] = "opttok"
		}
	}
	if p.Order {
		add(launcher.WithHeaders(hdrs))
	}
	check = func() {
		want := map[string]string{}
		for k, v := range hdrSets[p.Hdr%len(hdrSets)] {
			if p.Bad != badToken || k != "lightstep-access-token" {
				want[k] = v
			}
		}
		if sortedPairs(want, "=", ",") != sortedPairs(hdrs, "=", ",") || sortedPairs(attrs, "=", ",") != sortedPairs(lres(p.Res), "=", ",") {
			w.e.Fail("modified", "the launcher changed the maps it was given: headers %v, attributes %v", hdrs, attrs)
		}
	}

	// signals
	if !p.Default && p.Bad != badToken {
		if p.SpanEnv {
			os.Setenv("OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", w.spanEP)
			os.Setenv("OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", w.metEP)
		} else {
			add(launcher.WithSpanExporterEndpoint(w.spanEP))
			add(launcher.WithMetricExporterEndpoint(w.metEP))
		}
	}
	if p.Bad == badToken && p.SameEP { // only spans go to the default endpoint
		add(launcher.WithMetricExporterEndpoint("metrics:443"))
	} else if p.Bad == badToken && p.SpanEnv && !p.NoMetrics { // only metrics
		add(launcher.WithSpanExporterEndpoint("spans:443"))
	}
	if p.NoSpans {
		add(launcher.WithSpanExporterEndpoint(""))
	}
	not := func(b bool) string { return fmt.Sprint(!b) }
	set(sMetrics, "LS_METRICS_ENABLED", fmt.Sprint(!p.NoMetrics), not(!p.NoMetrics), launcher.WithMetricsEnabled(!p.NoMetrics))
	set(sInsecureS, "OTEL_EXPORTER_OTLP_SPAN_INSECURE", fmt.Sprint(p.Insecure&1 != 0), not(p.Insecure&1 != 0), launcher.WithSpanExporterInsecure(p.Insecure&1 != 0))
	set(sInsecureM, "OTEL_EXPORTER_OTLP_METRIC_INSECURE", fmt.Sprint(p.Insecure&2 != 0), not(p.Insecure&2 != 0), launcher.WithMetricExporterInsecure(p.Insecure&2 != 0))
	set(sBuiltins, "LS_METRICS_BUILTINS_ENABLED", fmt.Sprint(p.Libs != nil), not(p.Libs != nil), launcher.WithMetricsBuiltinsEnabled(p.Libs != nil))
	if p.Libs != nil && strings.Join(p.Libs, ",") != "all:stable" { // the default
		set(sLibs, "LS_METRICS_BUILTIN_LIBRARIES", strings.Join(p.Libs, ","), "host,junk", launcher.WithMetricsBuiltinLibraries(p.Libs))
	}
	per := func(d time.Duration) {
		set(sPeriod, "OTEL_EXPORTER_OTLP_METRIC_PERIOD", d.String(), "123ms", launcher.WithMetricReportingPeriod(d))
	}
	switch {
	case p.Bad == badPeriod:
		os.Setenv("OTEL_EXPORTER_OTLP_METRIC_PERIOD", "often")
	case p.Bad == badPeriodSign:
		per(-ms(p.Period % 2 * 1000))
	case p.Period > 0:
		per(ms(p.Period))
	}
	tempo := ""
	if p.Tempo > 0 {
		tempo = tempos[p.Tempo%len(tempos)]
	}
	if p.Bad == badTempo {
		tempo = "sometimes"
	}
	if tempo != "" {
		set(sTempo, "OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", tempo, "delta", launcher.WithMetricExporterTemporalityPreference(tempo))
	}
	props := w.props()
	if props != nil {
		set(sProps, "OTEL_PROPAGATORS", strings.Join(props, ","), "baggage", launcher.WithPropagators(props))
	}
	if p.Debug {
		set(sLevel, "OTEL_LOG_LEVEL", "debug", "info", launcher.WithLogLevel("debug"))
	}
	if p.Bad == badEnv {
		os.Setenv("LS_METRICS_ENABLED", "perhaps")
	}
	return opts, check
}

func (w *lworld) props() []string {
	if w.p.Bad == badProps {
		return []string{"nonsense", "b4"}
	}
	return propagators[w.p.Propagator%len(propagators)]
}

func sources(e *simh.Env) {
	kinds := map[string]metrics.ValueKind{}
	var all []metrics.Description
	metrics.SimAll = nil
	for _, d := range metrics.All() {
		switch d.Name { // long known ones
		case "/gc/cycles/automatic:gc-cycles", "/gc/cycles/forced:gc-cycles", "/gc/cycles/total:gc-cycles", "/gc/heap/allocs:bytes", "/gc/heap/allocs:objects", "/gc/heap/goal:bytes", "/sched/goroutines:goroutines":
			all = append(all, d)
			kinds[d.Name] = d.Kind
		}
	}
	metrics.SimAll = func() []metrics.Description { return all }
	metrics.SimRead = func(m []metrics.Sample) {
		for x := range m {
			if k := kinds[m[x].Name]; k == metrics.KindFloat64 {
				m[x].Value = metrics.SimValue(k, math.Float64bits(float64(x)))
			} else {
				m[x].Value = metrics.SimValue(metrics.KindUint64, uint64(x))
			}
		}
		simrt.Y(0)
	}
	cpu.SimHook = func(ctx context.Context, percpu bool) ([]cpu.TimesStat, error) {
		simrt.Y(0)
		return []cpu.TimesStat{{CPU: "cpu-total", User: 1, System: 2, Idle: 3}}, nil
	}
	mem.SimHook = func(ctx context.Context) (*mem.VirtualMemoryStat, error) {
		simrt.Y(0)
		return &mem.VirtualMemoryStat{Total: 1 << 20, Used: 1000, Available: 3000}, nil
	}
	net.SimHook = func(ctx context.Context, pernic bool) ([]net.IOCountersStat, error) {
		simrt.Y(0)
		return []net.IOCountersStat{{Name: "all", BytesSent: 100, BytesRecv: 200}}, nil
	}
	syscall.SimGetrusage = func(who int, ru *syscall.Rusage) error {
		simrt.Y(0)
		*ru = syscall.Rusage{Utime: syscall.Timeval{Sec: 2, Usec: 250000}, Stime: syscall.Timeval{Sec: 3}}
		return nil
	}
}

// builtin scopes by library
var libScopes = map[string]string{"host": "otel_launcher_go/host", "runtime": "otel-launcher-go/runtime", "cputime": "otel_launcher_go/cputime"}

// libraries: the scopes that must be reported and the entries that must be
// reported as unknown.
func (w *lworld) libraries() {
	w.libs, w.libErrs = map[string]int{}, map[string]int{}
	if w.p.NoMetrics {
		return
	}
	for _, l := range w.p.Libs {
		name, ver, _ := strings.Cut(l, ":")
		switch {
		case ver != "" && ver != "stable":
			w.libErrs[ver] = 0
		case name == "all":
			for _, s := range libScopes {
				w.libs[s] = 0
			}
		case libScopes[name] != "":
			w.libs[libScopes[name]] = 0
		default:
			w.libErrs[name] = 0
		}
	}
}

func runLauncher(e *simh.Env, p *LPlan) {
	handled = nil
	attrSets = newAttrSets()
	q := *p // the run turns signals off
	p = &q
	w := &lworld{e: e, p: p, n: newNetwork(e, p.Net), spans: map[string]*lspan{}, series: map[string]*lseries{}, spanEP: "spans:443", metEP: "metrics:443"}
	w.n.strict = false
	w.n.raw = w
	sources(e)
	defer func() {
		metrics.SimAll, metrics.SimRead, cpu.SimHook, mem.SimHook, net.SimHook, syscall.SimGetrusage = nil, nil, nil, nil, nil, nil
		for _, v := range lenv {
			os.Unsetenv(v)
		}
	}()
	if p.SameEP {
		w.metEP = w.spanEP
	}
	if p.Default {
		w.spanEP, w.metEP = launcher.DefaultSpanExporterEndpoint, launcher.DefaultMetricExporterEndpoint
	}
	for _, ep := range []string{w.spanEP, w.metEP} {
		w.n.maxSize[ep] = 1500
		w.n.timeout[ep] = 15 * time.Second
	}
	for _, v := range lenv {
		os.Unsetenv(v)
	}
	if p.Bad == badToken && p.NoSpans {
		p.NoSpans = false
	}
	if p.Bad >= badPeriod && p.Bad <= badTempo && p.NoMetrics || p.Bad == badProps && p.NoSpans {
		p.Bad = badNone // nothing to be wrong with
	}
	log := &llog{e: e, exit: p.Bad != badNone && p.Bad < badPeriod}
	for i, k := range []string{w.spanEP + "/traces", w.metEP + "/metrics"} {
		w.n.failOpen[k] = p.NoOpen>>i&1 == 1
		w.n.failClose[k] = p.NoClose>>i&1 == 1
	}
	opts, check := w.configure(log)
	w.wantResource()
	w.libraries()
	l, done := w.launch(opts)
	check()
	if log.exit {
		e.Count("rejected")
		if done || len(log.fatal) == 0 || len(w.n.starts) > 0 {
			e.Fail("fatal", "the configuration is invalid (case %d): connections %v were opened, reported was %q", p.Bad, w.n.starts, log.fatal)
		}
		return
	}
	if p.NoSpans || p.Bad == badProps {
		p.NoOpen &^= 1
	}
	if p.NoMetrics || p.Bad >= badPeriod && p.Bad <= badTempo {
		p.NoOpen &^= 2
	}
	if (len(log.fatal) > 0) != (p.Bad != badNone || p.NoOpen != 0) {
		e.Fail("fatal", "the configuration is valid except for case %d and connections (%d) that cannot be opened, the launcher reports %q", p.Bad, p.NoOpen, log.fatal)
	}
	if p.NoOpen != 0 {
		e.Count("fault_open_error")
	}
	p.NoSpans = p.NoSpans || p.NoOpen&1 != 0
	if p.NoOpen&2 != 0 {
		p.NoMetrics = true
		w.libraries()
	}
	switch p.Bad {
	case badProps:
		p.NoSpans = true
	case badPeriod, badPeriodSign, badTempo:
		p.NoMetrics = true
		w.libraries()
	}
	log.fatal = nil
	for _, l := range sortedKeys(w.libErrs) {
		if n := w.libErrs[l]; n == 0 {
			e.Fail("builtins", "the unknown built-in library %q is not reported", l)
		}
	}
	if !p.NoSpans {
		w.propagation(w.props())
	}
	var hs []*simrt.Handle
	for wi, ops := range p.Work {
		wi, ops := wi, ops
		hs = append(hs, simrt.Go("worker", func() { w.work(wi, ops) }))
	}
	if !p.NoWait {
		for _, h := range hs {
			simrt.Join(h)
		}
	}
	simrt.Sleep(ms(p.RunMs))
	w.periods()
	w.stopped = true
	e.Count("shutdown")
	t0, st0 := simrt.Elapsed(), simrt.Snapshot().StallTime
	l.Shutdown()
	d, st := simrt.Elapsed()-t0, simrt.Snapshot().StallTime-st0
	// every request takes at most 15 s and waits at most 1 s to be batched;
	// spans may be exported one by one
	if lim := 80*time.Second + time.Duration(len(w.spans))*16*time.Second + st; d > lim {
		e.Fail("slow", "Shutdown took %v", d)
	}
	shut := len(w.n.pushes)
	for _, pu := range w.n.pushes {
		if pu.end == 0 {
			e.Fail("shutdown-in-flight", "Shutdown returned while request %d is in progress", pu.n)
		}
	}
	w.verify(log)
	for _, h := range hs {
		simrt.Join(h)
	}
	simrt.Sleep(100 * time.Second)
	if len(w.n.pushes) != shut {
		e.Fail("push-after-shutdown", "%d requests after Shutdown returned", len(w.n.pushes)-shut)
	}
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// launch sets the application up; done is false if the logger ended it.
func (w *lworld) launch(opts []launcher.Option) (l launcher.Launcher, done bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(exited); !ok {
				panic(r)
			}
		}
	}()
	l = launcher.ConfigureOpentelemetry(opts...)
	return l, true
}

// wantResource is the resource every request must carry, apart from the version
// of the launcher.
func (w *lworld) wantResource() {
	m := map[string]string{"telemetry.sdk.name": "launcher", "telemetry.sdk.language": "go", "telemetry.distro.name": "lightstep"}
	for k, v := range w.res {
		m[k] = v
	}
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%q=s%q,", k, v))
	}
	sort.Strings(ks)
	w.wantRes = strings.Join(ks, "")
}

func gotRes(m pcommon.Map) string {
	c := pcommon.NewMap()
	m.CopyTo(c)
	c.Remove("telemetry.sdk.version")
	c.Remove("telemetry.distro.version")
	return gotAttrs(c)
}

func (w *lworld) propagation(props []string) {
	want := map[string]bool{}
	if props == nil {
		props = []string{"b3"}
	}
	for _, p := range props {
		for _, f := range map[string][]string{"b3": {"x-b3-traceid", "x-b3-spanid", "x-b3-sampled", "x-b3-flags"}, "tracecontext": {"traceparent", "tracestate"}, "baggage": {"baggage"}, "ottrace": {"ot-tracer-traceid", "ot-tracer-spanid", "ot-tracer-sampled"}}[p] {
			want[f] = true
		}
	}
	got := map[string]bool{}
	for _, f := range otel.GetTextMapPropagator().Fields() {
		got[strings.ToLower(f)] = true
	}
	if fmt.Sprint(want) != fmt.Sprint(got) {
		w.e.Fail("propagators", "propagators %v give fields %v, want %v", props, got, want)
	}
	ctx, sp := otel.Tracer("propagation").Start(context.Background(), "propagate")
	c := propagation.MapCarrier{}
	otel.GetTextMapPropagator().Inject(ctx, c)
	ok := false
	for _, v := range c {
		if strings.Contains(v, sp.SpanContext().SpanID().String()) {
			ok = true
		}
	}
	if !ok {
		w.e.Fail("propagators", "propagators %v inject nothing about the current span", props)
	}
	w.spans["propagate/0"] = &lspan{name: "propagate/0", begun: true, ended: true}
	sp.SetAttributes(attribute.Int("seq", 0))
	sp.End()
}

var lkinds = []string{"c", "f", "u", "h"}

func (w *lworld) work(wi int, ops []LOp) {
	ctx := context.Background()
	for k, op := range ops {
		if op.Gap > 0 {
			simrt.Sleep(time.Duration(op.Gap) * time.Microsecond)
		}
		sc := fmt.Sprintf("lib%d", op.A%max(1, w.p.Scopes))
		if op.I < 0 {
			name := fmt.Sprintf("work%d", wi)
			s := &lspan{name: fmt.Sprintf("%s/%d", name, k), begun: true}
			w.spans[s.name] = s
			_, sp := otel.Tracer(sc).Start(ctx, name)
			sp.SetAttributes(attribute.Int("seq", k))
			sp.End()
			s.ended = !w.stopped
			w.e.Count("span")
			continue
		}
		kind := op.I % len(lkinds)
		at := attribute.Int("a", op.A%3)
		key := fmt.Sprintf("%s %s %d", sc, lkinds[kind], op.A%3)
		s := w.series[key]
		if s == nil {
			s = &lseries{name: key, mono: kind != 2}
			w.series[key] = s
		}
		m := otel.Meter(sc)
		v := int64(op.V)
		if kind == 2 {
			v -= 50
		}
		s.all += abs(v)
		before := !w.stopped
		s.pend++
		switch kind {
		case 0:
			x, err := m.Int64Counter("c")
			w.ok(err)
			x.Add(ctx, v, api.WithAttributes(at))
		case 1:
			x, err := m.Float64Counter("f")
			w.ok(err)
			x.Add(ctx, float64(v), api.WithAttributes(at))
		case 2:
			x, err := m.Int64UpDownCounter("u")
			w.ok(err)
			x.Add(ctx, v, api.WithAttributes(at))
		case 3:
			x, err := m.Float64Histogram("h")
			w.ok(err)
			x.Record(ctx, float64(v), api.WithAttributes(at))
		}
		if before && !w.stopped {
			s.done += v
		} else {
			s.late()
		}
		s.pend--
		w.e.Count("measurement")
	}
}

// late marks a series measured during or after Shutdown: its total is not known.
func (s *lseries) late() { s.tempo = "late" }

func (w *lworld) ok(err error) {
	if err != nil {
		w.e.Fail("instrument", "%v", err)
	}
}

// periods checks that exports kept to the period while there was something to
// report and no fault.
func (w *lworld) periods() {
	if w.p.NoMetrics || len(w.p.Net) > 0 || simrt.Snapshot().StallTime > 0 {
		return
	}
	period := 30 * time.Second
	if w.p.Period > 0 {
		period = ms(w.p.Period)
	}
	now, n := simrt.Elapsed(), 0
	for _, pu := range w.n.pushes {
		if pu.signal == "metrics" {
			n++
		}
	}
	w.e.Count("period_checked")
	last := time.Duration(0)
	for i, t := range w.pushT {
		if d := t - last; d < period-time.Second && i > 0 {
			w.e.Fail("period", "metrics are reported after %v, the period is %v", d, period)
		}
		last = t
	}
	if n > 0 && !w.deltaPref() { // cumulative: every period has something to report
		if d := now - last; d > period+2*time.Second {
			w.e.Fail("period", "no metrics for %v, the period is %v", d, period)
		}
	}
}

func (w *lworld) deltaPref() bool { return w.p.Tempo%len(tempos) >= 2 }

// rawTraces and rawMetrics see every request.
func (w *lworld) rawTraces(cfg *otelarrowexporter.Config, td ptrace.Traces) (done func(error)) {
	w.common(cfg, w.spanEP, w.p.Insecure&1 != 0, w.p.NoSpans)
	var in []*lspan
	for i := 0; i < td.ResourceSpans().Len(); i++ {
		rs := td.ResourceSpans().At(i)
		if r := gotRes(rs.Resource().Attributes()); r != w.wantRes {
			w.e.Fail("resource", "spans carry the resource {%s}, configured {%s}", r, w.wantRes)
		}
		for j := 0; j < rs.ScopeSpans().Len(); j++ {
			ss := rs.ScopeSpans().At(j)
			for k := 0; k < ss.Spans().Len(); k++ {
				sp := ss.Spans().At(k)
				if sn := ss.Scope().Name(); !strings.HasPrefix(sn, "lib") && sn != "propagation" {
					continue // the SDK's own
				}
				seq, _ := sp.Attributes().Get("seq")
				key := fmt.Sprintf("%s/%d", sp.Name(), seq.Int())
				s := w.spans[key]
				if s == nil {
					w.e.Fail("corrupt", "span %q of scope %q was never made", key, ss.Scope().Name())
				}
				if s.sent++; s.sent > 1 {
					w.e.Fail("duplicate", "span %s is sent %d times", key, s.sent)
				}
				in = append(in, s)
			}
		}
	}
	return func(err error) {
		if err == nil {
			for _, s := range in {
				s.okd++
			}
		}
	}
}

func (w *lworld) rawMetrics(cfg *otelarrowexporter.Config, md pmetric.Metrics) (done func(error)) {
	w.common(cfg, w.metEP, w.p.Insecure&2 != 0, w.p.NoMetrics)
	w.pushT = append(w.pushT, simrt.Elapsed())
	for i := 0; i < md.ResourceMetrics().Len(); i++ {
		rm := md.ResourceMetrics().At(i)
		if r := gotRes(rm.Resource().Attributes()); r != w.wantRes {
			w.e.Fail("resource", "metrics carry the resource {%s}, configured {%s}", r, w.wantRes)
		}
		for j := 0; j < rm.ScopeMetrics().Len(); j++ {
			sm := rm.ScopeMetrics().At(j)
			if sn := sm.Scope().Name(); !strings.HasPrefix(sn, "lib") {
				if _, ok := w.libs[sn]; ok {
					w.libs[sn] += sm.Metrics().Len()
					for k := 0; k < sm.Metrics().Len(); k++ {
						w.builtinTempo(sm.Metrics().At(k))
					}
					continue
				}
				for _, s := range libScopes {
					if s == sn {
						w.e.Fail("builtins", "metrics of %q are reported, the built-in libraries are %q", sn, w.p.Libs)
					}
				}
				continue
			}
			for k := 0; k < sm.Metrics().Len(); k++ {
				w.point(sm.Scope().Name(), sm.Metrics().At(k))
			}
		}
	}
	return func(error) {}
}

// builtinTempo: the built-in metrics are observable; only the preference for
// delta applies to them.
func (w *lworld) builtinTempo(m pmetric.Metric) {
	if m.Type() != pmetric.MetricTypeSum {
		return
	}
	want := pmetric.AggregationTemporalityCumulative
	if t := tempos[w.p.Tempo%len(tempos)]; m.Sum().IsMonotonic() && strings.ToLower(t) == "delta" {
		want = pmetric.AggregationTemporalityDelta
	}
	if t := m.Sum().AggregationTemporality(); t != want {
		w.e.Fail("temporality", "observable %s is reported as %v, preference is %q", m.Name(), t, tempos[w.p.Tempo%len(tempos)])
	}
}

func (w *lworld) point(scope string, m pmetric.Metric) {
	add := func(at pcommon.Map, t pmetric.AggregationTemporality, v int64) {
		a, _ := at.Get("a")
		key := fmt.Sprintf("%s %s %d", scope, m.Name(), a.Int())
		s := w.series[key]
		if s == nil {
			w.e.Fail("corrupt", "series %q was never measured", key)
		}
		want := pmetric.AggregationTemporalityCumulative
		if m.Name() != "u" && w.deltaPref() {
			want = pmetric.AggregationTemporalityDelta
		}
		if t != want {
			w.e.Fail("temporality", "%s is reported as %v, preference is %q", key, t, tempos[w.p.Tempo%len(tempos)])
		}
		if t == pmetric.AggregationTemporalityDelta {
			s.reported += v
		} else {
			if s.mono && v < s.reported {
				w.e.Fail("lost", "%s: total %d after %d", key, v, s.reported)
			}
			s.reported = v
		}
		if s.mono && s.reported > s.all {
			w.e.Fail("duplicate", "%s: %d reported, only %d measured", key, s.reported, s.all)
		}
		s.seen = true
	}
	switch m.Type() {
	case pmetric.MetricTypeSum:
		for x := 0; x < m.Sum().DataPoints().Len(); x++ {
			dp := m.Sum().DataPoints().At(x)
			v := dp.IntValue()
			if dp.ValueType() == pmetric.NumberDataPointValueTypeDouble {
				v = int64(dp.DoubleValue())
			}
			add(dp.Attributes(), m.Sum().AggregationTemporality(), v)
		}
	case pmetric.MetricTypeExponentialHistogram:
		h := m.ExponentialHistogram()
		for x := 0; x < h.DataPoints().Len(); x++ {
			add(h.DataPoints().At(x).Attributes(), h.AggregationTemporality(), int64(h.DataPoints().At(x).Sum()))
		}
	default:
		w.e.Fail("corrupt", "metric %q of type %v", m.Name(), m.Type())
	}
}

func (w *lworld) common(cfg *otelarrowexporter.Config, ep string, insecure, off bool) {
	if off {
		w.e.Fail("disabled", "a request to %s, which is disabled (opened %v)", cfg.Endpoint, w.n.starts)
	}
	if cfg.Endpoint != ep {
		w.e.Fail("endpoint", "a request goes to %s, configured is %s", cfg.Endpoint, ep)
	}
	if cfg.ClientConfig.TLSSetting.Insecure != insecure {
		w.e.Fail("tls", "%s: insecure is %v, configured %v", ep, cfg.ClientConfig.TLSSetting.Insecure, insecure)
	}
	if got, want := headers(cfg), sortedPairs(w.hdrs, "=", ","); got != want {
		w.e.Fail("headers", "%s: headers %q, configured %q", ep, got, want)
	}
}

func (w *lworld) verify(log *llog) {
	e, p := w.e, w.p
	want := map[string]int{}
	if !p.NoSpans {
		want[w.spanEP+"/traces"] = 1
	}
	if !p.NoMetrics {
		want[w.metEP+"/metrics"] = 1
	}
	if p.Bad == badProps { // nothing is sent, but a connection may be opened and closed
		for _, s := range w.n.stops {
			if s == w.spanEP+"/traces" {
				want[s] = 1
			}
		}
	}
	for _, l := range [][]string{w.n.starts, w.n.stops} {
		got := map[string]int{}
		for _, s := range l {
			got[s]++
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			e.Fail("shutdown", "connections opened %v and closed %v, want each of %v", w.n.starts, w.n.stops, want)
		}
	}
	if !p.NoSpans {
		var ks []string
		for k := range w.spans {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if s := w.spans[k]; s.ended && s.sent != 1 {
				e.Fail("lost", "span %s ended before Shutdown was called, but was not sent", k)
			}
		}
	}
	if !p.NoMetrics && !w.cut {
		for _, l := range sortedKeys(w.libs) {
			if w.libs[l] == 0 {
				e.Fail("builtins", "no metrics of %q were reported, the built-in libraries are %q", l, p.Libs)
			}
		}
		var ks []string
		for k := range w.series {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if s := w.series[k]; s.tempo != "late" && s.pend == 0 && s.reported != s.done {
				e.Fail("lost", "%s: %d measured before Shutdown was called, %d reported", k, s.done, s.reported)
			}
		}
	}
	for i, on := range []bool{!p.NoSpans, !p.NoMetrics} {
		if on && p.NoClose>>i&1 == 1 {
			e.Count("fault_close_error")
			if !w.closeErr && !strings.Contains(fmt.Sprint(log.fatal), errClose.Error()) {
				e.Fail("close-error", "a connection failed to close, neither the logger nor the error handler is told")
			}
			return
		}
	}
	// failures of the network must surface
	failed := false
	for _, pu := range w.n.pushes {
		failed = failed || pu.err != nil
	}
	if !failed && len(log.fatal) > 0 {
		e.Fail("fatal", "no request failed, but the launcher reports %q", log.fatal)
	}
}

var libSets = [][]string{{"all:stable"}, {"all"}, {"host"}, {"cputime:stable", "runtime"}, {"runtime:stable"}, {"nonsense"}, {"host:v9", "cputime"}, {"runtime", "nonsense", "host:v9", "host"}, {}}

func genL(r *simh.Rand) any {
	p := &LPlan{NoSpans: r.P(0.15), NoMetrics: r.P(0.15), SameEP: r.P(0.3), Token: r.Intn(4), Hdr: r.Intn(len(hdrSets)), Tempo: r.Intn(len(tempos)),
		Res: r.Intn(3), Insecure: r.Intn(4), Propagator: r.Intn(len(propagators)), SpanEnv: r.P(0.3), Debug: r.P(0.1), Scopes: r.Range(1, 3), NoWait: r.P(0.3)}
	if r.P(0.7) {
		p.Period = r.Range(3000, 60000)
	}
	for i := 0; i < nSettings; i++ {
		p.From = append(p.From, r.Intn(3))
	}
	p.Svc, p.Ver, p.ResEnv, p.Res = r.Intn(4), r.Intn(4), r.Intn(len(resEnvs)), r.Intn(5)
	p.Default = r.P(0.2)
	if r.P(0.4) {
		p.Libs = libSets[r.Intn(len(libSets))]
	}
	p.Order = r.P(0.3)
	if r.P(0.1) {
		p.Bad = r.Range(1, nBad-1)
	}
	if r.P(0.1) {
		p.NoOpen = r.Range(1, 3)
	}
	if r.P(0.1) {
		p.NoClose = r.Range(1, 3)
	}
	p.RunMs = r.Range(0, 2000)
	if r.P(0.5) {
		p.RunMs = r.Range(0, 100000)
	}
	p.Net = genNet(r, 20000)
	for i := r.Range(1, 3); i > 0; i-- {
		var ops []LOp
		for k := r.Range(1, 14); k > 0; k-- {
			op := LOp{I: r.Range(-4, 3), A: r.Intn(6), V: r.Range(1, 99)}
			if r.P(0.5) {
				op.Gap = r.Range(1, 2000)
				if r.P(0.4) {
					op.Gap = r.Range(1, 10000000)
				}
			}
			ops = append(ops, op)
		}
		p.Work = append(p.Work, ops)
	}
	return p
}

// genCfg draws short applications with any configuration.
func genCfg(r *simh.Rand) any {
	p := genL(r).(*LPlan)
	if p.Bad == badNone && r.P(0.4) {
		p.Bad = r.Range(1, nBad-1)
	}
	p.Net, p.NoWait = nil, false
	if len(p.Work) > 1 {
		p.Work = p.Work[:1]
	}
	for i, ops := range p.Work {
		if len(ops) > 4 {
			p.Work[i] = ops[:4]
		}
	}
	return p
}
