package otlp

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/open-telemetry/opentelemetry-collector-contrib/exporter/otelarrowexporter"
	"github.com/open-telemetry/opentelemetry-collector-contrib/exporter/prometheusexporter"
	"go.opentelemetry.io/collector/consumer/consumererror"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/metric/noop"
	tracenoop "go.opentelemetry.io/otel/trace/noop"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// NetFault is what happens to one request.
type NetFault struct {
	DelayMs int `json:"delay_ms,omitempty"`
	// 0 fine, 1 permanent error, 2 unavailable, 3 delivered but the reply is
	// lost (deadline or cancellation decide when the client gives up), 4 delivered
	// and answered with an error, 5 partition: nothing gets through, no answer
	What int `json:"what,omitempty"`
}

// push is one request that reached the simulated network.
type push struct {
	n         int
	signal    string
	endpoint  string
	begin     time.Duration
	end       time.Duration
	seq0      int64
	seq1      int64
	items     []string
	count     map[string]int
	delivered bool
	err       error
	hdr       string
}

// ledger follows every item from the export call to the network.
type ledger struct {
	exported  map[string]int // handed to an export call
	attempted map[string]int // appeared in a request
	okd       map[string]int // appeared in a request answered with success
	returned  map[string]int // in export calls that returned success
	total     int
}

func newLedger() *ledger {
	return &ledger{map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, 0}
}

// network is the collector and the way to it.
type network struct {
	e       *simh.Env
	faults  []NetFault
	pushes  []*push
	starts  []string
	stops   []string
	led     map[string]*ledger // by endpoint and signal
	maxSize map[string]int     // by endpoint
	timeout map[string]time.Duration
	noURL   map[string]bool
	shut    map[string]bool
	cfgs    map[string]*otelarrowexporter.Config
	onPush  func(p *push)
	// heal: from this simulated time on, requests succeed at once
	heal      time.Duration
	raw       rawObs
	failOpen  map[string]bool // endpoints that cannot be opened
	failClose map[string]bool // endpoints whose connection fails to close
	// strict: every item must be known to the ledger
	strict bool
}

// rawObs sees requests in full.
type rawObs interface {
	rawTraces(cfg *otelarrowexporter.Config, td ptrace.Traces) func(error)
	rawMetrics(cfg *otelarrowexporter.Config, md pmetric.Metrics) func(error)
}

var errOpen = errors.New("simulated: cannot open the connection")
var errClose = errors.New("simulated: closing the connection failed")

// leaves are the errors an error is made of.
func leaves(err error) []error {
	if err == nil {
		return nil
	}
	if m, ok := err.(interface{ Unwrap() []error }); ok {
		var out []error
		for _, e := range m.Unwrap() {
			out = append(out, leaves(e)...)
		}
		return out
	}
	if u := errors.Unwrap(err); u != nil {
		if l := leaves(u); len(l) > 1 {
			return l
		}
	}
	return []error{err}
}

// closed checks what closing the connection of endpoint returned and strips
// the failure to close it from the error.
func (n *network) closed(endpoint string, err error) error {
	if !n.failClose[endpoint] {
		return err
	}
	n.e.Count("fault_close_error")
	if !errors.Is(err, errClose) {
		n.e.Fail("close-error", "%s: the connection failed to close (%q), but the shutdown returned %v", endpoint, errClose, err)
	}
	var rest error
	for _, l := range leaves(err) {
		if !errors.Is(l, errClose) {
			rest = errors.Join(rest, l)
		}
	}
	return rest
}

// refused opens an exporter to an endpoint that cannot be reached.
func (n *network) refused(endpoint string, open func() error) {
	n.failOpen[endpoint] = true
	n.e.Count("fault_open_error")
	if err := open(); !errors.Is(err, errOpen) {
		n.e.Fail("open-error", "%s: the connection failed to open (%q), but the new exporter's error is %v", endpoint, errOpen, err)
	}
}

var errPerm = errors.New("simulated: bad request")

func newNetwork(e *simh.Env, faults []NetFault) *network {
	n := &network{e: e, faults: faults, led: map[string]*ledger{}, maxSize: map[string]int{}, timeout: map[string]time.Duration{}, noURL: map[string]bool{},
		shut: map[string]bool{}, cfgs: map[string]*otelarrowexporter.Config{}, strict: true, failOpen: map[string]bool{}, failClose: map[string]bool{}}
	otelarrowexporter.Net = n
	prometheusexporter.Net = promNet{n}
	otel.SetMeterProvider(noop.NewMeterProvider())
	otel.SetTracerProvider(tracenoop.NewTracerProvider())
	return n
}

func (n *network) ledger(endpoint, signal string) *ledger {
	k := endpoint + "/" + signal
	l := n.led[k]
	if l == nil {
		l = newLedger()
		n.led[k] = l
	}
	return l
}

func headers(cfg *otelarrowexporter.Config) string {
	var hs []string
	for k, v := range cfg.ClientConfig.Headers {
		hs = append(hs, k+"="+string(v))
	}
	sort.Strings(hs)
	return strings.Join(hs, ",")
}

func (n *network) Start(ctx context.Context, cfg *otelarrowexporter.Config, signal string) error {
	if n.failOpen[cfg.Endpoint] || n.failOpen[cfg.Endpoint+"/"+signal] {
		return errOpen
	}
	n.starts = append(n.starts, cfg.Endpoint+"/"+signal)
	n.cfgs[cfg.Endpoint+"/"+signal] = cfg
	return nil
}

func (n *network) Shutdown(ctx context.Context, cfg *otelarrowexporter.Config, signal string) error {
	k := cfg.Endpoint + "/" + signal
	for _, p := range n.pushes {
		if p.end == 0 && p.endpoint+"/"+p.signal == k {
			n.e.Fail("shutdown-in-flight", "%s: the connection is closed while request %d is in progress", k, p.n)
		}
	}
	n.stops = append(n.stops, k)
	n.shut[k] = true
	simrt.Y(0)
	if n.failClose[cfg.Endpoint] || n.failClose[k] {
		return errClose
	}
	return nil
}

func (n *network) PushMetrics(ctx context.Context, cfg *otelarrowexporter.Config, md pmetric.Metrics) error {
	done := func(error) {}
	if n.raw != nil {
		simrt.Quiet(true)
		done = n.raw.rawMetrics(cfg, md)
		simrt.Quiet(false)
	}
	err := n.push(ctx, cfg.Endpoint, "metrics", headers(cfg), func() []string { return gotMetrics(md) })
	done(err)
	return err
}

func (n *network) PushTraces(ctx context.Context, cfg *otelarrowexporter.Config, td ptrace.Traces) error {
	done := func(error) {}
	if n.raw != nil {
		simrt.Quiet(true)
		done = n.raw.rawTraces(cfg, td)
		simrt.Quiet(false)
	}
	err := n.push(ctx, cfg.Endpoint, "traces", headers(cfg), func() []string { return gotSpans(td) })
	done(err)
	return err
}

func (n *network) push(ctx context.Context, endpoint, signal, hdr string, items func() []string) error {
	k := endpoint + "/" + signal
	p := &push{n: len(n.pushes), signal: signal, endpoint: endpoint, begin: simrt.Elapsed(), seq0: simrt.Seq(), hdr: hdr}
	simrt.Quiet(true)
	p.items = items()
	if n.noURL[endpoint] {
		p.items = noURL(p.items)
	}
	simrt.Quiet(false)
	n.pushes = append(n.pushes, p)
	n.e.Count("request_" + signal)
	if n.shut[k] {
		n.e.Fail("push-after-shutdown", "%s: request %d sent after the connection was closed", k, p.n)
	}
	led := n.ledger(endpoint, signal)
	p.count = map[string]int{}
	for _, s := range p.items {
		p.count[s]++
		led.attempted[s]++
		led.total++
		if n.strict && led.attempted[s] > led.exported[s] {
			if led.exported[s] == 0 {
				n.e.Fail("corrupt", "%s: request %d carries an item that was never exported:\n  %s\nclosest exported:\n  %s", k, p.n, s, led.closest(s))
			}
			n.e.Fail("duplicate", "%s: request %d carries an item for the %d. time that was exported %d times:\n  %s", k, p.n, led.attempted[s], led.exported[s], s)
		}
	}
	if m := n.maxSize[endpoint]; m > 0 && len(p.items) > m {
		n.e.Fail("batch-size", "%s: request %d carries %d items, the maximum is %d", k, p.n, len(p.items), m)
	}
	if len(p.items) == 0 {
		n.e.Count("empty_request")
	}
	if to := n.timeout[endpoint]; to > 0 {
		dl, ok := ctx.Deadline()
		if !ok {
			n.e.Fail("no-deadline", "%s: request %d has no deadline", k, p.n)
		}
		if d := time.Until(dl); d > to {
			n.e.Fail("deadline", "%s: request %d has a deadline in %v, configured are %v", k, p.n, d, to)
		}
	}
	if n.onPush != nil {
		n.onPush(p)
	}
	var f NetFault
	if len(n.faults) > 0 && (n.heal == 0 || simrt.Elapsed() < n.heal) {
		f = n.faults[p.n%len(n.faults)]
	}
	simrt.Y(0)
	p.err = n.answer(ctx, f, p)
	p.end, p.seq1 = simrt.Elapsed()+1, simrt.Seq()
	if p.err == nil {
		for _, s := range p.items {
			led.okd[s]++
		}
	}
	return p.err
}

func (n *network) answer(ctx context.Context, f NetFault, p *push) error {
	if ctx.Err() != nil {
		n.e.Count("fault_dead_on_arrival")
		return ctxStatus(ctx)
	}
	if f.DelayMs > 0 {
		n.e.Count("fault_delay")
		t := time.NewTimer(time.Duration(f.DelayMs) * time.Millisecond)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
		}
		simrt.Y(0)
		if ctx.Err() != nil {
			n.e.Count("fault_timeout")
			return ctxStatus(ctx)
		}
	}
	switch f.What {
	case 1:
		n.e.Count("fault_permanent_error")
		return consumererror.NewPermanent(errPerm)
	case 2:
		n.e.Count("fault_unavailable")
		return status.Error(codes.Unavailable, "simulated: unavailable")
	case 3:
		n.e.Count("fault_reply_lost")
		p.delivered = true
		<-ctx.Done()
		simrt.Y(0)
		return ctxStatus(ctx)
	case 4:
		n.e.Count("fault_error_after_delivery")
		p.delivered = true
		return status.Error(codes.Internal, "simulated: internal")
	case 5:
		n.e.Count("fault_partition")
		<-ctx.Done()
		simrt.Y(0)
		return ctxStatus(ctx)
	}
	p.delivered = true
	return nil
}

// ctxStatus is what a gRPC client returns when the context ends.
func ctxStatus(ctx context.Context) error { return fmt.Errorf("simulated rpc: %w", ctx.Err()) }

// closest finds an exported item sharing the longest prefix.
func (l *ledger) closest(s string) string {
	best, bn := "(none)", -1
	for k := range l.exported {
		i := 0
		for i < len(k) && i < len(s) && k[i] == s[i] {
			i++
		}
		if i > bn || i == bn && k < best {
			best, bn = k, i
		}
	}
	return best
}

// promNet is the scrape registry behind the Prometheus exporter.
type promNet struct{ n *network }

func (p promNet) Start(ctx context.Context, endpoint string) error {
	if p.n.failOpen[endpoint] {
		return errOpen
	}
	p.n.starts = append(p.n.starts, endpoint+"/metrics")
	return nil
}

func (p promNet) Push(ctx context.Context, endpoint string, md pmetric.Metrics) error {
	return p.n.push(ctx, endpoint, "metrics", "", func() []string { return gotMetrics(md) })
}

func (p promNet) Shutdown(ctx context.Context, endpoint string) error {
	p.n.stops = append(p.n.stops, endpoint+"/metrics")
	p.n.shut[endpoint+"/metrics"] = true
	if p.n.failClose[endpoint] {
		return errClose
	}
	return nil
}

var stderr io.Writer = os.Stderr

func init() {
	// the collector components log through zap to standard error
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("SIM_SERVE") != "" {
		os.Stderr = f
	}
}
