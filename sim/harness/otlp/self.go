package otlp

import (
	"fmt"
	"sort"
	"strings"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"

	"context"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
)

// selfObs observes the SDK's telemetry about itself.
type selfObs struct {
	e     *simh.Env
	rd    *sdk.ManualReader
	mp    *sdk.MeterProvider
	tp    *sdktrace.TracerProvider
	spans []sdktrace.ReadOnlySpan
}

func newSelf(e *simh.Env) *selfObs {
	s := &selfObs{e: e}
	s.rd = sdk.NewManualReader("self")
	s.mp = sdk.NewMeterProvider(sdk.WithReader(s.rd))
	s.tp = sdktrace.NewTracerProvider(sdktrace.WithSpanProcessor(s), sdktrace.WithIDGenerator(&ids{n: 1 << 40}), sdktrace.WithResource(resources[2]))
	return s
}

func (s *selfObs) OnStart(context.Context, sdktrace.ReadWriteSpan) {}
func (s *selfObs) OnEnd(sp sdktrace.ReadOnlySpan)                  { s.spans = append(s.spans, sp) }
func (s *selfObs) Shutdown(context.Context) error                  { return nil }
func (s *selfObs) ForceFlush(context.Context) error                { return nil }

// check compares the self-telemetry with the outcomes of the export calls.
func (s *selfObs) check(n *network, calls []*exportCall, client func(i int) CPlan, ep func(i int) string, item, scope string) {
	want := map[string]int64{}
	wantSpan := map[string]int{}
	for _, x := range calls {
		st := stateOf(x.err)
		if client(x.client).SelfM {
			want[fmt.Sprintf("success=%v state=%s", x.err == nil, st)] += int64(len(x.items))
		}
		if client(x.client).SelfS {
			status, msg := "Ok", ""
			if x.err != nil {
				status, msg = "Error", x.err.Error()
			}
			wantSpan[fmt.Sprintf("%s %q success=%v state=%s n=%d", status, msg, x.err == nil, st, len(x.items))]++
		}
	}
	for k, v := range want {
		if v == 0 { // an export without items: the series may or may not exist
			delete(want, k)
		}
	}
	got := map[string]int64{}
	sent, failed := int64(0), int64(0)
	d := s.rd.Produce(nil)
	for _, sc := range d.Scopes {
		for _, in := range sc.Instruments {
			if strings.HasPrefix(in.Descriptor.Name, "otelcol_") {
				s.e.Fail("self-name", "self-telemetry metric %q keeps the collector's prefix", in.Descriptor.Name)
			}
			for _, p := range in.Points {
				v, ok := p.Aggregation.(*sum.MonotonicInt64)
				switch {
				case in.Descriptor.Name == "otelsdk.telemetry.items" && sc.Library.Name == scope:
					b, _ := p.Attributes.Value("success")
					st, _ := p.Attributes.Value("state")
					if p.Attributes.Len() != 2 || b.Type() != attribute.BOOL || !ok {
						s.e.Fail("self-metric", "items counter: attributes %v", p.Attributes.ToSlice())
					}
					if x := int64(v.Sum()); x != 0 {
						got[fmt.Sprintf("success=%v state=%s", b.AsBool(), st.AsString())] += x
					}
				case strings.HasPrefix(in.Descriptor.Name, "otelsdk_exporter_sent_"+item) && ok:
					sent += int64(v.Sum())
				case strings.HasPrefix(in.Descriptor.Name, "otelsdk_exporter_send_failed_"+item) && ok:
					failed += int64(v.Sum())
				}
			}
		}
	}
	if a, b := show(got), show(want); a != b {
		s.e.Fail("self-metric", "otelsdk.telemetry.items: reported %s, the outcomes were %s", a, b)
	}
	wsent, wfailed := int64(0), int64(0)
	for _, p := range n.pushes {
		for i := 0; i < 8; i++ {
			if ep(i) == p.endpoint && client(i).SelfM {
				if p.err == nil {
					wsent += int64(len(p.items))
				} else {
					wfailed += int64(len(p.items))
				}
				break
			}
		}
	}
	if sent != wsent || failed != wfailed {
		s.e.Fail("self-sent", "exporter self-metrics: %d sent and %d failed, the network saw %d and %d", sent, failed, wsent, wfailed)
	}
	gotSpan := map[string]int{}
	for _, sp := range s.spans {
		if !strings.HasPrefix(sp.Name(), "otelsdk_export_") {
			continue
		}
		a := map[string]attribute.Value{}
		for _, kv := range sp.Attributes() {
			a[string(kv.Key)] = kv.Value
		}
		num, ok := a["num_points"]
		if !ok {
			num = a["num_spans"]
		}
		status := "Unset"
		switch sp.Status().Code {
		case codes.Ok:
			status = "Ok"
		case codes.Error:
			status = "Error"
		}
		gotSpan[fmt.Sprintf("%s %q success=%v state=%s n=%d", status, sp.Status().Description, a["success"].AsBool(), a["state"].AsString(), num.AsInt64())]++
	}
	if a, b := showN(gotSpan), showN(wantSpan); a != b {
		s.e.Fail("self-span", "export spans: got\n%s\nwant\n%s", a, b)
	}
}

func show(m map[string]int64) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(ks)
	return "[" + strings.Join(ks, "; ") + "]"
}

func showN(m map[string]int) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%d x %s", v, k))
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}
