package otlp

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	apitrace "go.opentelemetry.io/otel/trace"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/minmaxsumcount"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
)

// ---- attributes

func wantAttrs(kvs []attribute.KeyValue) string {
	m := map[string]string{}
	var ks []string
	for _, kv := range kvs { // the last value of a key wins
		k := string(kv.Key)
		if _, ok := m[k]; !ok {
			ks = append(ks, k)
		}
		m[k] = wantValue(kv.Value)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%s,", k, m[k])
	}
	return b.String()
}

func wantValue(v attribute.Value) string {
	switch v.Type() {
	case attribute.BOOL:
		return fmt.Sprint("b", v.AsBool())
	case attribute.INT64:
		return fmt.Sprint("i", v.AsInt64())
	case attribute.FLOAT64:
		return fmt.Sprint("f", v.AsFloat64())
	case attribute.STRING:
		return fmt.Sprintf("s%q", v.AsString())
	case attribute.BOOLSLICE:
		s := "["
		for _, x := range v.AsBoolSlice() {
			s += fmt.Sprint("b", x, " ")
		}
		return s + "]"
	case attribute.INT64SLICE:
		s := "["
		for _, x := range v.AsInt64Slice() {
			s += fmt.Sprint("i", x, " ")
		}
		return s + "]"
	case attribute.FLOAT64SLICE:
		s := "["
		for _, x := range v.AsFloat64Slice() {
			s += fmt.Sprint("f", x, " ")
		}
		return s + "]"
	case attribute.STRINGSLICE:
		s := "["
		for _, x := range v.AsStringSlice() {
			s += fmt.Sprintf("s%q ", x)
		}
		return s + "]"
	}
	return "invalid"
}

func gotAttrs(m pcommon.Map) string {
	var out []string
	m.Range(func(k string, v pcommon.Value) bool {
		out = append(out, fmt.Sprintf("%q=%s,", k, gotValue(v)))
		return true
	})
	sort.Strings(out)
	return strings.Join(out, "")
}

func gotValue(v pcommon.Value) string {
	switch v.Type() {
	case pcommon.ValueTypeBool:
		return fmt.Sprint("b", v.Bool())
	case pcommon.ValueTypeInt:
		return fmt.Sprint("i", v.Int())
	case pcommon.ValueTypeDouble:
		return fmt.Sprint("f", v.Double())
	case pcommon.ValueTypeEmpty:
		return "invalid"
	case pcommon.ValueTypeStr:
		if v.Str() == "INVALID" {
			return "invalid"
		}
		return fmt.Sprintf("s%q", v.Str())
	case pcommon.ValueTypeSlice:
		s := "["
		for i := 0; i < v.Slice().Len(); i++ {
			s += gotValue(v.Slice().At(i)) + " "
		}
		return s + "]"
	}
	return "?" + v.Type().String()
}

func wantRes(r *resource.Resource) string {
	return wantAttrs(r.Attributes()) + "<<" + r.SchemaURL() + ">>"
}

func wantScope(s instrumentation.Scope) string {
	return fmt.Sprintf("%q %q {%s} <<%s>>", s.Name, s.Version, wantAttrs(s.Attributes.ToSlice()), s.SchemaURL)
}

func ts(t time.Time) string {
	if t.IsZero() {
		return "0"
	}
	return fmt.Sprint(t.UnixNano())
}

func f64(v float64) string { return fmt.Sprintf("%x", math.Float64bits(v)) }

// ---- metrics

func wantTempo(t aggregation.Temporality) string {
	switch t {
	case aggregation.CumulativeTemporality:
		return "cumulative"
	case aggregation.DeltaTemporality:
		return "delta"
	}
	return "unspecified"
}

func gotTempo(t pmetric.AggregationTemporality) string {
	switch t {
	case pmetric.AggregationTemporalityCumulative:
		return "cumulative"
	case pmetric.AggregationTemporalityDelta:
		return "delta"
	}
	return "unspecified"
}

func toF(n number.Number, isInt bool) float64 {
	if isInt {
		return float64(int64(n))
	}
	return math.Float64frombits(uint64(n))
}

func wantBuckets(b aggregation.Buckets) string {
	if b.Len() == 0 {
		return "-"
	}
	s := fmt.Sprint(b.Offset(), ":")
	for i := uint32(0); i < b.Len(); i++ {
		s += fmt.Sprint(b.At(i), ",")
	}
	return s
}

type histo interface {
	Count() uint64
	Sum() number.Number
	Min() number.Number
	Max() number.Number
	ZeroCount() uint64
	Scale() int32
	Positive() aggregation.Buckets
	Negative() aggregation.Buckets
}

type mmsc interface {
	Count() uint64
	Sum() number.Number
	Min() number.Number
	Max() number.Number
}

// explicit is the reference translation of an exponential histogram to
// explicit bounds: everything at or below zero, an empty bucket up to the first
// exponential bucket, one bucket per exponential bucket, and above what has no finite bound. Bounds
// are given by their index.
func explicit(h histo) (bounds string, counts []uint64) {
	low := h.ZeroCount()
	for i := uint32(0); i < h.Negative().Len(); i++ {
		low += h.Negative().At(i)
	}
	counts = append(counts, low)
	n := int(h.Positive().Len())
	if n == 0 {
		return "[0]", append(counts, 0)
	}
	off := int(h.Positive().Offset())
	exp := func(i int) float64 { return math.Ldexp(float64(i), -int(h.Scale())) } // log2
	bs := []int{off}
	counts = append(counts, 0)
	over := uint64(0)
	for i := 0; i < n; i++ {
		c := h.Positive().At(uint32(i))
		if exp(off+i+1) >= 1024 {
			over += c
			continue
		}
		bs = append(bs, off+i+1)
		counts = append(counts, c)
	}
	if len(bs) == 1 {
		return fmt.Sprintf("[0 %.6g]", math.Exp2(exp(bs[0]))), append(counts, over)
	}
	return fmt.Sprintf("[0 scale=%d %v]", h.Scale(), bs), append(counts, over)
}

// gotBounds finds scale and indexes of explicit bounds.
func gotBounds(b []float64) string {
	if len(b) == 0 {
		return "[]"
	}
	s := ""
	for _, x := range b {
		s += fmt.Sprintf("%.6g ", x)
	}
	s = "[" + strings.TrimSpace(s) + "]"
	if len(b) < 3 || b[0] != 0 {
		return s
	}
	step := math.Log2(b[2]) - math.Log2(b[1])
	scale := -math.Round(math.Log2(step))
	var is []int
	for i, x := range b[1:] {
		f := math.Ldexp(math.Log2(x), int(scale))
		if !(math.Abs(f-math.Round(f)) < 0.01) || i > 0 && !(x > b[i]) {
			return s + " is no exponential scale"
		}
		is = append(is, int(math.Round(f)))
	}
	return fmt.Sprintf("[0 scale=%d %v]", int(scale), is)
}

func ranges(c uint64, n mmsc, isInt bool) string {
	if c == 0 {
		return "-"
	}
	return f64(toF(n.Min(), isInt)) + ".." + f64(toF(n.Max(), isInt))
}

// wantMetrics lists what a collector must receive for in.
func wantMetrics(in data.Metrics, exponential bool) []string {
	var out []string
	res := wantRes(in.Resource)
	for _, sc := range in.Scopes {
		for _, ins := range sc.Instruments {
			d := ins.Descriptor
			head := fmt.Sprintf("{%s} %s %q %q %q ", res, wantScope(sc.Library), d.Name, string(d.Unit), d.Description)
			for _, p := range ins.Points {
				times := ts(p.Start) + "-" + ts(p.End)
				at := " {" + wantAttrs(p.Attributes.ToSlice()) + "}"
				var v string
				switch a := p.Aggregation.(type) {
				case *sum.MonotonicInt64:
					v = fmt.Sprint("sum mono=true ", wantTempo(p.Temporality), " ", times, " i", int64(a.Sum()))
				case *sum.NonMonotonicInt64:
					v = fmt.Sprint("sum mono=false ", wantTempo(p.Temporality), " ", times, " i", int64(a.Sum()))
				case *sum.MonotonicFloat64:
					v = fmt.Sprint("sum mono=true ", wantTempo(p.Temporality), " ", times, " f", f64(toF(a.Sum(), false)))
				case *sum.NonMonotonicFloat64:
					v = fmt.Sprint("sum mono=false ", wantTempo(p.Temporality), " ", times, " f", f64(toF(a.Sum(), false)))
				case *gauge.Int64:
					v = fmt.Sprint("gauge ", ts(p.End), " i", int64(a.Gauge()))
				case *gauge.Float64:
					v = fmt.Sprint("gauge ", ts(p.End), " f", f64(toF(a.Gauge(), false)))
				case *histogram.Int64:
					v = wantHisto(a, true, exponential, p, times)
				case *histogram.Float64:
					v = wantHisto(a, false, exponential, p, times)
				case *minmaxsumcount.Int64:
					v = fmt.Sprint("hist ", wantTempo(p.Temporality), " ", times, " n=", a.Count(), " sum=", f64(toF(a.Sum(), true)), " ", ranges(a.Count(), a, true), " [] []")
				case *minmaxsumcount.Float64:
					v = fmt.Sprint("hist ", wantTempo(p.Temporality), " ", times, " n=", a.Count(), " sum=", f64(toF(a.Sum(), false)), " ", ranges(a.Count(), a, false), " [] []")
				default:
					v = fmt.Sprintf("unknown %T", a)
				}
				out = append(out, head+v+at)
			}
		}
	}
	return out
}

func wantHisto(h histo, isInt, exponential bool, p data.Point, times string) string {
	s := fmt.Sprint(" ", wantTempo(p.Temporality), " ", times, " n=", h.Count(), " sum=", f64(toF(h.Sum(), isInt)), " ", ranges(h.Count(), h, isInt))
	if exponential {
		return "exphist" + s + fmt.Sprint(" zero=", h.ZeroCount(), " scale=", h.Scale(), " pos=", wantBuckets(h.Positive()), " neg=", wantBuckets(h.Negative()))
	}
	b, c := explicit(h)
	return "hist" + s + " " + b + fmt.Sprint(" ", c)
}

func gotMetrics(md pmetric.Metrics) []string {
	var out []string
	for i := 0; i < md.ResourceMetrics().Len(); i++ {
		rm := md.ResourceMetrics().At(i)
		res := gotAttrs(rm.Resource().Attributes()) + "<<" + rm.SchemaUrl() + ">>"
		for j := 0; j < rm.ScopeMetrics().Len(); j++ {
			sm := rm.ScopeMetrics().At(j)
			for k := 0; k < sm.Metrics().Len(); k++ {
				m := sm.Metrics().At(k)
				head := fmt.Sprintf("{%s} %q %q {%s} <<%s>> %q %q %q ", res, sm.Scope().Name(), sm.Scope().Version(), gotAttrs(sm.Scope().Attributes()), sm.SchemaUrl(), m.Name(), m.Unit(), m.Description())
				add := func(v string, at pcommon.Map) { out = append(out, head+v+" {"+gotAttrs(at)+"}") }
				num := func(dp pmetric.NumberDataPoint) string {
					switch dp.ValueType() {
					case pmetric.NumberDataPointValueTypeInt:
						return fmt.Sprint("i", dp.IntValue())
					case pmetric.NumberDataPointValueTypeDouble:
						return fmt.Sprint("f", f64(dp.DoubleValue()))
					}
					return "empty"
				}
				times := func(a, b pcommon.Timestamp) string { return fmt.Sprint(uint64(a), "-", uint64(b)) }
				switch m.Type() {
				case pmetric.MetricTypeSum:
					s := m.Sum()
					for x := 0; x < s.DataPoints().Len(); x++ {
						dp := s.DataPoints().At(x)
						add(fmt.Sprint("sum mono=", s.IsMonotonic(), " ", gotTempo(s.AggregationTemporality()), " ", times(dp.StartTimestamp(), dp.Timestamp()), " ", num(dp)), dp.Attributes())
					}
				case pmetric.MetricTypeGauge:
					for x := 0; x < m.Gauge().DataPoints().Len(); x++ {
						dp := m.Gauge().DataPoints().At(x)
						add(fmt.Sprint("gauge ", uint64(dp.Timestamp()), " ", num(dp)), dp.Attributes())
					}
				case pmetric.MetricTypeHistogram:
					h := m.Histogram()
					for x := 0; x < h.DataPoints().Len(); x++ {
						dp := h.DataPoints().At(x)
						rg := "-"
						if dp.HasMin() || dp.HasMax() {
							rg = f64(dp.Min()) + ".." + f64(dp.Max())
						}
						c := dp.BucketCounts().AsRaw()
						if c == nil {
							c = []uint64{}
						}
						add(fmt.Sprint("hist ", gotTempo(h.AggregationTemporality()), " ", times(dp.StartTimestamp(), dp.Timestamp()), " n=", dp.Count(), " sum=", f64(dp.Sum()), " ", rg,
							" ", gotBounds(dp.ExplicitBounds().AsRaw()), " ", c), dp.Attributes())
					}
				case pmetric.MetricTypeExponentialHistogram:
					h := m.ExponentialHistogram()
					for x := 0; x < h.DataPoints().Len(); x++ {
						dp := h.DataPoints().At(x)
						rg := "-"
						if dp.HasMin() || dp.HasMax() {
							rg = f64(dp.Min()) + ".." + f64(dp.Max())
						}
						bk := func(b pmetric.ExponentialHistogramDataPointBuckets) string {
							if b.BucketCounts().Len() == 0 {
								return "-"
							}
							s := fmt.Sprint(b.Offset(), ":")
							for _, c := range b.BucketCounts().AsRaw() {
								s += fmt.Sprint(c, ",")
							}
							return s
						}
						add(fmt.Sprint("exphist ", gotTempo(h.AggregationTemporality()), " ", times(dp.StartTimestamp(), dp.Timestamp()), " n=", dp.Count(), " sum=", f64(dp.Sum()), " ", rg,
							" zero=", dp.ZeroCount(), " scale=", dp.Scale(), " pos=", bk(dp.Positive()), " neg=", bk(dp.Negative())), dp.Attributes())
					}
				default:
					out = append(out, head+"metric without data")
				}
			}
		}
	}
	return out
}

// ---- spans

func wantSpan(s sdktrace.ReadOnlySpan) string {
	kind := map[apitrace.SpanKind]string{apitrace.SpanKindInternal: "Internal", apitrace.SpanKindServer: "Server", apitrace.SpanKindClient: "Client",
		apitrace.SpanKindProducer: "Producer", apitrace.SpanKindConsumer: "Consumer"}[s.SpanKind()]
	if kind == "" {
		kind = "Unspecified"
	}
	code := map[codes.Code]string{codes.Ok: "Ok", codes.Error: "Error"}[s.Status().Code]
	if code == "" {
		code = "Unset"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "{%s} %s %q %s %s-%s id=%s trace=%s parent=%s state=%q status=%s %q {%s} drop=%d,%d,%d", wantRes(s.Resource()), wantScope(s.InstrumentationScope()), s.Name(), kind,
		ts(s.StartTime()), ts(s.EndTime()), s.SpanContext().SpanID(), s.SpanContext().TraceID(), s.Parent().SpanID(), s.SpanContext().TraceState().String(),
		code, s.Status().Description, wantAttrs(s.Attributes()), s.DroppedAttributes(), s.DroppedEvents(), s.DroppedLinks())
	for _, e := range s.Events() {
		fmt.Fprintf(&b, " ev(%q %s {%s} %d)", e.Name, ts(e.Time), wantAttrs(e.Attributes), e.DroppedAttributeCount)
	}
	for _, l := range s.Links() {
		fmt.Fprintf(&b, " ln(%s %s %q {%s} %d)", l.SpanContext.SpanID(), l.SpanContext.TraceID(), l.SpanContext.TraceState().String(), wantAttrs(l.Attributes), l.DroppedAttributeCount)
	}
	return b.String()
}

func gotSpans(td ptrace.Traces) []string {
	var out []string
	for i := 0; i < td.ResourceSpans().Len(); i++ {
		rs := td.ResourceSpans().At(i)
		res := gotAttrs(rs.Resource().Attributes()) + "<<" + rs.SchemaUrl() + ">>"
		for j := 0; j < rs.ScopeSpans().Len(); j++ {
			ss := rs.ScopeSpans().At(j)
			for k := 0; k < ss.Spans().Len(); k++ {
				s := ss.Spans().At(k)
				var b strings.Builder
				ns := func(t pcommon.Timestamp) string { return fmt.Sprint(uint64(t)) }
				fmt.Fprintf(&b, "{%s} %q %q {%s} <<%s>> %q %s %s-%s id=%s trace=%s parent=%s state=%q status=%s %q {%s} drop=%d,%d,%d", res, ss.Scope().Name(), ss.Scope().Version(), gotAttrs(ss.Scope().Attributes()), ss.SchemaUrl(), s.Name(), s.Kind().String(),
					ns(s.StartTimestamp()), ns(s.EndTimestamp()), apitrace.SpanID(s.SpanID()), apitrace.TraceID(s.TraceID()), apitrace.SpanID(s.ParentSpanID()), s.TraceState().AsRaw(),
					s.Status().Code().String(), s.Status().Message(), gotAttrs(s.Attributes()), s.DroppedAttributesCount(), s.DroppedEventsCount(), s.DroppedLinksCount())
				for x := 0; x < s.Events().Len(); x++ {
					e := s.Events().At(x)
					fmt.Fprintf(&b, " ev(%q %s {%s} %d)", e.Name(), ns(e.Timestamp()), gotAttrs(e.Attributes()), e.DroppedAttributesCount())
				}
				for x := 0; x < s.Links().Len(); x++ {
					l := s.Links().At(x)
					fmt.Fprintf(&b, " ln(%s %s %q {%s} %d)", apitrace.SpanID(l.SpanID()), apitrace.TraceID(l.TraceID()), l.TraceState().AsRaw(), gotAttrs(l.Attributes()), l.DroppedAttributesCount())
				}
				out = append(out, b.String())
			}
		}
	}
	return out
}

// noURL removes the schema URLs: the collector's batch processor loses
// it when it splits a batch.
func noURL(in []string) []string {
	for i, s := range in {
		for k := 0; k < 2; k++ { // the resource's and the scope's
			if a, b := strings.Index(s, "<<"), strings.Index(s, ">>"); a >= 0 && b > a {
				s = s[:a] + s[b+2:]
			}
		}
		in[i] = s
	}
	return in
}
