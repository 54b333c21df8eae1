package race

import (
	"context"
	"math"

	"github.com/lightstep/go-expohisto/mapping/exponent"
	"github.com/lightstep/go-expohisto/mapping/logarithm"
	"go.opentelemetry.io/otel/attribute"
	api "go.opentelemetry.io/otel/metric"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
)

// warm takes every rate-limited path once, so that the first run of a process
// behaves like the later ones.
func warm() {
	for i := int32(-20); i <= 25; i++ {
		_, _ = logarithm.NewMapping(i)
		_, _ = exponent.NewMapping(i)
	}
	ctx := context.Background()
	for _, lim := range []uint32{0, 2} {
		rd := sdk.NewManualReader("warm")
		mp := sdk.NewMeterProvider(sdk.WithReader(rd), sdk.WithPerformance(sdkinstrument.Performance{AggregatorCardinalityLimit: lim, InstrumentCardinalityLimit: 100}))
		m := mp.Meter("warm")
		ic, _ := m.Int64Counter("ic")
		fc, _ := m.Float64Counter("fc")
		ih, _ := m.Int64Histogram("ih")
		fh, _ := m.Float64Histogram("fh")
		fu, _ := m.Float64UpDownCounter("fu")
		ig, _ := m.Int64Gauge("ig")
		fg, _ := m.Float64Gauge("fg")
		fo, _ := m.Float64ObservableCounter("fo", api.WithFloat64Callback(func(ctx context.Context, o api.Float64Observer) error {
			o.Observe(math.NaN())
			o.Observe(math.Inf(1))
			o.Observe(1, api.WithAttributes(attribute.Int("", 1)))
			return nil
		}))
		_ = fo
		for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), -1, 1, 100} {
			fc.Add(ctx, v)
			fh.Record(ctx, v)
			fu.Add(ctx, v)
			fg.Record(ctx, v)
			if v == math.Trunc(v) && !math.IsInf(v, 0) {
				ic.Add(ctx, int64(v))
				ih.Record(ctx, int64(v))
				ig.Record(ctx, int64(v))
			}
		}
		for i := 0; i < 4; i++ {
			o := api.WithAttributes(attribute.Int("A", i), attribute.Int("", 1))
			ic.Add(ctx, 1, o)
			fc.Add(ctx, 1, o)
			ih.Record(ctx, 1, o)
			fh.Record(ctx, 1, o)
			fu.Add(ctx, 1, o)
			ig.Record(ctx, 1, o)
			fg.Record(ctx, 1, o)
		}
		rd.Produce(nil)
		rd.Produce(nil)
		_ = mp.Shutdown(ctx)
	}
}

func init() { simh.Warm = warm }
