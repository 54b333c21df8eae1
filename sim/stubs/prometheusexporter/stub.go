// Package prometheusexporter stands in for the collector's Prometheus
// exporter: the exporter helper is real, the scrape registry and HTTP server
// behind it are the sink given by Net.
package prometheusexporter

import (
	"context"
	"time"

	"github.com/open-telemetry/opentelemetry-collector-contrib/pkg/resourcetotelemetry"
	"go.opentelemetry.io/collector/component"
	"go.opentelemetry.io/collector/config/confighttp"
	"go.opentelemetry.io/collector/consumer"
	"go.opentelemetry.io/collector/exporter"
	"go.opentelemetry.io/collector/exporter/exporterhelper"
	"go.opentelemetry.io/collector/pdata/pmetric"
)

type Config struct {
	confighttp.ServerConfig
	Namespace                   string
	ConstLabels                 map[string]string
	SendTimestamps              bool
	MetricExpiration            time.Duration
	ResourceToTelemetrySettings resourcetotelemetry.Settings
	EnableOpenMetrics           bool
	AddMetricSuffixes           bool
}

func (*Config) Validate() error { return nil }

// Network is the simulated scrape registry.
type Network interface {
	Start(ctx context.Context, endpoint string) error
	Push(ctx context.Context, endpoint string, md pmetric.Metrics) error
	Shutdown(ctx context.Context, endpoint string) error
}

// Net is set by the harness before each run.
var Net Network

func NewFactory() exporter.Factory {
	return exporter.NewFactory(component.MustNewType("prometheus"), func() component.Config { return &Config{} },
		exporter.WithMetrics(create, component.StabilityLevelBeta))
}

func create(ctx context.Context, set exporter.Settings, c component.Config) (exporter.Metrics, error) {
	cfg := c.(*Config)
	return exporterhelper.NewMetrics(ctx, set, cfg,
		func(ctx context.Context, md pmetric.Metrics) error { return Net.Push(ctx, cfg.Endpoint, md) },
		exporterhelper.WithStart(func(ctx context.Context, _ component.Host) error { return Net.Start(ctx, cfg.Endpoint) }),
		exporterhelper.WithShutdown(func(ctx context.Context) error { return Net.Shutdown(ctx, cfg.Endpoint) }),
		exporterhelper.WithCapabilities(consumer.Capabilities{MutatesData: true}))
}
