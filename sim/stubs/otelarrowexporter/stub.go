// Package otelarrowexporter stands in for the real OTLP/Arrow exporter: the
// exporter helper (timeouts, self-telemetry) is real, the gRPC connection and
// the collector behind it are the simulated network given by Net.
package otelarrowexporter

import (
	"context"
	"errors"
	"time"

	"go.opentelemetry.io/collector/component"
	"go.opentelemetry.io/collector/config/configcompression"
	"go.opentelemetry.io/collector/config/configgrpc"
	"go.opentelemetry.io/collector/config/configretry"
	"go.opentelemetry.io/collector/consumer"
	"go.opentelemetry.io/collector/exporter"
	"go.opentelemetry.io/collector/exporter/exporterhelper"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"google.golang.org/grpc"
)

type Config struct {
	TimeoutSettings exporterhelper.TimeoutConfig
	QueueSettings   exporterhelper.QueueBatchConfig
	RetryConfig     configretry.BackOffConfig
	configgrpc.ClientConfig
	BatcherConfig            exporterhelper.BatcherConfig //nolint
	Arrow                    ArrowConfig
	UserDialOptions          []grpc.DialOption
	MetadataKeys             []string
	MetadataCardinalityLimit uint32
}

type ArrowConfig struct {
	NumStreams         int
	MaxStreamLifetime  time.Duration
	PayloadCompression configcompression.Type
	Disabled           bool
	DisableDowngrade   bool
	Prioritizer        string
}

func (*Config) Validate() error { return nil }

// Network is the simulated collector endpoint.
type Network interface {
	Start(ctx context.Context, cfg *Config, signal string) error
	PushMetrics(ctx context.Context, cfg *Config, md pmetric.Metrics) error
	PushTraces(ctx context.Context, cfg *Config, td ptrace.Traces) error
	Shutdown(ctx context.Context, cfg *Config, signal string) error
}

// Net is set by the harness before each run.
var Net Network

var typ = component.MustNewType("otelarrow")

func NewFactory() exporter.Factory {
	return exporter.NewFactory(typ, func() component.Config { return &Config{} },
		exporter.WithTraces(createTraces, component.StabilityLevelBeta),
		exporter.WithMetrics(createMetrics, component.StabilityLevelBeta))
}

func opts(cfg *Config, signal string) []exporterhelper.Option {
	return []exporterhelper.Option{
		exporterhelper.WithCapabilities(consumer.Capabilities{MutatesData: false}),
		exporterhelper.WithTimeout(cfg.TimeoutSettings),
		exporterhelper.WithRetry(cfg.RetryConfig),
		exporterhelper.WithQueue(cfg.QueueSettings),
		exporterhelper.WithStart(func(ctx context.Context, _ component.Host) error { return Net.Start(ctx, cfg, signal) }),
		exporterhelper.WithShutdown(func(ctx context.Context) error { return Net.Shutdown(ctx, cfg, signal) }),
	}
}

func createTraces(ctx context.Context, set exporter.Settings, c component.Config) (exporter.Traces, error) {
	cfg := c.(*Config)
	if cfg.Endpoint == "" {
		return nil, errors.New("OTLP exporter config requires an Endpoint")
	}
	return exporterhelper.NewTraces(ctx, set, cfg, func(ctx context.Context, td ptrace.Traces) error {
		return Net.PushTraces(ctx, cfg, td)
	}, opts(cfg, "traces")...)
}

func createMetrics(ctx context.Context, set exporter.Settings, c component.Config) (exporter.Metrics, error) {
	cfg := c.(*Config)
	if cfg.Endpoint == "" {
		return nil, errors.New("OTLP exporter config requires an Endpoint")
	}
	return exporterhelper.NewMetrics(ctx, set, cfg, func(ctx context.Context, md pmetric.Metrics) error {
		return Net.PushMetrics(ctx, cfg, md)
	}, opts(cfg, "metrics")...)
}
