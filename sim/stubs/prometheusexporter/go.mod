module github.com/open-telemetry/opentelemetry-collector-contrib/exporter/prometheusexporter

go 1.23.0

require (
	github.com/open-telemetry/opentelemetry-collector-contrib/pkg/resourcetotelemetry v0.126.0
	go.opentelemetry.io/collector/component v1.32.0
	go.opentelemetry.io/collector/config/confighttp v0.126.0
	go.opentelemetry.io/collector/consumer v1.32.0
	go.opentelemetry.io/collector/exporter v0.126.0
	go.opentelemetry.io/collector/pdata v1.32.0
)
