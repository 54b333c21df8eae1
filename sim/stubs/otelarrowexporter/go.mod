module github.com/open-telemetry/opentelemetry-collector-contrib/exporter/otelarrowexporter

go 1.23.0

require (
	go.opentelemetry.io/collector/component v1.32.0
	go.opentelemetry.io/collector/config/configcompression v1.32.0
	go.opentelemetry.io/collector/config/configgrpc v0.126.0
	go.opentelemetry.io/collector/config/configretry v1.32.0
	go.opentelemetry.io/collector/consumer v1.32.0
	go.opentelemetry.io/collector/exporter v0.126.0
	go.opentelemetry.io/collector/pdata v1.32.0
	google.golang.org/grpc v1.72.0
)
