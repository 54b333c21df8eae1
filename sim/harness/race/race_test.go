package race

import (
	"testing"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simh"
)

func TestSim(t *testing.T) { simh.Main(t) }
