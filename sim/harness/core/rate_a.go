package core

import (
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/doevery"
)

// The two files have call sites at the same lines.
func init() {
	siteFns[0] = func(d time.Duration, f func()) { doevery.TimePeriod(d, f) }
	siteFns[1] = func(d time.Duration, f func()) { doevery.TimePeriod(d, f) }
	siteFns[2] = func(d time.Duration, f func()) { doevery.TimePeriod(d, f) }
}
