package core

import (
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/doevery"
)

// The two files have call sites at the same lines.
func init() {
	siteFns[3] = func(d time.Duration, f func()) { doevery.TimePeriod(d, f) }
	siteFns[4] = func(d time.Duration, f func()) { doevery.TimePeriod(d, f) }
	siteFns[5] = func(d time.Duration, f func()) { doevery.TimePeriod(d, f) }
}
