From ef211ba23fc832747e27c3cd06da7fce397f613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:55 +0000
Subject: [PATCH 01/25] fix: do not report a cumulative gauge before its first
 value is set

---
 .../sdk/metric/internal/viewstate/collectors.go  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/collectors.go b/lightstep/sdk/metric/internal/viewstate/collectors.go
index dd2a7b3..b2e1b51 100644
--- a/lightstep/sdk/metric/internal/viewstate/collectors.go
+++ b/lightstep/sdk/metric/internal/viewstate/collectors.go
@@ -32,6 +32,8 @@ type statefulSyncInstrument[N number.Any, Storage any, Methods aggregator.Method
 
 // Collect for synchronous cumulative temporality.
 func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence, output *[]data.Instrument) {
+	var methods Methods
+
 	p.instLock.Lock()
 	defer p.instLock.Unlock()
 
@@ -39,6 +41,20 @@ func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence,
 
 	for set, entry := range p.data {
 		p.appendPoint(ioutput, set, &entry.storage, aggregation.CumulativeTemporality, seq.Start, seq.Now, false)
+
+		if methods.Kind() != aggregation.GaugeKind {
+			continue
+		}
+
+		// The entry is created before its first update: skip
+		// a gauge that has not been set yet, otherwise it
+		// would be reported with a spurious 0 value.
+		ptsArr := ioutput.Points
+		cpy, _ := methods.ToStorage(ptsArr[len(ptsArr)-1].Aggregation)
+
+		if !methods.HasChange(cpy) {
+			ioutput.Points = ptsArr[0 : len(ptsArr)-1 : cap(ptsArr)]
+		}
 	}
 }
 
-- 
2.43.0


From 79d7f314addf650151b701b40e88aa160777dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:55 +0000
Subject: [PATCH 02/25] fix: allocate the gauge sequence number under the gauge
 lock

---
 lightstep/sdk/metric/aggregator/gauge/gauge.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/aggregator/gauge/gauge.go b/lightstep/sdk/metric/aggregator/gauge/gauge.go
index d2b060c..0d75812 100644
--- a/lightstep/sdk/metric/aggregator/gauge/gauge.go
+++ b/lightstep/sdk/metric/aggregator/gauge/gauge.go
@@ -138,13 +138,13 @@ func (Methods[N, Traits]) Copy(from, to *State[N, Traits]) {
 }
 
 func (Methods[N, Traits]) Update(state *State[N, Traits], number N) {
-	newSeq := atomic.AddUint64(&sequenceVar, 1)
-
 	state.lock.Lock()
 	defer state.lock.Unlock()
 
+	// The sequence number is allocated while holding the lock, so that
+	// concurrent updates are sequenced in the order they take effect.
 	state.value = number
-	state.seq = newSeq
+	state.seq = atomic.AddUint64(&sequenceVar, 1)
 }
 
 func (Methods[N, Traits]) Merge(from, to *State[N, Traits]) {
-- 
2.43.0


From 69ba9d1f30a19a31f4b62f62ecc1802f2a1103d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:27 +0000
Subject: [PATCH 03/25] fix: a gauge value merged after a newer one was
 collected does not replace it

---
 lightstep/sdk/metric/aggregator/gauge/gauge.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/aggregator/gauge/gauge.go b/lightstep/sdk/metric/aggregator/gauge/gauge.go
index 0d75812..1dbd850 100644
--- a/lightstep/sdk/metric/aggregator/gauge/gauge.go
+++ b/lightstep/sdk/metric/aggregator/gauge/gauge.go
@@ -40,6 +40,10 @@ type (
 		lock  sync.Mutex
 		value N
 		seq   uint64
+
+		// moved is the sequence number of the last value taken
+		// by Move(), so that Merge() does not go backwards.
+		moved uint64
 	}
 
 	Int64   = State[int64, number.Int64Traits]
@@ -127,6 +131,9 @@ func (Methods[N, Traits]) Move(from, to *State[N, Traits]) {
 	to.value = from.value
 	to.seq = from.seq
 
+	if from.seq != 0 {
+		from.moved = from.seq
+	}
 	from.seq = 0
 }
 
@@ -151,7 +158,7 @@ func (Methods[N, Traits]) Merge(from, to *State[N, Traits]) {
 	to.lock.Lock()
 	defer to.lock.Unlock()
 
-	if from.seq != 0 && from.seq > to.seq {
+	if from.seq != 0 && from.seq > to.seq && from.seq > to.moved {
 		to.value = from.value
 		to.seq = from.seq
 	}
-- 
2.43.0


From b11b43c158572fa70983e1d50cadcc1e881e6034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:31 +0000
Subject: [PATCH 04/25] fix: serialize concurrent collection by one reader

---
 lightstep/sdk/metric/producer.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lightstep/sdk/metric/producer.go b/lightstep/sdk/metric/producer.go
index b9bb66c..ff3b972 100644
--- a/lightstep/sdk/metric/producer.go
+++ b/lightstep/sdk/metric/producer.go
@@ -44,20 +44,16 @@ func (mp *MeterProvider) producerFor(pipe int) Producer {
 
 // Produce runs collection and produces a new metrics data object.
 func (pp *providerProducer) Produce(inout *data.Metrics) data.Metrics {
-	ordered := pp.provider.getOrdered()
-
-	// Note: the Last time is only used in delta-temporality
-	// scenarios.  This lock protects the only stateful change in
-	// `pp` but does not prevent concurrent collection.  If a
-	// delta-temporality reader were to call Produce
-	// concurrently, the results would be be recorded with
-	// non-overlapping timestamps but would have been collected in
-	// an overlapping way.
+	// Note: concurrent calls to Produce for one reader are
+	// serialized.  Asynchronous observations are aggregated into
+	// per-reader state that belongs to a single collection, and
+	// the delta-temporality timestamps have to match the data.
 	pp.lock.Lock()
+	defer pp.lock.Unlock()
+
 	lastTime := pp.lastCollect
 	nowTime := time.Now()
 	pp.lastCollect = nowTime
-	pp.lock.Unlock()
 
 	var output data.Metrics
 	if inout != nil {
@@ -75,7 +71,7 @@ func (pp *providerProducer) Produce(inout *data.Metrics) data.Metrics {
 
 	ctx := context.Background()
 
-	for _, meter := range ordered {
+	for _, meter := range pp.provider.getOrdered() {
 		meter.collectFor(
 			ctx,
 			pp.pipe,
-- 
2.43.0


From 0cd7eb67aee42baf1cfa3abc84fcee401c789c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:47 +0000
Subject: [PATCH 05/25] fix: synchronize callback unregistration with
 registration and collection

---
 lightstep/sdk/metric/meter.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 90e877d..9d301dc 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -98,22 +98,27 @@ func (mr *metricRegistration) Unregister() error {
 		return ErrAlreadyUnregistered
 	}
 
-	mycb := mr.callback
-	cbs := mr.meter.callbacks
-
-	for i := 0; i < len(cbs); i++ {
-		if mycb == cbs[i] {
-			cbs[i] = cbs[len(cbs)-1]
-			mr.meter.callbacks = cbs[:len(cbs)-1]
-			break
-		}
-	}
-
+	mr.meter.unregister(mr.callback)
 	mr.callback = nil
 
 	return nil
 }
 
+// unregister removes a callback.  The list is replaced, not modified in
+// place, since collection iterates over it without holding the lock.
+func (m *meter) unregister(mycb *asyncstate.Callback) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
+	var cbs []*asyncstate.Callback
+	for _, cb := range m.callbacks {
+		if cb != mycb {
+			cbs = append(cbs, cb)
+		}
+	}
+	m.callbacks = cbs
+}
+
 // instrumentConstructor refers to either the syncstate or asyncstate
 // NewInstrument method.  Although both receive an opaque interface{}
 // to distinguish providers, only the asyncstate package needs to know
-- 
2.43.0


From f8038b8fc3f2a6515b1e57b8cc549f7ed25b74a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:49 +0000
Subject: [PATCH 06/25] fix: do not modify the caller's attribute slice when
 truncating

---
 lightstep/sdk/metric/sdkinstrument/performance.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lightstep/sdk/metric/sdkinstrument/performance.go b/lightstep/sdk/metric/sdkinstrument/performance.go
index fce29c5..971bc16 100644
--- a/lightstep/sdk/metric/sdkinstrument/performance.go
+++ b/lightstep/sdk/metric/sdkinstrument/performance.go
@@ -96,19 +96,31 @@ func (p Performance) Validate() Performance {
 	return p
 }
 
+// TruncateAttributes applies the AttributeSizeLimit.  The input belongs
+// to the caller and is not modified, a copy is returned when any
+// attribute has to be truncated.
 func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.KeyValue {
 	sizeLimit := p.AttributeSizeLimit
 	if sizeLimit == 0 {
 		return attrs
 	}
+	copied := false
+	copyOnWrite := func() {
+		if !copied {
+			attrs = append([]attribute.KeyValue(nil), attrs...)
+			copied = true
+		}
+	}
 	for idx, kv := range attrs {
 		if len(kv.Key) > int(sizeLimit) {
+			copyOnWrite()
 			attrs[idx].Key = kv.Key[:sizeLimit]
 		}
 		switch attrs[idx].Value.Type() {
 		case attribute.STRING:
 			s := kv.Value.AsString()
 			if len(s) > int(sizeLimit) {
+				copyOnWrite()
 				attrs[idx].Value = attribute.StringValue(s[:sizeLimit])
 			}
 
@@ -122,6 +134,7 @@ func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.
 				}
 			}
 			if any {
+				copyOnWrite()
 				attrs[idx].Value = attribute.StringSliceValue(ss)
 			}
 		}
-- 
2.43.0


From 5e88bb9f5b320f48fbeb3ee712767d2daad033ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:32 +0000
Subject: [PATCH 07/25] fix: enforce the instrument cardinality limit when
 records are inserted concurrently

---
 .../metric/internal/syncstate/bykeyvalue.go   | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
index 41b421d..63f130a 100644
--- a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
+++ b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
@@ -200,7 +200,15 @@ func acquireNotfoundKV[N number.Any](inst *Observer, fp uint64, attrs []attribut
 	newRec.computeAttrsUnderLock(attrs)
 
 	for {
-		acquired, loaded := acquireWriteKV(inst, fp, newRec)
+		acquired, loaded, overflow := acquireWriteKV(inst, fp, newRec)
+
+		if overflow {
+			// Other records were inserted since acquireRead
+			// tested the limit, use the overflow attributes.
+			fp = overflowAttributesFingerprint
+			newRec.computeAttrsUnderLock(pipeline.OverflowAttributes)
+			continue
+		}
 
 		if !loaded {
 			// When this happens, we are waiting for the call to delete()
@@ -215,7 +223,9 @@ func acquireNotfoundKV[N number.Any](inst *Observer, fp uint64, attrs []attribut
 }
 
 // acquireWriteKV acquires the write lock and gets or sets a `*record`.
-func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, bool) {
+// The last return value indicates that the record was not found and
+// the cardinality limit does not permit inserting another.
+func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, bool, bool) {
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
@@ -223,14 +233,18 @@ func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, boo
 
 		if inst.performance.IgnoreCollisions || attributesEqual(oldRec.attrsList, newRec.attrsList) {
 			if oldRec.refMapped.ref() {
-				return oldRec, true
+				return oldRec, true, false
 			}
 			// in which case, there's been a race
-			return nil, false
+			return nil, false, false
 		}
 	}
 
+	if fp != overflowAttributesFingerprint && uint32(len(inst.currentFP)) >= inst.performance.InstrumentCardinalityLimit-1 {
+		return nil, false, true
+	}
+
 	newRec.next = inst.currentFP[fp]
 	inst.currentFP[fp] = newRec
-	return newRec, true
+	return newRec, true, false
 }
-- 
2.43.0


From 15f2b4c667320b81d5f4ad738a2eeeabee1ea9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:36 +0000
Subject: [PATCH 08/25] fix: do not export after the periodic reader was shut
 down

---
 lightstep/sdk/metric/periodic.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/periodic.go b/lightstep/sdk/metric/periodic.go
index 54fef5d..c86c60a 100644
--- a/lightstep/sdk/metric/periodic.go
+++ b/lightstep/sdk/metric/periodic.go
@@ -16,8 +16,10 @@ package metric // import "github.com/lightstep/otel-launcher-go/lightstep/sdk/me
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
@@ -57,6 +59,7 @@ type PeriodicReader struct {
 	producer Producer
 	stop     context.CancelFunc
 	wait     sync.WaitGroup
+	shutdown atomic.Bool
 }
 
 type PeriodicReaderOption func(*PeriodicReader)
@@ -118,7 +121,7 @@ func (pr *PeriodicReader) start(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-ticker.C:
-			if err := pr.collectWithTimeout(ctx, pr.exporter.ExportMetrics); err != nil {
+			if err := pr.collectWithTimeout(ctx, pr.exporter.ExportMetrics); err != nil && !errors.Is(err, ErrAlreadyShutdown) {
 				otel.Handle(err)
 			}
 		}
@@ -136,15 +139,20 @@ func (pr *PeriodicReader) collectWithTimeout(ctx context.Context, method func(co
 // data.  There is no automatic timeout; to apply one, use
 // context.WithTimeout.
 func (pr *PeriodicReader) Shutdown(ctx context.Context) error {
+	pr.shutdown.Store(true)
 	pr.stop()
 	pr.wait.Wait()
-	return pr.collect(ctx, pr.exporter.ShutdownMetrics)
+
+	pr.lock.Lock()
+	defer pr.lock.Unlock()
+	return pr.collectLocked(ctx, pr.exporter.ShutdownMetrics)
 }
 
 // ForceFlush immediately waits for an existing collection, otherwise
 // immediately begins collection without regards to timing and calls
 // ForceFlush with current data.  There is no automatic timeout; to
-// apply one, use context.WithTimeout.
+// apply one, use context.WithTimeout.  Nothing is exported after
+// Shutdown, in which case ErrAlreadyShutdown is returned.
 func (pr *PeriodicReader) ForceFlush(ctx context.Context) error {
 	return pr.collect(ctx, pr.exporter.ForceFlushMetrics)
 }
@@ -156,6 +164,13 @@ func (pr *PeriodicReader) collect(ctx context.Context, method func(context.Conte
 	pr.lock.Lock()
 	defer pr.lock.Unlock()
 
+	if pr.shutdown.Load() {
+		return ErrAlreadyShutdown
+	}
+	return pr.collectLocked(ctx, method)
+}
+
+func (pr *PeriodicReader) collectLocked(ctx context.Context, method func(context.Context, data.Metrics) error) error {
 	// The lock ensures that re-use of `pr.data` is successful, it
 	// means that shutdown, flush, and ordinary collection are
 	// exclusive.  Note that shutdown will cancel a concurrent
-- 
2.43.0


From 5f0c99cab72e1b73f3d982e396309c95a18c0d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:38 +0000
Subject: [PATCH 09/25] fix: honor the context while waiting for a concurrent
 periodic export

---
 lightstep/sdk/metric/periodic.go | 34 +++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/periodic.go b/lightstep/sdk/metric/periodic.go
index c86c60a..59447e6 100644
--- a/lightstep/sdk/metric/periodic.go
+++ b/lightstep/sdk/metric/periodic.go
@@ -51,7 +51,7 @@ type PushExporter interface {
 // exporter, flush, and shutdown.  This implementation re-uses data
 // from one collection to the next, to lower memory costs.
 type PeriodicReader struct {
-	lock     sync.Mutex
+	lock     chan struct{} // 1-buffered, holds an item while locked
 	data     data.Metrics
 	interval time.Duration
 	timeout  time.Duration
@@ -74,6 +74,7 @@ func WithTimeout(d time.Duration) PeriodicReaderOption {
 // exporter given an interval.
 func NewPeriodicReader(exporter PushExporter, interval time.Duration, opts ...PeriodicReaderOption) *PeriodicReader {
 	pr := &PeriodicReader{
+		lock:     make(chan struct{}, 1),
 		interval: interval,
 		timeout:  interval,
 		exporter: exporter,
@@ -143,8 +144,10 @@ func (pr *PeriodicReader) Shutdown(ctx context.Context) error {
 	pr.stop()
 	pr.wait.Wait()
 
-	pr.lock.Lock()
-	defer pr.lock.Unlock()
+	if err := pr.acquire(ctx); err != nil {
+		return err
+	}
+	defer pr.release()
 	return pr.collectLocked(ctx, pr.exporter.ShutdownMetrics)
 }
 
@@ -157,12 +160,33 @@ func (pr *PeriodicReader) ForceFlush(ctx context.Context) error {
 	return pr.collect(ctx, pr.exporter.ForceFlushMetrics)
 }
 
+// acquire takes the lock, unless ctx ends while waiting for it.
+func (pr *PeriodicReader) acquire(ctx context.Context) error {
+	select {
+	case pr.lock <- struct{}{}:
+		return nil
+	default:
+	}
+	select {
+	case pr.lock <- struct{}{}:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
+func (pr *PeriodicReader) release() {
+	<-pr.lock
+}
+
 // collect serializes access to re-usable metrics data, in each case
 // calling through to an underlying PushExporter method with current
 // data.
 func (pr *PeriodicReader) collect(ctx context.Context, method func(context.Context, data.Metrics) error) error {
-	pr.lock.Lock()
-	defer pr.lock.Unlock()
+	if err := pr.acquire(ctx); err != nil {
+		return err
+	}
+	defer pr.release()
 
 	if pr.shutdown.Load() {
 		return ErrAlreadyShutdown
-- 
2.43.0


From 224c5782143543685e41e5d93d0d5927fcbb8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 10/25] fix: count each measurement once when several view
 clauses have one output

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 3bb06c0..b66174c 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -17,6 +17,7 @@ package viewstate // import "github.com/lightstep/otel-launcher-go/lightstep/sdk
 import (
 	"encoding/json"
 	"fmt"
+	"slices"
 	"strings"
 	"sync"
 
@@ -395,7 +396,11 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			}
 			conflicts.Add(v.views.Name, c)
 		}
-		compiled = append(compiled, leaf)
+		if !slices.Contains(compiled, Instrument(leaf)) {
+			// Several clauses may describe the same output,
+			// which has to count each measurement once.
+			compiled = append(compiled, leaf)
+		}
 	}
 	return Combine(instrument, compiled...), conflicts
 }
-- 
2.43.0


From 9509f4cc1622ebe9eac688f39aa6eb76363068c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:51 +0000
Subject: [PATCH 11/25] fix: do not collect an instrument that every reader
 drops

---
 lightstep/sdk/metric/meter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 9d301dc..eb9b7af 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -177,9 +177,10 @@ func configureInstrument[T any](
 	err := conflicts.AsError()
 
 	if inst != nil {
+		// The instrument is nil when every reader drops it.
 		m.byDesc[desc] = inst
+		*listPtr = append(*listPtr, inst)
 	}
-	*listPtr = append(*listPtr, inst)
 	if err != nil {
 		// Handle instrument creation errors when they're new,
 		// not for repeat entries above.
-- 
2.43.0


From 3135d468c3ac6c2c876c7a83c6d411350ad5f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:54 +0000
Subject: [PATCH 12/25] fix: convert negative integers to float64 by their
 signed value

---
 lightstep/sdk/metric/internal/export/export.go | 4 ++--
 lightstep/sdk/metric/number/number.go          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index a226228..dde7b14 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -252,8 +252,8 @@ func copyMMSCPoints(m pmetric.Metric, inM data.Instrument) {
 			dp.SetSum(t.Sum().CoerceToFloat64(number.Int64Kind))
 			dp.SetCount(t.Count())
 			if t.Count() != 0 {
-				dp.SetMax(number.ToFloat64(t.Max()))
-				dp.SetMin(number.ToFloat64(t.Min()))
+				dp.SetMax(t.Max().CoerceToFloat64(number.Int64Kind))
+				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 		case *minmaxsumcount.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
diff --git a/lightstep/sdk/metric/number/number.go b/lightstep/sdk/metric/number/number.go
index ee4dd61..28d0272 100644
--- a/lightstep/sdk/metric/number/number.go
+++ b/lightstep/sdk/metric/number/number.go
@@ -40,7 +40,7 @@ type Any interface {
 // CoerceToFloat64 converts Number to float64 according to Kind.
 func (n Number) CoerceToFloat64(k Kind) float64 {
 	if k == Int64Kind {
-		return float64(n)
+		return float64(int64(n))
 	}
 	return math.Float64frombits(uint64(n))
 }
-- 
2.43.0


From e335ef245f5a68343fe2579642ef8d6e363af4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:54 +0000
Subject: [PATCH 13/25] fix: export spans under their own resource and scope

---
 .../sdk/trace/exporters/otlp/otelcol/otlp.go  | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 93a3048..8124ac1 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -20,6 +20,8 @@ import (
 	"go.opentelemetry.io/collector/pdata/ptrace"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/sdk/instrumentation"
+	"go.opentelemetry.io/otel/sdk/resource"
 	"go.opentelemetry.io/otel/sdk/trace"
 	apitrace "go.opentelemetry.io/otel/trace"
 )
@@ -81,21 +83,28 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 	if len(in) == 0 {
 		return out
 	}
-	rs := out.ResourceSpans().AppendEmpty()
-
-	c.ResourceMap.Get(in[0].Resource()).CopyTo(rs.Resource())
-
-	curName := ""
-	var ss ptrace.ScopeSpans
-	for _, tr := range in {
-		// input is list of ReadOnlySpans. Add spans to the same scopespan
-		// until new scope name is encountered.
-		if ssName := tr.InstrumentationScope().Name; ssName != curName {
-			curName = ssName
+	var (
+		rs       ptrace.ResourceSpans
+		ss       ptrace.ScopeSpans
+		curRes   *resource.Resource
+		curScope instrumentation.Scope
+	)
+	for i, tr := range in {
+		// input is list of ReadOnlySpans. Add spans to the same
+		// resourcespan and scopespan until a new resource or a new
+		// scope (name, version, schema) is encountered.
+		newRes := i == 0 || !tr.Resource().Equal(curRes)
+		if newRes {
+			curRes = tr.Resource()
+			rs = out.ResourceSpans().AppendEmpty()
+			c.ResourceMap.Get(curRes).CopyTo(rs.Resource())
+		}
+		if scope := tr.InstrumentationScope(); newRes || scope != curScope {
+			curScope = scope
 			ss = rs.ScopeSpans().AppendEmpty()
-			ss.SetSchemaUrl(tr.InstrumentationScope().SchemaURL)
-			ss.Scope().SetName(tr.InstrumentationScope().Name)
-			ss.Scope().SetVersion(tr.InstrumentationScope().Version)
+			ss.SetSchemaUrl(scope.SchemaURL)
+			ss.Scope().SetName(scope.Name)
+			ss.Scope().SetVersion(scope.Version)
 		}
 
 		s := ss.Spans().AppendEmpty()
-- 
2.43.0


From 44ba8894b9b0cdf967f7f04892031d065ce4fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:54 +0000
Subject: [PATCH 14/25] fix: do not reorder the attributes of exported spans

---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 8124ac1..6723386 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -26,6 +26,12 @@ import (
 	apitrace "go.opentelemetry.io/otel/trace"
 )
 
+// attributeSet returns the set of the attributes, leaving the slice, which
+// belongs to the span, as it is: attribute.NewSet sorts its arguments in place.
+func attributeSet(attrs []attribute.KeyValue) attribute.Set {
+	return attribute.NewSet(append([]attribute.KeyValue(nil), attrs...)...)
+}
+
 func copyEvents(dest ptrace.SpanEventSlice, events []trace.Event) {
 	for _, event := range events {
 		e1 := dest.AppendEmpty()
@@ -33,7 +39,7 @@ func copyEvents(dest ptrace.SpanEventSlice, events []trace.Event) {
 		e1.SetName(event.Name)
 		e1.SetTimestamp(pcommon.NewTimestampFromTime(event.Time))
 
-		internal.CopyAttributes(e1.Attributes(), attribute.NewSet(event.Attributes...))
+		internal.CopyAttributes(e1.Attributes(), attributeSet(event.Attributes))
 	}
 }
 
@@ -45,7 +51,7 @@ func copyLinks(dest ptrace.SpanLinkSlice, links []trace.Link) {
 		l1.SetTraceID(pcommon.TraceID(link.SpanContext.TraceID()))
 		l1.TraceState().FromRaw(link.SpanContext.TraceState().String())
 
-		internal.CopyAttributes(l1.Attributes(), attribute.NewSet(link.Attributes...))
+		internal.CopyAttributes(l1.Attributes(), attributeSet(link.Attributes))
 	}
 }
 
@@ -122,7 +128,7 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 		s.Status().SetCode(translateSpanStatusCode(tr.Status().Code))
 		s.Status().SetMessage(tr.Status().Description)
 
-		internal.CopyAttributes(s.Attributes(), attribute.NewSet(tr.Attributes()...))
+		internal.CopyAttributes(s.Attributes(), attributeSet(tr.Attributes()))
 		copyEvents(s.Events(), tr.Events())
 		copyLinks(s.Links(), tr.Links())
 	}
-- 
2.43.0


From a1124a7ccdae49b6a813af7c83f86b0c5fe801f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:54 +0000
Subject: [PATCH 15/25] fix: do not panic on an attribute value without type

---
 lightstep/sdk/internal/common.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/internal/common.go b/lightstep/sdk/internal/common.go
index bd40754..06fb954 100644
--- a/lightstep/sdk/internal/common.go
+++ b/lightstep/sdk/internal/common.go
@@ -106,7 +106,9 @@ func CopyAttributes(dest pcommon.Map, src attribute.Set) {
 				sl.AppendEmpty().SetStr(v)
 			}
 		default:
-			panic("unhandled case")
+			// A value without a type (attribute.INVALID) is accepted by
+			// the API: mark it, as the OpenTelemetry exporters do.
+			dest.PutStr(key, "INVALID")
 		}
 	}
 }
-- 
2.43.0


From c2e9114357ea50e22170fa91e8da33da7654ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:55 +0000
Subject: [PATCH 16/25] fix: count every value in explicit histogram buckets

---
 .../sdk/metric/internal/export/export.go      | 50 ++++++++++++++-----
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index dde7b14..b9ac5a2 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -17,7 +17,10 @@ package export
 import (
 	"context"
 	"errors"
+	"math"
 
+	"github.com/lightstep/go-expohisto/mapping"
+	"github.com/lightstep/go-expohisto/mapping/exponent"
 	"github.com/lightstep/go-expohisto/mapping/logarithm"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
@@ -117,7 +120,7 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), t.Negative(), t.ZeroCount(), t.Scale(), dp)
 
 		case *histogram.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
@@ -127,7 +130,7 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(number.ToFloat64(t.Min()))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), t.Negative(), t.ZeroCount(), t.Scale(), dp)
 		default:
 			panic("unhandled case")
 		}
@@ -138,41 +141,64 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 // explicitly defined buckets.
 func copyExplicitHistogramBuckets(
 	sourcePositiveBuckets aggregation.Buckets,
+	sourceNegativeBuckets aggregation.Buckets,
 	sourceZeroCount uint64,
 	sourceScale int32,
 	dest pmetric.HistogramDataPoint,
 ) {
-	// add the zero bucket in: (-Inf, 0]
+	// add the zero bucket in: (-Inf, 0], it includes the negative values.
+	lowCount := sourceZeroCount
+	for idx := uint32(0); idx < sourceNegativeBuckets.Len(); idx++ {
+		lowCount += sourceNegativeBuckets.At(idx)
+	}
 	dest.ExplicitBounds().Append(0)
-	dest.BucketCounts().Append(sourceZeroCount)
+	dest.BucketCounts().Append(lowCount)
+
+	// The (..., +Inf] bucket is for values without a finite right bound.
+	highCount := uint64(0)
 
 	if sourcePositiveBuckets.Len() > 0 {
 		positiveOffset := sourcePositiveBuckets.Offset()
 		positiveNumElements := int32(sourcePositiveBuckets.Len())
-		mapping, _ := logarithm.NewMapping(sourceScale)
-		leftBound, _ := mapping.LowerBoundary(positiveOffset)
+		mapFunc := newMapping(sourceScale)
+		leftBound, _ := mapFunc.LowerBoundary(positiveOffset)
 
 		for element := int32(0); element < positiveNumElements; element++ {
 			index := element + positiveOffset
 
-			rightBound, _ := mapping.LowerBoundary(index + 1)
+			rightBound, err := mapFunc.LowerBoundary(index + 1)
 
 			// We have to add a bucket to get from zero to the start of the first user-defined bucket.
 			// This has no count.
-			if element == 0 {
+			if element == 0 && !math.IsInf(leftBound, +1) {
 				dest.ExplicitBounds().Append(leftBound)
 				dest.BucketCounts().Append(0)
 			}
 
+			if err != nil || math.IsInf(rightBound, +1) {
+				// The right bound is greater than the largest float64.
+				highCount += sourcePositiveBuckets.At(uint32(element))
+				continue
+			}
+
 			dest.ExplicitBounds().Append(rightBound)
 			dest.BucketCounts().Append(sourcePositiveBuckets.At(uint32(element)))
-
-			leftBound = rightBound
 		}
 	}
 
-	// There are no elements in the (..., +Inf] bucket.
-	dest.BucketCounts().Append(0)
+	dest.BucketCounts().Append(highCount)
+}
+
+// newMapping returns the mapping function used by exponential histograms of
+// the given scale.
+func newMapping(scale int32) mapping.Mapping {
+	var m mapping.Mapping
+	if scale > 0 {
+		m, _ = logarithm.NewMapping(scale)
+	} else {
+		m, _ = exponent.NewMapping(scale)
+	}
+	return m
 }
 
 func copyExponentialHistogramPoints(m pmetric.Metric, inM data.Instrument) {
-- 
2.43.0


From 72cc40fd350525bce3315862e79154b207e4f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:11 +0000
Subject: [PATCH 17/25] fix: keep concurrent readings of runtime metrics apart

---
 lightstep/instrumentation/runtime/builtin.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lightstep/instrumentation/runtime/builtin.go b/lightstep/instrumentation/runtime/builtin.go
index a5685de..596eb13 100644
--- a/lightstep/instrumentation/runtime/builtin.go
+++ b/lightstep/instrumentation/runtime/builtin.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"fmt"
 	"runtime/metrics"
+	"sync"
 
 	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/metric"
@@ -184,7 +185,13 @@ func (r *builtinRuntime) register(desc *builtinDescriptor) error {
 		})
 	}
 
+	// lock protects samples: several readers may collect at once.
+	var lock sync.Mutex
+
 	if _, err := r.meter.RegisterCallback(func(ctx context.Context, obs metric.Observer) error {
+		lock.Lock()
+		defer lock.Unlock()
+
 		r.readFunc(samples)
 
 		for idx, samp := range samples {
-- 
2.43.0


From 02d9f170b579f5a7cc26c5c5ba628e7ead691631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:11 +0000
Subject: [PATCH 18/25] fix: pass errors returned by callbacks to the error
 handler

---
 lightstep/sdk/metric/internal/asyncstate/callback.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/asyncstate/callback.go b/lightstep/sdk/metric/internal/asyncstate/callback.go
index 0721957..5e6552d 100644
--- a/lightstep/sdk/metric/internal/asyncstate/callback.go
+++ b/lightstep/sdk/metric/internal/asyncstate/callback.go
@@ -20,6 +20,7 @@ import (
 	"sync"
 
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
+	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/metric"
 )
 
@@ -77,7 +78,9 @@ func (c *Callback) Run(ctx context.Context, state *State) {
 		callback: c,
 		state:    state,
 	}
-	c.function(ctx, cp)
+	if err := c.function(ctx, cp); err != nil {
+		otel.Handle(err)
+	}
 	cp.invalidate()
 }
 
-- 
2.43.0


From 509d0f020e99d29dd75debcfddf911d860dcd228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:11 +0000
Subject: [PATCH 19/25] fix: report an error when network counters are
 malformed

---
 lightstep/instrumentation/host/host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/instrumentation/host/host.go b/lightstep/instrumentation/host/host.go
index fe43adc..ef8b07f 100644
--- a/lightstep/instrumentation/host/host.go
+++ b/lightstep/instrumentation/host/host.go
@@ -201,7 +201,7 @@ func (h *host) register() error {
 				return err
 			}
 			if len(ioStats) != 1 {
-				return err
+				return fmt.Errorf("host network usage: incorrect summary count")
 			}
 
 			// Host CPU time
-- 
2.43.0


From 1d1d5aae348af91907344731a0034c182dd872a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:07 +0000
Subject: [PATCH 20/25] fix: synchronize reading an instrument's descriptor
 with merging descriptions

---
 lightstep/sdk/metric/internal/viewstate/base_instrument.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/base_instrument.go b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
index fdc6beb..eea9337 100644
--- a/lightstep/sdk/metric/internal/viewstate/base_instrument.go
+++ b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
@@ -77,6 +77,8 @@ func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) OriginalName() str
 }
 
 func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) Descriptor() sdkinstrument.Descriptor {
+	metric.instLock.Lock()
+	defer metric.instLock.Unlock()
 	return metric.desc
 }
 
-- 
2.43.0


From a0dd9eca82863531e54a5fcc65fa1c8fe515d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 21/25] fix: close the span exporter when the propagators are
 invalid

NewTracePipeline returned an error but left the exporter and its batch
processor running, with nothing to shut them down.
---
 pipelines/trace.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipelines/trace.go b/pipelines/trace.go
index 694aebb..449a9fa 100644
--- a/pipelines/trace.go
+++ b/pipelines/trace.go
@@ -45,6 +45,9 @@ func NewTracePipeline(c PipelineConfig) (func() error, error) {
 	)
 
 	if err = configurePropagators(c); err != nil {
+		// There is no pipeline to shut down later: stop the processor
+		// and close the exporter here.
+		_ = bsp.Shutdown(context.Background())
 		return nil, err
 	}
 
-- 
2.43.0


From 6590253f0fee57fbd9de81153710ded37b610343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 22/25] fix: resolve the sum aggregation of a hint for the
 instrument kind

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index b66174c..c8484be 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -636,11 +636,6 @@ func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config
 // checkSemanticCompatibility checks whether an instrument /
 // aggregator pairing is well defined.
 func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior) error {
-	if behavior.hinted {
-		// Anything goes!
-		return nil
-	}
-
 	agg := behavior.kind
 	cat := agg.Category(ik)
 
@@ -656,6 +651,11 @@ func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior)
 		behavior.kind = agg
 	}
 
+	if behavior.hinted {
+		// Anything goes!
+		return nil
+	}
+
 	switch ik {
 	case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram:
 		switch cat {
-- 
2.43.0


From 7c93aa5fb5b874932861f5b51e808aeba9c45ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 23/25] fix: apply the default aggregator configuration to
 clauses that set none

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 4 ++--
 lightstep/sdk/metric/view/views.go                   | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index c8484be..1758d17 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -625,9 +625,9 @@ func equalConfigs(a, b aggregator.Config) bool {
 }
 
 // pickAggConfig returns the aggregator configuration prescribed by a
-// view clause when it not the default value, otherwise the hinted config.
+// view clause when set and not the default value, otherwise the hinted config.
 func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config {
-	if viewCfg != defCfg {
+	if viewCfg != (aggregator.Config{}) && viewCfg != defCfg {
 		return viewCfg
 	}
 	return hintCfg
diff --git a/lightstep/sdk/metric/view/views.go b/lightstep/sdk/metric/view/views.go
index 49bd207..6b31c67 100644
--- a/lightstep/sdk/metric/view/views.go
+++ b/lightstep/sdk/metric/view/views.go
@@ -107,7 +107,11 @@ func Validate(v *Views) (*Views, error) {
 		clause := &valid.Clauses[i]
 
 		err = v.checkAggregation(err, &clause.aggregation, aggregation.UndefinedKind)
-		err = v.checkAggConfig(err, &clause.acfg)
+		if clause.acfg != (aggregator.Config{}) {
+			// Note: when unset, the default or hinted
+			// configuration applies.
+			err = v.checkAggConfig(err, &clause.acfg)
+		}
 
 		if clause.instrumentName != "" && clause.instrumentNameRegexp != nil {
 			err = multierr.Append(err, fmt.Errorf("view has instrument name and regexp matches"))
-- 
2.43.0


From fec1197fde00af2c8dbb736f81ab7fa8d3ac2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:41 +0000
Subject: [PATCH 24/25] fix: export the schema URL of the resource

---
 lightstep/sdk/metric/internal/export/export.go     | 1 +
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index b9ac5a2..6186aa1 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -303,6 +303,7 @@ func d2pd(
 	rm := out.ResourceMetrics().AppendEmpty()
 
 	resourceMap.Get(in.Resource).CopyTo(rm.Resource())
+	rm.SetSchemaUrl(in.Resource.SchemaURL())
 
 	for _, inS := range in.Scopes {
 		sm := rm.ScopeMetrics().AppendEmpty()
diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 6723386..1a6a795 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -99,11 +99,12 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 		// input is list of ReadOnlySpans. Add spans to the same
 		// resourcespan and scopespan until a new resource or a new
 		// scope (name, version, schema) is encountered.
-		newRes := i == 0 || !tr.Resource().Equal(curRes)
+		newRes := i == 0 || !tr.Resource().Equal(curRes) || tr.Resource().SchemaURL() != curRes.SchemaURL()
 		if newRes {
 			curRes = tr.Resource()
 			rs = out.ResourceSpans().AppendEmpty()
 			c.ResourceMap.Get(curRes).CopyTo(rs.Resource())
+			rs.SetSchemaUrl(curRes.SchemaURL())
 		}
 		if scope := tr.InstrumentationScope(); newRes || scope != curScope {
 			curScope = scope
-- 
2.43.0


From 05829923da89bc6e9ed1edabaf57e965cfe5d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:41 +0000
Subject: [PATCH 25/25] fix: keep the attributes of instrumentation scopes

---
 lightstep/sdk/metric/internal/export/export.go     | 1 +
 lightstep/sdk/metric/provider.go                   | 7 ++++---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index 6186aa1..b2f6e85 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -309,6 +309,7 @@ func d2pd(
 		sm := rm.ScopeMetrics().AppendEmpty()
 		sm.Scope().SetName(inS.Library.Name)
 		sm.Scope().SetVersion(inS.Library.Version)
+		internal.CopyAttributes(sm.Scope().Attributes(), inS.Library.Attributes)
 		sm.SetSchemaUrl(inS.Library.SchemaURL)
 
 		for _, inM := range inS.Instruments {
diff --git a/lightstep/sdk/metric/provider.go b/lightstep/sdk/metric/provider.go
index a416a35..dca9306 100644
--- a/lightstep/sdk/metric/provider.go
+++ b/lightstep/sdk/metric/provider.go
@@ -103,9 +103,10 @@ func NewMeterProvider(options ...Option) *MeterProvider {
 func (mp *MeterProvider) Meter(name string, options ...metric.MeterOption) metric.Meter {
 	cfg := metric.NewMeterConfig(options...)
 	lib := instrumentation.Scope{
-		Name:      name,
-		Version:   cfg.InstrumentationVersion(),
-		SchemaURL: cfg.SchemaURL(),
+		Name:       name,
+		Version:    cfg.InstrumentationVersion(),
+		SchemaURL:  cfg.SchemaURL(),
+		Attributes: cfg.InstrumentationAttributes(),
 	}
 
 	mp.lock.Lock()
diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 1a6a795..578c306 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -98,7 +98,7 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 	for i, tr := range in {
 		// input is list of ReadOnlySpans. Add spans to the same
 		// resourcespan and scopespan until a new resource or a new
-		// scope (name, version, schema) is encountered.
+		// scope (name, version, schema, attributes) is encountered.
 		newRes := i == 0 || !tr.Resource().Equal(curRes) || tr.Resource().SchemaURL() != curRes.SchemaURL()
 		if newRes {
 			curRes = tr.Resource()
@@ -112,6 +112,7 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 			ss.SetSchemaUrl(scope.SchemaURL)
 			ss.Scope().SetName(scope.Name)
 			ss.Scope().SetVersion(scope.Version)
+			internal.CopyAttributes(ss.Scope().Attributes(), scope.Attributes)
 		}
 
 		s := ss.Spans().AppendEmpty()
-- 
2.43.0

