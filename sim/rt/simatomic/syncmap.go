package simatomic

import (
	"sync"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

// SyncMap is sync.Map.
type SyncMap struct{ m sync.Map }

func (m *SyncMap) Load(k any) (any, bool)            { simrt.Y(0); return m.m.Load(k) }
func (m *SyncMap) Store(k, v any)                    { simrt.Y(0); m.m.Store(k, v) }
func (m *SyncMap) Clear()                            { simrt.Y(0); m.m.Clear() }
func (m *SyncMap) LoadOrStore(k, v any) (any, bool)  { simrt.Y(0); return m.m.LoadOrStore(k, v) }
func (m *SyncMap) LoadAndDelete(k any) (any, bool)   { simrt.Y(0); return m.m.LoadAndDelete(k) }
func (m *SyncMap) Delete(k any)                      { simrt.Y(0); m.m.Delete(k) }
func (m *SyncMap) Swap(k, v any) (any, bool)         { simrt.Y(0); return m.m.Swap(k, v) }
func (m *SyncMap) CompareAndSwap(k, o, n any) bool   { simrt.Y(0); return m.m.CompareAndSwap(k, o, n) }
func (m *SyncMap) CompareAndDelete(k, o any) bool    { simrt.Y(0); return m.m.CompareAndDelete(k, o) }
func (m *SyncMap) Range(f func(key, value any) bool) { simrt.Y(0); m.m.Range(f) }
