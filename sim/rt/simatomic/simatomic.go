// Package simatomic has the API of package sync/atomic; every operation is a
// yield point.
package simatomic

import (
	ra "sync/atomic"
	"unsafe"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

func AddInt32(p *int32, d int32) int32  { simrt.Y(0); return ra.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { simrt.Y(0); return ra.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { simrt.Y(0); ra.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { simrt.Y(0); return ra.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.Y(0)
	return ra.CompareAndSwapInt32(p, o, n)
}
func AndInt32(p *int32, m int32) int32 { simrt.Y(0); return ra.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { simrt.Y(0); return ra.OrInt32(p, m) }

type Int32 struct{ v ra.Int32 }

func (x *Int32) Load() int32                    { simrt.Y(0); return x.v.Load() }
func (x *Int32) Store(v int32)                  { simrt.Y(0); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { simrt.Y(0); return x.v.Swap(v) }
func (x *Int32) Add(v int32) int32              { simrt.Y(0); return x.v.Add(v) }
func (x *Int32) And(v int32) int32              { simrt.Y(0); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { simrt.Y(0); return x.v.Or(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { simrt.Y(0); return x.v.CompareAndSwap(o, n) }

func AddInt64(p *int64, d int64) int64  { simrt.Y(0); return ra.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { simrt.Y(0); return ra.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { simrt.Y(0); ra.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { simrt.Y(0); return ra.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.Y(0)
	return ra.CompareAndSwapInt64(p, o, n)
}
func AndInt64(p *int64, m int64) int64 { simrt.Y(0); return ra.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { simrt.Y(0); return ra.OrInt64(p, m) }

type Int64 struct{ v ra.Int64 }

func (x *Int64) Load() int64                    { simrt.Y(0); return x.v.Load() }
func (x *Int64) Store(v int64)                  { simrt.Y(0); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { simrt.Y(0); return x.v.Swap(v) }
func (x *Int64) Add(v int64) int64              { simrt.Y(0); return x.v.Add(v) }
func (x *Int64) And(v int64) int64              { simrt.Y(0); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { simrt.Y(0); return x.v.Or(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { simrt.Y(0); return x.v.CompareAndSwap(o, n) }

func AddUint32(p *uint32, d uint32) uint32  { simrt.Y(0); return ra.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { simrt.Y(0); return ra.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { simrt.Y(0); ra.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { simrt.Y(0); return ra.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.Y(0)
	return ra.CompareAndSwapUint32(p, o, n)
}
func AndUint32(p *uint32, m uint32) uint32 { simrt.Y(0); return ra.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { simrt.Y(0); return ra.OrUint32(p, m) }

type Uint32 struct{ v ra.Uint32 }

func (x *Uint32) Load() uint32                    { simrt.Y(0); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { simrt.Y(0); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { simrt.Y(0); return x.v.Swap(v) }
func (x *Uint32) Add(v uint32) uint32             { simrt.Y(0); return x.v.Add(v) }
func (x *Uint32) And(v uint32) uint32             { simrt.Y(0); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { simrt.Y(0); return x.v.Or(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { simrt.Y(0); return x.v.CompareAndSwap(o, n) }

func AddUint64(p *uint64, d uint64) uint64  { simrt.Y(0); return ra.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { simrt.Y(0); return ra.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { simrt.Y(0); ra.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { simrt.Y(0); return ra.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.Y(0)
	return ra.CompareAndSwapUint64(p, o, n)
}
func AndUint64(p *uint64, m uint64) uint64 { simrt.Y(0); return ra.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { simrt.Y(0); return ra.OrUint64(p, m) }

type Uint64 struct{ v ra.Uint64 }

func (x *Uint64) Load() uint64                    { simrt.Y(0); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { simrt.Y(0); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { simrt.Y(0); return x.v.Swap(v) }
func (x *Uint64) Add(v uint64) uint64             { simrt.Y(0); return x.v.Add(v) }
func (x *Uint64) And(v uint64) uint64             { simrt.Y(0); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { simrt.Y(0); return x.v.Or(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { simrt.Y(0); return x.v.CompareAndSwap(o, n) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { simrt.Y(0); return ra.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { simrt.Y(0); return ra.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { simrt.Y(0); ra.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { simrt.Y(0); return ra.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	simrt.Y(0)
	return ra.CompareAndSwapUintptr(p, o, n)
}
func AndUintptr(p *uintptr, m uintptr) uintptr { simrt.Y(0); return ra.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { simrt.Y(0); return ra.OrUintptr(p, m) }

type Uintptr struct{ v ra.Uintptr }

func (x *Uintptr) Load() uintptr                    { simrt.Y(0); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { simrt.Y(0); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { simrt.Y(0); return x.v.Swap(v) }
func (x *Uintptr) Add(v uintptr) uintptr            { simrt.Y(0); return x.v.Add(v) }
func (x *Uintptr) And(v uintptr) uintptr            { simrt.Y(0); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { simrt.Y(0); return x.v.Or(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { simrt.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { simrt.Y(0); return ra.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.Y(0); ra.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.Y(0)
	return ra.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.Y(0)
	return ra.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v ra.Bool }

func (x *Bool) Load() bool                    { simrt.Y(0); return x.v.Load() }
func (x *Bool) Store(v bool)                  { simrt.Y(0); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { simrt.Y(0); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { simrt.Y(0); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v ra.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { simrt.Y(0); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { simrt.Y(0); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { simrt.Y(0); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { simrt.Y(0); return x.v.CompareAndSwap(o, n) }

type Value struct{ v ra.Value }

func (x *Value) Load() any                    { simrt.Y(0); return x.v.Load() }
func (x *Value) Store(v any)                  { simrt.Y(0); x.v.Store(v) }
func (x *Value) Swap(v any) any               { simrt.Y(0); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { simrt.Y(0); return x.v.CompareAndSwap(o, n) }
