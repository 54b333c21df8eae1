//go:build !race

package simrt

import "unsafe"

const RaceEnabled = false

func raceDisable()          {}
func raceEnable()           {}
func raceAcquire(h *Handle) {}
func raceRelease(h *Handle) {}

func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceDisable()                      {}
func RaceEnable()                       {}
