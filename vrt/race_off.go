//go:build !race

package vrt

import "unsafe"

const RaceBuild = false

func raceDisable()                    {}
func raceEnable()                     {}
func raceAcquire(unsafe.Pointer)      {}
func raceRelease(unsafe.Pointer)      {}
func raceReleaseMerge(unsafe.Pointer) {}
func raceErrors() int                 { return 0 }
