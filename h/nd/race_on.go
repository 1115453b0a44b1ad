//go:build race

package nd

import (
	"reflect"
	"runtime"
	"unsafe"
)

func raceAcquire(p any) { runtime.RaceAcquire(unsafe.Pointer(reflect.ValueOf(p).Pointer())) }
func raceRelease(p any) { runtime.RaceReleaseMerge(unsafe.Pointer(reflect.ValueOf(p).Pointer())) }
