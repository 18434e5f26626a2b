package main

// Intrinsics of the verification harnesses.  The symbolic executor replaces
// them; these bodies are what a native replay runs.

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"time"
)

type vInputVal struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

var vInputs []vInputVal
var vInputPos int

type vStop struct{ why string }

func vLoadInputs(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &vInputs); err != nil {
		panic(err)
	}
	vInputPos = 0
}

func vNext(name string) int64 {
	if vInputPos >= len(vInputs) {
		panic(vStop{"inputs exhausted at " + name})
	}
	v := vInputs[vInputPos]
	vInputPos++
	return v.Val
}

func vInt(name string, lo, hi int) int {
	v := int(vNext(name))
	if v < lo || v > hi {
		panic(vStop{fmt.Sprintf("input %s=%d outside [%d,%d]", name, v, lo, hi)})
	}
	return v
}
func vBool(name string) bool     { return vNext(name) != 0 }
func vU8(name string) uint8      { return uint8(vNext(name)) }
func vU16(name string) uint16    { return uint16(vNext(name)) }
func vI16(name string) int16     { return int16(vNext(name)) }
func vU32(name string) uint32    { return uint32(vNext(name)) }
func vI32(name string) int32     { return int32(vNext(name)) }
func vU64(name string) uint64    { return uint64(vNext(name)) }
func vI64(name string) int64     { return vNext(name) }
func vPick(name string, n int) int { return int(vNext(name)) }
func vConcrete(v int) int        { return v }

func vAssume(b bool) {
	if !b {
		panic(vStop{"assumption does not hold"})
	}
}

var vFailed string

func vAssert(b bool, id string) {
	if !b {
		if vFailed == "" {
			vFailed = id
		}
		fmt.Printf("VERIF-ASSERT-FAILED %s\n", id)
		panic(vStop{"assertion " + id})
	}
}
func vReach(id string) {}

func vFails(f func()) (failed bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vStop); ok {
				panic(s)
			}
			failed = true
		}
	}()
	f()
	return false
}
func vEncoding() bool    { return false }
func vMapOrder(b bool)   {}
func vSchedules(n int)   {}
func vSteps(n int)       {}
func vSettle() int {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(10 * time.Millisecond)
	}
	return runtime.NumGoroutine() - vBaseGoroutines
}

var vBaseGoroutines int

func vIte(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func vAnd(a, b bool) bool { return a && b }
func vOr(a, b bool) bool  { return a || b }
func vImp(a, b bool) bool { return !a || b }
func vTempDir() string    { return os.Getenv("VERIF_TMP") }
