//go:build !verifsym

// Package vrt: harness primitives, native version used to replay a solver
// assignment against the compiled code.
package vrt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

type replayFile struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Inputs  map[string]uint64 `json:"inputs"`
}

var (
	rf   replayFile
	seq  = map[string]int{}
	verb = os.Getenv("VRT_VERBOSE") != ""
)

// Main runs the harness named in the replay file given as first argument.
func Main(run func(string) bool) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println("REPLAY-ERROR", err)
		os.Exit(3)
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println("REPLAY-ERROR", err)
		os.Exit(3)
	}
	lim := 20 * time.Second
	go func() {
		time.Sleep(lim)
		fmt.Println("REPLAY-HANG still running after", lim)
		os.Exit(12)
	}()
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("REPLAY-PANIC %v\n%s\n", r, debug.Stack())
			os.Exit(11)
		}
	}()
	if !run(rf.Harness) {
		fmt.Println("REPLAY-ERROR unknown harness", rf.Harness)
		os.Exit(3)
	}
	fmt.Println("REPLAY-OK")
}

func draw(name string) uint64 { return drawKey(name, "") }

func drawKey(name, suffix string) uint64 {
	k := seq[name]
	seq[name] = k + 1
	key := fmt.Sprintf("%s#%d%s", name, k, suffix)
	v := rf.Inputs[key]
	if verb {
		fmt.Printf("input %s = %d\n", key, v)
	}
	return v
}

func Byte(name string) byte  { return byte(draw(name)) }
func U16(name string) uint16 { return uint16(draw(name)) }
func U32(name string) uint32 { return uint32(draw(name)) }
func U64(name string) uint64 { return draw(name) }
func Bool(name string) bool  { return draw(name) != 0 }
func Int(name string, lo, hi int) int {
	return lo + int(drawKey(name, fmt.Sprintf("~%d", hi-lo)))
}
func Choice(name string, n int) int { return int(drawKey(name, fmt.Sprintf("~%d", n-1))) }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return b
}
func Assume(c bool) {
	if !c {
		fmt.Println("REPLAY-ASSUME-FALSE")
		os.Exit(13)
	}
}
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("REPLAY-ASSERT", msg)
		os.Exit(10)
	}
}
func Reach(label string) {
	if verb {
		fmt.Println("reach", label)
	}
}
func Param(name string, def int) int {
	if v, ok := rf.Params[name]; ok {
		return v
	}
	return def
}
func Conc(x int) int           { return x }
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func EqStr(a, b string) bool   { return a == b }
func MergeInts(on bool)        {}
func Select(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Log(s string) {
	if verb {
		fmt.Println("log:", s)
	}
}
func StepLimit(n int) {}
func Symbolic() bool  { return false }
func Stop()           { fmt.Println("REPLAY-STOP"); os.Exit(0) }

func AnyLen(x any) int                    { panic("symbolic only") }
func AnySwap(x any, i, j int)             { panic("symbolic only") }
func AsTarget(err error, target any) bool { panic("symbolic only") }

// Unsup: the path uses what no model covers.
func Unsup(what string) { fmt.Println("REPLAY-STOP"); os.Exit(0) }
