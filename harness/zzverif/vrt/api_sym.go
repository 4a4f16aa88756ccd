//go:build verifsym

// Package vrt: harness primitives. Under the symbolic executor every function
// here is an intrinsic; the bodies are never run.
package vrt

func Byte(name string) byte           { panic("intrinsic") }
func U16(name string) uint16          { panic("intrinsic") }
func U32(name string) uint32          { panic("intrinsic") }
func U64(name string) uint64          { panic("intrinsic") }
func Bool(name string) bool           { panic("intrinsic") }
func Int(name string, lo, hi int) int { panic("intrinsic") }
func Choice(name string, n int) int   { panic("intrinsic") }
func Bytes(name string, n int) []byte { panic("intrinsic") }
func Assume(c bool)                   { panic("intrinsic") }
func Assert(c bool, msg string)       { panic("intrinsic") }
func Reach(label string)              { panic("intrinsic") }
func Param(name string, def int) int  { panic("intrinsic") }
func Conc(x int) int                  { panic("intrinsic") }
func EqBytes(a, b []byte) bool        { panic("intrinsic") }
func EqStr(a, b string) bool          { panic("intrinsic") }
func MergeInts(on bool)               { panic("intrinsic") }
func Select(c bool, a, b int) int     { panic("intrinsic") }
func And(a, b bool) bool              { panic("intrinsic") }
func Or(a, b bool) bool               { panic("intrinsic") }
func Implies(a, b bool) bool          { panic("intrinsic") }
func Log(s string)                    { panic("intrinsic") }
func StepLimit(n int)                 { panic("intrinsic") }
func Symbolic() bool                  { panic("intrinsic") }
func Stop()                           { panic("intrinsic") }

func AnyLen(x any) int                    { panic("intrinsic") }
func AnySwap(x any, i, j int)             { panic("intrinsic") }
func AsTarget(err error, target any) bool { panic("intrinsic") }

// Unsup: the path uses what no model covers.
func Unsup(what string) { panic("intrinsic") }
