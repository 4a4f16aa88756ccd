// Package vstd: plain Go bodies for library functions implemented in assembly
// or with reflection; used by the symbolic executor only.
package vstd

import (
	"sync"
	"time"

	"MODULE/zzverif/vrt"
)

func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func Count(b []byte, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Compare(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	if len(a) > len(b) {
		return 1
	}
	return 0
}

func CompareString(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func StringsIndex(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

type isser interface{ Is(error) bool }
type unwrapper interface{ Unwrap() error }

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(isser); ok && x.Is(target) {
			return true
		}
		if m, ok := err.(unwrappers); ok {
			for _, e := range m.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(unwrapper)
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

type unwrappers interface{ Unwrap() []error }
type asser interface{ As(any) bool }

func ErrorsAs(err error, target any) bool {
	for err != nil {
		if vrt.AsTarget(err, target) {
			return true
		}
		if x, ok := err.(asser); ok && x.As(target) {
			return true
		}
		if m, ok := err.(unwrappers); ok {
			for _, e := range m.Unwrap() {
				if ErrorsAs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(unwrapper)
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

func SortSlice(x any, less func(i, j int) bool) {
	n := vrt.AnyLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			vrt.AnySwap(x, j, j-1)
		}
	}
}

func SortSliceStable(x any, less func(i, j int) bool) { SortSlice(x, less) }

func SliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := vrt.AnyLen(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

func PoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func Trunc(x float64) float64 {
	if x > -1e15 && x < 1e15 {
		return float64(int64(x))
	}
	return x
}

func Floor(x float64) float64 {
	t := Trunc(x)
	if t > x {
		t--
	}
	return t
}

func Ceil(x float64) float64 {
	t := Trunc(x)
	if t < x {
		t++
	}
	return t
}

func SortStrings(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func TimeNow() time.Time { return time.Unix(1700000000, 0) }

// RuntimeError is the value of run time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return "runtime error: " + string(e) }
func (e RuntimeError) RuntimeError() {}

var _ error = RuntimeError("")

func Max(x, y float64) float64 {
	if x > y {
		return x
	}
	return y
}

func Min(x, y float64) float64 {
	if x < y {
		return x
	}
	return y
}
