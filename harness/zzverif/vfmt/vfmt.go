// Package vfmt stands in for fmt in the code under test: printing goes to
// sinks (kept only when Capture is set); formatting covers the common verbs.
package vfmt

import (
	"io"
	"strconv"

	"MODULE/zzverif/vos"
	"MODULE/zzverif/vrt"
)

// Capture turns formatted output on; off, printing has no effect.
var Capture bool

// Bad is set when something was printed that this package cannot format.
var Bad bool

type wrapErr struct {
	msg  string
	args []any
	err  error
}

func (e *wrapErr) Error() string { return Sprintf(e.msg, e.args...) }
func (e *wrapErr) Unwrap() error { return e.err }

type Stringer interface{ String() string }

func Errorf(format string, a ...any) error {
	w := &wrapErr{msg: format, args: append([]any(nil), a...)}
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			i++
			for i < len(format) && (format[i] == '+' || format[i] == '#' || (format[i] >= '0' && format[i] <= '9') || format[i] == '.' || format[i] == '-') {
				i++
			}
			if i < len(format) && format[i] == '%' {
				continue
			}
			if i < len(format) && format[i] == 'w' && n < len(a) {
				if e, ok := a[n].(error); ok {
					w.err = e
				}
			}
			n++
		}
	}
	return w
}

func Sprintf(format string, a ...any) string { return string(doFmt(nil, format, a)) }
func Sprint(a ...any) string {
	var b []byte
	for i := range a {
		if i > 0 {
			_, s1 := a[i-1].(string)
			_, s2 := a[i].(string)
			if !s1 && !s2 {
				b = append(b, ' ')
			}
		}
		b = anyVal(b, a[i])
	}
	return string(b)
}
func Sprintln(a ...any) string {
	var b []byte
	for i := range a {
		if i > 0 {
			b = append(b, ' ')
		}
		b = anyVal(b, a[i])
	}
	return string(append(b, '\n'))
}

func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	if f, ok := w.(*vos.File); ok && f.IsStd() {
		if !Capture {
			return 0, nil
		}
	}
	return w.Write(doFmt(nil, format, a))
}
func Fprint(w io.Writer, a ...any) (int, error) {
	if f, ok := w.(*vos.File); ok && f.IsStd() && !Capture {
		return 0, nil
	}
	return w.Write([]byte(Sprint(a...)))
}
func Fprintln(w io.Writer, a ...any) (int, error) {
	if f, ok := w.(*vos.File); ok && f.IsStd() && !Capture {
		return 0, nil
	}
	return w.Write([]byte(Sprintln(a...)))
}
func Printf(format string, a ...any) (int, error) { return Fprintf(vos.Stdout, format, a...) }
func Print(a ...any) (int, error)                 { return Fprint(vos.Stdout, a...) }
func Println(a ...any) (int, error)               { return Fprintln(vos.Stdout, a...) }

func Append(b []byte, a ...any) []byte                 { return append(b, Sprint(a...)...) }
func Appendln(b []byte, a ...any) []byte               { return append(b, Sprintln(a...)...) }
func Appendf(b []byte, format string, a ...any) []byte { return doFmt(b, format, a) }
func Scanln(a ...any) (int, error)                     { return scan(vos.Stdin, a, true) }
func Scan(a ...any) (int, error)                       { return scan(vos.Stdin, a, false) }
func Fscanln(r io.Reader, a ...any) (int, error)       { return scan(r, a, true) }
func Fscan(r io.Reader, a ...any) (int, error)         { return scan(r, a, false) }
func Sscan(s string, a ...any) (int, error)            { return scan(&text{s}, a, false) }
func Sscanln(s string, a ...any) (int, error)          { return scan(&text{s}, a, true) }

type text struct{ s string }

func (t *text) Read(b []byte) (int, error) {
	if t.s == "" {
		return 0, io.EOF
	}
	n := copy(b[:1], t.s)
	t.s = t.s[n:]
	return n, nil
}

// scan reads words, byte by byte; with line, up to the end of the line.
func scan(r io.Reader, a []any, line bool) (int, error) {
	var one [1]byte
	for k := range a {
		var w []byte
		for {
			n, err := r.Read(one[:])
			if n == 0 {
				if err == nil {
					continue
				}
				if len(w) == 0 {
					if err == io.EOF && k > 0 {
						err = io.ErrUnexpectedEOF
					}
					return k, err
				}
				break
			}
			c := one[0]
			if c == '\r' {
				continue
			}
			if c == '\n' || c == ' ' || c == '\t' {
				if len(w) > 0 {
					if c != '\n' && line && k == len(a)-1 {
						vrt.Unsup("fmt: more than the words asked for")
					}
					break
				}
				if c == '\n' && line {
					return k, Errorf("unexpected newline")
				}
				continue
			}
			w = append(w, c)
		}
		switch p := a[k].(type) {
		case *string:
			*p = string(w)
		case *[]byte:
			*p = w
		default:
			vrt.Unsup("fmt: scanning of other values")
		}
	}
	return len(a), nil
}

func doFmt(b []byte, f string, a []any) []byte {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			b = append(b, f[i])
			continue
		}
		i++
		minus, zero, plus := false, false, false
		width, prec := 0, -1
		for i < len(f) && (f[i] == '-' || f[i] == '0' || f[i] == '+' || f[i] == '#' || f[i] == ' ') {
			if f[i] == '-' {
				minus = true
			}
			if f[i] == '0' {
				zero = true
			}
			if f[i] == '+' {
				plus = true
			}
			if f[i] == '#' || f[i] == ' ' {
				Bad = true
			}
			i++
		}
		star := func() int {
			i++
			if n < len(a) {
				n++
				if v, ok := a[n-1].(int); ok {
					return v
				}
			}
			Bad = true
			return 0
		}
		if i < len(f) && f[i] == '*' {
			width = star()
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			prec = 0
			if i < len(f) && f[i] == '*' {
				prec = star()
			}
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				prec = prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			break
		}
		v := f[i]
		if v == '%' {
			b = append(b, '%')
			continue
		}
		if n >= len(a) {
			b = append(b, "%!"...)
			b = append(b, v)
			continue
		}
		arg := a[n]
		n++
		var s []byte
		switch v {
		case 'd':
			s = anyInt(s, arg, 10)
		case 'x', 'X':
			if t, ok := arg.(string); ok {
				arg = []byte(t)
			}
			if t, ok := arg.([]byte); ok {
				for _, c := range t {
					s = append(s, digits[c>>4], digits[c&15])
				}
			} else {
				s = anyInt(s, arg, 16)
			}
			if v == 'X' {
				for k := range s {
					if s[k] >= 'a' && s[k] <= 'f' {
						s[k] -= 'a' - 'A'
					}
				}
			}
		case 'b':
			s = anyInt(s, arg, 2)
		case 't':
			s = anyVal(s, arg)
		case 'q':
			t, ok := arg.(string)
			if !ok {
				Bad = true
			}
			s = append(s, '"')
			for k := 0; k < len(t); k++ {
				if t[k] < ' ' || t[k] > '~' || t[k] == '"' || t[k] == '\\' {
					Bad = true
				}
			}
			s = append(append(s, t...), '"')
		case 'o':
			s = anyInt(s, arg, 8)
		case 'c':
			if u, ok := toInt(arg); ok {
				s = append(s, string(rune(u))...)
			}
		case 'f', 'F', 'e', 'g':
			x, ok := arg.(float64)
			if y, ok32 := arg.(float32); ok32 {
				x, ok = float64(y), v == 'f'
			}
			if v == 'F' {
				v = 'f'
			}
			if v != 'g' && prec < 0 {
				prec = 6
			}
			if ok {
				s = strconv.AppendFloat(s, x, v, prec, 64)
			} else {
				Bad = true
			}
		case 's', 'w':
			s = anyVal(s, arg)
		case 'v':
			if t, ok := arg.([]byte); ok {
				s = append(s, '[')
				for k, c := range t {
					if k > 0 {
						s = append(s, ' ')
					}
					s = anyInt(s, c, 10)
				}
				s = append(s, ']')
			} else {
				s = anyVal(s, arg)
			}
		default:
			Bad = true
			s = anyVal(s, arg)
		}
		if prec >= 0 && v == 's' && len(s) > prec {
			s = s[:prec]
		}
		if plus {
			switch {
			case v == 'd' && (len(s) == 0 || s[0] != '-'):
				s = append([]byte{'+'}, s...)
			case v != 'd' && v != 'v' && v != 's':
				Bad = true
			}
		}
		if zero && len(s) > 0 && (s[0] == '-' || s[0] == '+') {
			Bad = true
		}
		pad := byte(' ')
		if zero && !minus {
			pad = '0'
		}
		if !minus {
			for k := len(s); k < width; k++ {
				b = append(b, pad)
			}
		}
		b = append(b, s...)
		if minus {
			for k := len(s); k < width; k++ {
				b = append(b, ' ')
			}
		}
	}
	return b
}

func toInt(a any) (int64, bool) {
	switch v := a.(type) {
	case int:
		return int64(v), true
	case int8:
		return int64(v), true
	case int16:
		return int64(v), true
	case int32:
		return int64(v), true
	case int64:
		return v, true
	case uint:
		return int64(v), true
	case uint8:
		return int64(v), true
	case uint16:
		return int64(v), true
	case uint32:
		return int64(v), true
	case uint64:
		return int64(v), true
	}
	return 0, false
}

const digits = "0123456789abcdef"

func anyInt(b []byte, a any, base int64) []byte {
	v, ok := toInt(a)
	if !ok {
		return anyVal(b, a)
	}
	if v < 0 {
		b = append(b, '-')
		v = -v
	}
	var t []byte
	for {
		t = append(t, digits[v%base])
		v /= base
		if v == 0 {
			break
		}
	}
	for i := len(t) - 1; i >= 0; i-- {
		b = append(b, t[i])
	}
	return b
}

func anyVal(b []byte, a any) []byte {
	switch v := a.(type) {
	case nil:
		return append(b, "<nil>"...)
	case string:
		return append(b, v...)
	case []byte:
		return append(b, v...)
	case [6]byte:
		return append(b, v[:]...)
	case [11]byte:
		return append(b, v[:]...)
	case bool:
		if v {
			return append(b, "true"...)
		}
		return append(b, "false"...)
	case error:
		return append(b, v.Error()...)
	case Stringer:
		return append(b, v.String()...)
	}
	if _, ok := toInt(a); ok {
		return anyInt(b, a, 10)
	}
	Bad = true
	return append(b, "<?>"...)
}
