// Package vflag models package flag: the harness gives the values of the
// flags, Parse hands them to the variables that were registered.
package vflag

import (
	"errors"
	"io"
	"strconv"
	"time"

	"MODULE/zzverif/vrt"
)

// Value is what Var registers.
type Value interface {
	String() string
	Set(string) error
}

type Set1 struct {
	Name string
	B    bool
	I    int
	S    string
}

type reg struct {
	name string
	b    *bool
	i    *int
	s    *string
	v    Value
	f    func(string) error
}

var (
	// Given are the flags on the command line.
	Given []Set1
	// Rest are the arguments after the flags.
	Rest []string
	// Unknown is set when a flag was given that nobody registered.
	Unknown bool
	Usage   = func() {}
	regs    []reg
)

func Bool(name string, v bool, usage string) *bool { BoolVar(&v, name, v, usage); return &v }
func BoolVar(p *bool, name string, v bool, usage string) {
	*p = v
	regs = append(regs, reg{name: name, b: p})
}
func Int(name string, v int, usage string) *int { IntVar(&v, name, v, usage); return &v }
func IntVar(p *int, name string, v int, usage string) {
	*p = v
	regs = append(regs, reg{name: name, i: p})
}
func String(name string, v string, usage string) *string { StringVar(&v, name, v, usage); return &v }
func StringVar(p *string, name string, v string, usage string) {
	*p = v
	regs = append(regs, reg{name: name, s: p})
}
func Duration(name string, v time.Duration, usage string) *time.Duration { return &v }

func Parse() {
	for _, g := range Given {
		known := false
		for _, r := range regs {
			if r.name != g.Name {
				continue
			}
			known = true
			switch {
			case r.b != nil:
				*r.b = g.B
			case r.i != nil:
				*r.i = g.I
			case r.s != nil:
				*r.s = g.S
			default:
				t := g.S
				if t == "" && g.B {
					t = "true"
				} else if t == "" {
					t = strconv.Itoa(g.I)
				}
				if r.v != nil {
					_ = r.v.Set(t)
				} else {
					_ = r.f(t)
				}
			}
		}
		if !known {
			Unknown = true
		}
	}
}

func Parsed() bool   { return true }
func NFlag() int     { return len(Given) }
func PrintDefaults() {}
func Args() []string { return Rest }
func NArg() int      { return len(Rest) }
func Arg(i int) string {
	if i < len(Rest) {
		return Rest[i]
	}
	return ""
}

// Visit calls fn for the flags that were given.
func Visit(fn func(*Flag)) {
	for _, g := range Given {
		fn(&Flag{Name: g.Name})
	}
}

type Flag struct{ Name, Usage, DefValue string }

func Var(v Value, name, usage string) { regs = append(regs, reg{name: name, v: v}) }
func Func(name, usage string, fn func(string) error) {
	regs = append(regs, reg{name: name, f: fn})
}
func BoolFunc(name, usage string, fn func(string) error) { Func(name, usage, fn) }

type num[T int64 | uint | uint64] struct{ p *T }

func (n num[T]) String() string { return "" }
func (n num[T]) Set(s string) error {
	v, err := strconv.Atoi(s)
	*n.p = T(v)
	return err
}

func Int64Var(p *int64, name string, v int64, usage string) { *p = v; Var(num[int64]{p}, name, usage) }
func UintVar(p *uint, name string, v uint, usage string)    { *p = v; Var(num[uint]{p}, name, usage) }
func Uint64Var(p *uint64, name string, v uint64, usage string) {
	*p = v
	Var(num[uint64]{p}, name, usage)
}
func Int64(name string, v int64, usage string) *int64    { Int64Var(&v, name, v, usage); return &v }
func Uint(name string, v uint, usage string) *uint       { UintVar(&v, name, v, usage); return &v }
func Uint64(name string, v uint64, usage string) *uint64 { Uint64Var(&v, name, v, usage); return &v }
func Float64(name string, v float64, usage string) *float64 {
	vrt.Unsup("flag.Float64")
	return &v
}

func Lookup(name string) *Flag {
	for _, r := range regs {
		if r.name == name {
			return &Flag{Name: name}
		}
	}
	return nil
}
func VisitAll(fn func(*Flag)) {
	for _, r := range regs {
		fn(&Flag{Name: r.name})
	}
}
func Set(name, value string) error { vrt.Unsup("flag.Set"); return nil }

var ErrHelp = errors.New("flag: help requested")

type ErrorHandling int

const (
	ContinueOnError ErrorHandling = iota
	ExitOnError
	PanicOnError
)

// FlagSet: all sets are one, that of the command line.
type FlagSet struct{ Usage func() }

var CommandLine = &FlagSet{}

func NewFlagSet(name string, h ErrorHandling) *FlagSet { return &FlagSet{} }

func (f *FlagSet) Bool(n string, v bool, u string) *bool             { return Bool(n, v, u) }
func (f *FlagSet) BoolVar(p *bool, n string, v bool, u string)       { BoolVar(p, n, v, u) }
func (f *FlagSet) Int(n string, v int, u string) *int                { return Int(n, v, u) }
func (f *FlagSet) IntVar(p *int, n string, v int, u string)          { IntVar(p, n, v, u) }
func (f *FlagSet) String(n string, v string, u string) *string       { return String(n, v, u) }
func (f *FlagSet) StringVar(p *string, n string, v string, u string) { StringVar(p, n, v, u) }
func (f *FlagSet) Int64(n string, v int64, u string) *int64          { return Int64(n, v, u) }
func (f *FlagSet) Uint(n string, v uint, u string) *uint             { return Uint(n, v, u) }
func (f *FlagSet) UintVar(p *uint, n string, v uint, u string)       { UintVar(p, n, v, u) }
func (f *FlagSet) Var(v Value, n, u string)                          { Var(v, n, u) }
func (f *FlagSet) Func(n, u string, fn func(string) error)           { Func(n, u, fn) }
func (f *FlagSet) Parse(a []string) error                            { Parse(); return nil }
func (f *FlagSet) Parsed() bool                                      { return true }
func (f *FlagSet) NFlag() int                                        { return NFlag() }
func (f *FlagSet) NArg() int                                         { return NArg() }
func (f *FlagSet) Args() []string                                    { return Args() }
func (f *FlagSet) Arg(i int) string                                  { return Arg(i) }
func (f *FlagSet) PrintDefaults()                                    {}
func (f *FlagSet) Visit(fn func(*Flag))                              { Visit(fn) }
func (f *FlagSet) VisitAll(fn func(*Flag))                           { VisitAll(fn) }
func (f *FlagSet) Lookup(n string) *Flag                             { return Lookup(n) }
func (f *FlagSet) SetOutput(w io.Writer)                             {}
func (f *FlagSet) Output() io.Writer                                 { return io.Discard }
func (f *FlagSet) Name() string                                      { return "lha" }
