package vfmt

// What the model does not cover; its use is inconclusive.

import (
	rfmt "fmt"
	"io"

	"MODULE/zzverif/vrt"
)

func FormatString(_ State, _ rune) string { vrt.Unsup("fmt.FormatString"); panic(0) }

type Formatter = rfmt.Formatter

func Fscanf(_ io.Reader, _ string, _ ...any) (int, error) { vrt.Unsup("fmt.Fscanf"); panic(0) }

type GoStringer = rfmt.GoStringer
type ScanState = rfmt.ScanState

func Scanf(_ string, _ ...any) (int, error) { vrt.Unsup("fmt.Scanf"); panic(0) }

type Scanner = rfmt.Scanner

func Sscanf(_ string, _ string, _ ...any) (int, error) { vrt.Unsup("fmt.Sscanf"); panic(0) }

type State = rfmt.State
