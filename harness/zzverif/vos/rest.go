package vos

// What the model does not cover; its use is inconclusive.

import (
	"io/fs"
	ros "os"
	"syscall"
	"time"

	"MODULE/zzverif/vrt"
)

func CopyFS(_ string, _ fs.FS) error { vrt.Unsup("os.CopyFS"); panic(0) }
func DirFS(_ string) fs.FS           { vrt.Unsup("os.DirFS"); panic(0) }

var ErrDeadlineExceeded error = &sysErr{"ErrDeadlineExceeded"}
var ErrNoDeadline error = &sysErr{"ErrNoDeadline"}
var ErrNoHandle error = &sysErr{"ErrNoHandle"}
var ErrProcessDone error = &sysErr{"ErrProcessDone"}

func Expand(_ string, _ func(string) string) string { vrt.Unsup("os.Expand"); panic(0) }
func (*File) Chdir() error                          { vrt.Unsup("os.Chdir"); panic(0) }
func (*File) SetDeadline(_ time.Time) error         { vrt.Unsup("os.SetDeadline"); panic(0) }
func (*File) SetReadDeadline(_ time.Time) error     { vrt.Unsup("os.SetReadDeadline"); panic(0) }
func (*File) SetWriteDeadline(_ time.Time) error    { vrt.Unsup("os.SetWriteDeadline"); panic(0) }
func (*File) SyscallConn() (syscall.RawConn, error) { vrt.Unsup("os.SyscallConn"); panic(0) }
func FindProcess(_ int) (*Process, error)           { vrt.Unsup("os.FindProcess"); panic(0) }
func Getgroups() ([]int, error)                     { vrt.Unsup("os.Getgroups"); panic(0) }

var Interrupt Signal
var Kill Signal

func OpenInRoot(_ string, _ string) (*File, error) { vrt.Unsup("os.OpenInRoot"); panic(0) }
func Pipe() (*File, *File, error)                  { vrt.Unsup("os.Pipe"); panic(0) }

type ProcAttr = ros.ProcAttr
type Process = ros.Process
type ProcessState = ros.ProcessState

func Setenv(_ string, _ string) error { vrt.Unsup("os.Setenv"); panic(0) }

type Signal = ros.Signal

func StartProcess(_ string, _ []string, _ *ProcAttr) (*Process, error) {
	vrt.Unsup("os.StartProcess")
	panic(0)
}
func (*SyscallError) Timeout() bool  { vrt.Unsup("os.Timeout"); panic(0) }
func Unsetenv(_ string) error        { vrt.Unsup("os.Unsetenv"); panic(0) }
func UserCacheDir() (string, error)  { vrt.Unsup("os.UserCacheDir"); panic(0) }
func UserConfigDir() (string, error) { vrt.Unsup("os.UserConfigDir"); panic(0) }
