// Code generated by genshim; DO NOT EDIT.

package os

import (
	x_io_fs "io/fs"
	real "os"
)

func CopyFS(dir string, fsys x_io_fs.FS) error { panic("simulation: os.CopyFS is not modelled") }

const DevNull = real.DevNull

type DirEntry = real.DirEntry

var ErrClosed = real.ErrClosed
var ErrDeadlineExceeded = real.ErrDeadlineExceeded
var ErrExist = real.ErrExist
var ErrInvalid = real.ErrInvalid
var ErrNoDeadline = real.ErrNoDeadline
var ErrNoHandle = real.ErrNoHandle
var ErrNotExist = real.ErrNotExist
var ErrPermission = real.ErrPermission
var ErrProcessDone = real.ErrProcessDone
var Expand = real.Expand

type FileInfo = real.FileInfo
type FileMode = real.FileMode

func Getgroups() ([]int, error) { panic("simulation: os.Getgroups is not modelled") }

var Interrupt = real.Interrupt
var IsExist = real.IsExist
var IsNotExist = real.IsNotExist
var IsPathSeparator = real.IsPathSeparator
var IsPermission = real.IsPermission
var IsTimeout = real.IsTimeout
var Kill = real.Kill

type LinkError = real.LinkError

const ModeAppend = real.ModeAppend
const ModeCharDevice = real.ModeCharDevice
const ModeDevice = real.ModeDevice
const ModeDir = real.ModeDir
const ModeExclusive = real.ModeExclusive
const ModeIrregular = real.ModeIrregular
const ModeNamedPipe = real.ModeNamedPipe
const ModePerm = real.ModePerm
const ModeSetgid = real.ModeSetgid
const ModeSetuid = real.ModeSetuid
const ModeSocket = real.ModeSocket
const ModeSticky = real.ModeSticky
const ModeSymlink = real.ModeSymlink
const ModeTemporary = real.ModeTemporary
const ModeType = real.ModeType

func NewFile(fd uintptr, name string) *File { panic("simulation: os.NewFile is not modelled") }

var NewSyscallError = real.NewSyscallError

func OpenInRoot(dir string, name string) (*File, error) {
	panic("simulation: os.OpenInRoot is not modelled")
}
func OpenRoot(name string) (*Root, error) { panic("simulation: os.OpenRoot is not modelled") }

type PathError = real.PathError

const PathListSeparator = real.PathListSeparator
const PathSeparator = real.PathSeparator

func Pipe() (r *File, w *File, err error) { panic("simulation: os.Pipe is not modelled") }

type ProcAttr = real.ProcAttr
type Root = real.Root

const SEEK_CUR = real.SEEK_CUR
const SEEK_END = real.SEEK_END
const SEEK_SET = real.SEEK_SET

type Signal = real.Signal

func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	panic("simulation: os.StartProcess is not modelled")
}

type SyscallError = real.SyscallError
