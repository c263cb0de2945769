// Code generated by cmd/genvos. DO NOT EDIT.

package vos

import "os"

var Args = os.Args
var Chdir = os.Chdir
var Chmod = os.Chmod
var Chown = os.Chown
var Chtimes = os.Chtimes
var Clearenv = os.Clearenv
var CopyFS = os.CopyFS

const DevNull = os.DevNull

type DirEntry = os.DirEntry

var DirFS = os.DirFS
var Environ = os.Environ
var ErrClosed = os.ErrClosed
var ErrDeadlineExceeded = os.ErrDeadlineExceeded
var ErrExist = os.ErrExist
var ErrInvalid = os.ErrInvalid
var ErrNoDeadline = os.ErrNoDeadline
var ErrNoHandle = os.ErrNoHandle
var ErrNotExist = os.ErrNotExist
var ErrPermission = os.ErrPermission
var ErrProcessDone = os.ErrProcessDone
var Executable = os.Executable
var Exit = os.Exit
var Expand = os.Expand
var ExpandEnv = os.ExpandEnv

type FileInfo = os.FileInfo
type FileMode = os.FileMode

var FindProcess = os.FindProcess
var Getegid = os.Getegid
var Getenv = os.Getenv
var Geteuid = os.Geteuid
var Getgid = os.Getgid
var Getgroups = os.Getgroups
var Getpagesize = os.Getpagesize
var Getpid = os.Getpid
var Getppid = os.Getppid
var Getuid = os.Getuid
var Getwd = os.Getwd
var Hostname = os.Hostname
var Interrupt = os.Interrupt
var IsExist = os.IsExist
var IsNotExist = os.IsNotExist
var IsPathSeparator = os.IsPathSeparator
var IsPermission = os.IsPermission
var IsTimeout = os.IsTimeout
var Kill = os.Kill
var Lchown = os.Lchown

type LinkError = os.LinkError

var LookupEnv = os.LookupEnv
var Mkdir = os.Mkdir
var MkdirAll = os.MkdirAll
var MkdirTemp = os.MkdirTemp

const ModeAppend = os.ModeAppend
const ModeCharDevice = os.ModeCharDevice
const ModeDevice = os.ModeDevice
const ModeDir = os.ModeDir
const ModeExclusive = os.ModeExclusive
const ModeIrregular = os.ModeIrregular
const ModeNamedPipe = os.ModeNamedPipe
const ModePerm = os.ModePerm
const ModeSetgid = os.ModeSetgid
const ModeSetuid = os.ModeSetuid
const ModeSocket = os.ModeSocket
const ModeSticky = os.ModeSticky
const ModeSymlink = os.ModeSymlink
const ModeTemporary = os.ModeTemporary
const ModeType = os.ModeType

var NewSyscallError = os.NewSyscallError

const O_APPEND = os.O_APPEND
const O_CREATE = os.O_CREATE
const O_EXCL = os.O_EXCL
const O_RDONLY = os.O_RDONLY
const O_RDWR = os.O_RDWR
const O_SYNC = os.O_SYNC
const O_TRUNC = os.O_TRUNC
const O_WRONLY = os.O_WRONLY

var OpenInRoot = os.OpenInRoot
var OpenRoot = os.OpenRoot

type PathError = os.PathError

const PathListSeparator = os.PathListSeparator
const PathSeparator = os.PathSeparator

var Pipe = os.Pipe

type ProcAttr = os.ProcAttr
type Process = os.Process
type ProcessState = os.ProcessState

var Readlink = os.Readlink

type Root = os.Root

const SEEK_CUR = os.SEEK_CUR
const SEEK_END = os.SEEK_END
const SEEK_SET = os.SEEK_SET

var SameFile = os.SameFile
var Setenv = os.Setenv

type Signal = os.Signal

var StartProcess = os.StartProcess
var Stderr = os.Stderr
var Stdin = os.Stdin
var Stdout = os.Stdout
var Symlink = os.Symlink

type SyscallError = os.SyscallError

var TempDir = os.TempDir
var Unsetenv = os.Unsetenv
var UserCacheDir = os.UserCacheDir
var UserConfigDir = os.UserConfigDir
var UserHomeDir = os.UserHomeDir
