package cli

// Models of what the commands use of the operating system, which the checker
// executes in place of the originals.

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"time"
)

// world is what a command sees and leaves.
type vfile struct {
	name string
	data []byte
	f    *os.File
}

var files []*vfile
var outText []byte // standard output
var exits int      // calls of os.Exit

// exited is how os.Exit ends a command.
type exited struct{ code int }

func find(name string) *vfile {
	for _, v := range files {
		if v.name == name {
			return v
		}
	}
	return nil
}

type finfo struct{ v *vfile }

func (i finfo) Name() string       { return i.v.name }
func (i finfo) Size() int64        { return int64(len(i.v.data)) }
func (i finfo) Mode() os.FileMode  { return 0644 }
func (i finfo) ModTime() time.Time { return time.Time{} }
func (i finfo) IsDir() bool        { return false }
func (i finfo) Sys() interface{}   { return nil }

var errNoFile = errors.New("no such file or directory")

func OsStat(name string) (os.FileInfo, error) {
	v := find(name)
	if v == nil {
		return nil, errNoFile
	}
	return finfo{v}, nil
}

func OsOpen(name string) (*os.File, error) {
	v := find(name)
	if v == nil {
		return nil, errNoFile
	}
	v.f = new(os.File)
	return v.f, nil
}

func OsReadFile(name string) ([]byte, error) {
	v := find(name)
	if v == nil {
		return nil, errNoFile
	}
	return append([]byte(nil), v.data...), nil
}

func FileRead(f *os.File, b []byte) (int, error) {
	for _, v := range files {
		if v.f == f {
			if len(v.data) == 0 {
				return 0, io.EOF
			}
			n := copy(b, v.data)
			v.data = v.data[n:]
			return n, nil
		}
	}
	return 0, errors.New("bad file")
}

func FileWrite(f *os.File, b []byte) (int, error) {
	if f == os.Stdout {
		outText = append(outText, b...)
	}
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }
func FileClose(f *os.File) error                        { return nil }

func OsExit(code int) {
	exits++
	panic(exited{code})
}

func LogFatal(a ...interface{})            { OsExit(1) }
func LogFatalf(f string, a ...interface{}) { OsExit(1) }

func Printf(f string, a ...interface{}) (int, error) {
	return FileWriteString(os.Stdout, fmt.Sprintf(f, a...))
}

func Print(a ...interface{}) (int, error) {
	return FileWriteString(os.Stdout, fmt.Sprint(a...))
}

func Println(a ...interface{}) (int, error) { return fmt.Fprintln(os.Stdout, a...) }

func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {}

// Flags: no initialisers here, since commands define theirs before this
// package is initialised.

type vflag struct {
	name string
	b    *bool
	s    *string
	i    *int
	d    *time.Duration
	v    flag.Value
}

var flags []*vflag
var args []string

func (f *vflag) set(s string) error {
	var e error
	switch {
	case f.b != nil:
		*f.b, e = strconv.ParseBool(s)
	case f.s != nil:
		*f.s = s
	case f.i != nil:
		*f.i, e = strconv.Atoi(s)
	case f.d != nil:
		var n int
		n, e = strconv.Atoi(strings.TrimSuffix(s, "s"))
		*f.d = time.Duration(n) * time.Second
	default:
		e = f.v.Set(s)
	}
	return e
}

func define(f *vflag) *vflag {
	flags = append(flags, f)
	return f
}

func FlagBool(name string, def bool, usage string) *bool {
	return define(&vflag{name: name, b: &def}).b
}

func FlagString(name string, def string, usage string) *string {
	return define(&vflag{name: name, s: &def}).s
}

func FlagInt(name string, def int, usage string) *int {
	return define(&vflag{name: name, i: &def}).i
}

func FlagDuration(name string, def time.Duration, usage string) *time.Duration {
	return define(&vflag{name: name, d: &def}).d
}

func FlagVar(v flag.Value, name string, usage string) { define(&vflag{name: name, v: v}) }

func FlagBoolVar(p *bool, name string, def bool, usage string) {
	*p = def
	define(&vflag{name: name, b: p})
}

func FlagStringVar(p *string, name string, def string, usage string) {
	*p = def
	define(&vflag{name: name, s: p})
}

func FlagIntVar(p *int, name string, def int, usage string) {
	*p = def
	define(&vflag{name: name, i: p})
}

func FlagDurationVar(p *time.Duration, name string, def time.Duration, usage string) {
	*p = def
	define(&vflag{name: name, d: p})
}

func FlagParse() {
	as := os.Args[1:]
next:
	for len(as) > 0 {
		a := as[0]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		as = as[1:]
		if a == "--" {
			break
		}
		a = strings.TrimPrefix(a[1:], "-")
		for _, f := range flags {
			var e error
			switch {
			case a == f.name && f.b != nil:
				e = f.set("true")
			case a == f.name:
				if len(as) == 0 {
					OsExit(2)
				}
				e = f.set(as[0])
				as = as[1:]
			case strings.HasPrefix(a, f.name+"="):
				e = f.set(a[len(f.name)+1:])
			default:
				continue
			}
			if e != nil {
				OsExit(2)
			}
			continue next
		}
		OsExit(2)
	}
	args = as
}

func FlagNArg() int      { return len(args) }
func FlagArgs() []string { return args }

func FlagArg(i int) string {
	if i < 0 || i >= len(args) {
		return ""
	}
	return args[i]
}

func FlagPrintDefaults() {}
