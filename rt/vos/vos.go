// Package os stands in for the os package in the commands under test: files,
// standard streams, arguments and the exit status are values which a harness
// sets and reads.
package os

import (
	"io"
	"io/fs"
	"time"
)

const (
	O_RDONLY = 0x0
	O_WRONLY = 0x1
	O_RDWR   = 0x2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	ModePerm      = fs.ModePerm
	DevNull       = "/dev/null"
	PathSeparator = '/'
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	PathError = fs.PathError
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrInvalid    = fs.ErrInvalid
	ErrPermission = fs.ErrPermission
	ErrClosed     = fs.ErrClosed
)

func IsNotExist(err error) bool { return is(err, ErrNotExist) }
func IsExist(err error) bool    { return is(err, ErrExist) }

func is(err, target error) bool {
	if pe, ok := err.(*PathError); ok {
		err = pe.Err
	}
	return err == target
}

// Args are the command line.
var Args []string

type inode struct{ data string }

// File is an open file.
type File struct {
	name   string
	ino    *inode
	pos    int
	flag   int
	closed bool
}

var files map[string]*inode

// Stdin, Stdout and Stderr are the standard streams.
var Stdin, Stdout, Stderr *File

// Reset forgets all files and streams.
func Reset() {
	files = map[string]*inode{}
	Stdin, Stdout, Stderr = NewStreams("")
	Args = []string{"hangulize"}
}

// NewStreams makes standard streams.
func NewStreams(stdin string) (in, out, err *File) {
	return &File{name: "/dev/stdin", ino: &inode{stdin}},
		&File{name: "/dev/stdout", ino: &inode{}, flag: O_WRONLY},
		&File{name: "/dev/stderr", ino: &inode{}, flag: O_WRONLY}
}

func init() { Reset() }

// Put makes a file.
func Put(name, data string) { files[name] = &inode{data} }

// Get is what a file holds.
func Get(name string) (string, bool) {
	if f, ok := files[name]; ok {
		return f.data, true
	}
	return "", false
}

// Output is what was written to the standard output.
func Output() string { return Stdout.ino.data }

// Errors is what was written to the standard error.
func Errors() string { return Stderr.ino.data }

type exit struct{ code int }

// Exit ends the program.
func Exit(code int) { panic(exit{code}) }

// Run runs a program to its end and returns its exit status.
func Run(main func()) (code int) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(exit)
			if !ok {
				panic(x)
			}
			code = e.code
		}
	}()
	main()
	return 0
}

func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	ino, ok := files[name]
	if !ok {
		if flag&O_CREATE == 0 {
			return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
		}
		ino = &inode{}
		files[name] = ino
	} else if flag&O_EXCL != 0 && flag&O_CREATE != 0 {
		return nil, &PathError{Op: "open", Path: name, Err: ErrExist}
	}
	if flag&O_TRUNC != 0 {
		ino.data = ""
	}
	return &File{name: name, ino: ino, flag: flag}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	return []byte(f.ino.data), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := Create(name)
	if err != nil {
		return err
	}
	f.Write(data)
	return nil
}

func Remove(name string) error {
	if _, ok := files[name]; !ok {
		return &PathError{Op: "remove", Path: name, Err: ErrNotExist}
	}
	delete(files, name)
	return nil
}

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() FileMode     { return 0644 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

func Stat(name string) (FileInfo, error) {
	f, ok := files[name]
	if !ok {
		return nil, &PathError{Op: "stat", Path: name, Err: ErrNotExist}
	}
	return info{name, int64(len(f.data))}, nil
}

func (f *File) check(op string, write bool) error {
	switch {
	case f == nil:
		return ErrInvalid
	case f.closed:
		return &PathError{Op: op, Path: f.name, Err: ErrClosed}
	case write && f.flag&(O_WRONLY|O_RDWR) == 0, !write && f.flag&O_WRONLY != 0:
		return &PathError{Op: op, Path: f.name, Err: ErrInvalid}
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Stat() (FileInfo, error) { return info{f.name, int64(len(f.ino.data))}, nil }

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read", false); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.ino.data) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) Write(b []byte) (int, error) { return f.WriteString(string(b)) }

func (f *File) WriteString(s string) (int, error) {
	if err := f.check("write", true); err != nil {
		return 0, err
	}
	d := f.ino.data
	if f.flag&O_APPEND != 0 || f.name == "/dev/stdout" || f.name == "/dev/stderr" {
		f.pos = len(d)
	}
	for len(d) < f.pos {
		d += "\x00"
	}
	end := f.pos + len(s)
	if end < len(d) {
		f.ino.data = d[:f.pos] + s + d[end:]
	} else {
		f.ino.data = d[:f.pos] + s
	}
	f.pos = end
	return len(s), nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek", f.flag&O_WRONLY != 0); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		offset += int64(f.pos)
	case 2:
		offset += int64(len(f.ino.data))
	}
	if offset < 0 {
		return 0, &PathError{Op: "seek", Path: f.name, Err: ErrInvalid}
	}
	f.pos = int(offset)
	return offset, nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: "close", Path: f.name, Err: ErrClosed}
	}
	f.closed = true
	return nil
}

func (f *File) Sync() error { return nil }
