// Package rt holds Go replacements that the symbolic executor interprets in
// place of operating-system and assembly functions: an in-memory file system
// and byte searching.
package rt

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"time"
)

// RuntimeError is the value of a run-time panic.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type node struct {
	path string
	data []byte
	dir  bool
	full bool
}

type handle struct {
	f    *os.File
	n    *node
	pos  int
	shut bool
}

var nodes = []*node{{path: "/", dir: true}, {path: "/w", dir: true}}
var handles []*handle
var cwd = "/w"

func abs(p string) string {
	if !filepath.IsAbs(p) {
		p = cwd + "/" + p
	}
	return filepath.Clean(p)
}

func find(p string) *node {
	p = abs(p)
	for _, n := range nodes {
		if n.path == p {
			return n
		}
	}
	return nil
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

var errNotDir = errors.New("not a directory")
var errFull = errors.New("no space left on device")
var errIsDir = errors.New("is a directory")

func IsNotExist(err error) bool { return errors.Is(err, fs.ErrNotExist) }
func IsExist(err error) bool    { return errors.Is(err, fs.ErrExist) }

func Getenv(string) string { return "" }

func Getwd() (string, error) { return cwd, nil }
func Chdir(p string) error {
	n := find(p)
	if n == nil || !n.dir {
		return perr("chdir", p, fs.ErrNotExist)
	}
	cwd = n.path
	return nil
}

func ReadFile(p string) ([]byte, error) {
	n := find(p)
	if n == nil {
		return nil, perr("open", p, fs.ErrNotExist)
	}
	if n.dir {
		return nil, perr("read", p, errIsDir)
	}
	return append([]byte(nil), n.data...), nil
}

func parentOK(p string) bool {
	d := find(filepath.Dir(abs(p)))
	return d != nil && d.dir
}

func WriteFile(p string, data []byte, perm os.FileMode) error {
	f, err := Create(p)
	if err != nil {
		return err
	}
	h := of(f)
	if h.n.full && len(data) > 0 {
		return perr("write", p, errFull)
	}
	h.n.data = append([]byte(nil), data...)
	return nil
}

// Full makes a file to which nothing can be written.
func Full(p string) { nodes = append(nodes, &node{path: abs(p), full: true}) }

func Create(p string) (*os.File, error) {
	if p == "" {
		return nil, perr("open", p, fs.ErrNotExist)
	}
	n := find(p)
	if n == nil {
		if !parentOK(p) {
			return nil, perr("open", p, fs.ErrNotExist)
		}
		n = &node{path: abs(p)}
		nodes = append(nodes, n)
	}
	if n.dir {
		return nil, perr("open", p, errIsDir)
	}
	n.data = nil
	return open(n), nil
}

func open(n *node) *os.File {
	f := new(os.File)
	handles = append(handles, &handle{f: f, n: n})
	return f
}

func of(f *os.File) *handle {
	for _, h := range handles {
		if h.f == f {
			return h
		}
	}
	return nil
}

func Open(p string) (*os.File, error) {
	n := find(p)
	if n == nil {
		return nil, perr("open", p, fs.ErrNotExist)
	}
	return open(n), nil
}

func OpenFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	n := find(p)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", p, fs.ErrNotExist)
		}
		return Create(p)
	}
	if flag&os.O_EXCL != 0 {
		return nil, perr("open", p, fs.ErrExist)
	}
	if n.dir {
		if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", p, errIsDir)
		}
		return open(n), nil
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	f := open(n)
	if flag&os.O_APPEND != 0 {
		of(f).pos = len(n.data)
	}
	return f, nil
}

func MkdirAll(p string, perm os.FileMode) error {
	p = abs(p)
	if n := find(p); n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", p, errNotDir)
	}
	if err := MkdirAll(filepath.Dir(p), perm); err != nil {
		return err
	}
	nodes = append(nodes, &node{path: p, dir: true})
	return nil
}

func Mkdir(p string, perm os.FileMode) error {
	if find(p) != nil {
		return perr("mkdir", p, fs.ErrExist)
	}
	if !parentOK(p) {
		return perr("mkdir", p, fs.ErrNotExist)
	}
	nodes = append(nodes, &node{path: abs(p), dir: true})
	return nil
}

func Remove(p string) error {
	p = abs(p)
	for i, n := range nodes {
		if n.path == p {
			nodes = append(nodes[:i:i], nodes[i+1:]...)
			return nil
		}
	}
	return perr("remove", p, fs.ErrNotExist)
}

func RemoveAll(p string) error {
	p = abs(p)
	var keep []*node
	for _, n := range nodes {
		if n.path == p || (len(n.path) > len(p) && n.path[:len(p)+1] == p+"/") {
			continue
		}
		keep = append(keep, n)
	}
	nodes = keep
	return nil
}

func Rename(a, b string) error {
	n := find(a)
	if n == nil {
		return perr("rename", a, fs.ErrNotExist)
	}
	Remove(b)
	n.path = abs(b)
	return nil
}

type info struct{ n *node }

func (i info) Name() string               { return filepath.Base(i.n.path) }
func (i info) Size() int64                { return int64(len(i.n.data)) }
func (i info) Mode() fs.FileMode          { return i.Type() | 0o644 }
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() any                   { return nil }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) String() string             { return i.Name() }
func (i info) Type() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir
	}
	return 0
}

func Stat(p string) (fs.FileInfo, error) {
	n := find(p)
	if n == nil {
		return nil, perr("stat", p, fs.ErrNotExist)
	}
	return info{n}, nil
}

func list(p string) ([]info, error) {
	n := find(p)
	if n == nil {
		return nil, perr("open", p, fs.ErrNotExist)
	}
	if !n.dir {
		return nil, perr("readdirent", p, errNotDir)
	}
	var r []info
	for _, c := range nodes {
		if c != n && filepath.Dir(c.path) == n.path {
			r = append(r, info{c})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r, nil
}

func ReadDir(p string) ([]fs.DirEntry, error) {
	l, err := list(p)
	var r []fs.DirEntry
	for _, i := range l {
		r = append(r, i)
	}
	return r, err
}

func IoutilReadDir(p string) ([]fs.FileInfo, error) {
	l, err := list(p)
	var r []fs.FileInfo
	for _, i := range l {
		r = append(r, i)
	}
	return r, err
}

func FileWrite(f *os.File, b []byte) (int, error) {
	if f == nil {
		return len(b), nil // standard output
	}
	h := of(f)
	if h == nil || h.shut {
		return 0, perr("write", "", fs.ErrClosed)
	}
	if h.n.full && len(b) > 0 {
		return 0, perr("write", h.n.path, errFull)
	}
	if h.pos == len(h.n.data) {
		h.n.data = append(h.n.data, b...)
	} else {
		k := copy(h.n.data[h.pos:], b)
		h.n.data = append(h.n.data, b[k:]...)
	}
	h.pos += len(b)
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := FileWrite(f, b)
	return int64(n), err
}

func FileClose(f *os.File) error {
	h := of(f)
	if h == nil || h.shut {
		return perr("close", "", fs.ErrClosed)
	}
	h.shut = true
	return nil
}

func FileRead(f *os.File, b []byte) (int, error) {
	h := of(f)
	if h == nil || h.shut {
		return 0, perr("read", "", fs.ErrClosed)
	}
	if h.n.dir {
		return 0, perr("read", h.n.path, errIsDir)
	}
	if h.pos >= len(h.n.data) {
		return 0, io.EOF
	}
	k := copy(b, h.n.data[h.pos:])
	h.pos += k
	return k, nil
}

func FileName(f *os.File) string { return of(f).n.path }
func FileStat(f *os.File) (fs.FileInfo, error) {
	return info{of(f).n}, nil
}
func FileReadDir(f *os.File, n int) ([]fs.DirEntry, error) { return ReadDir(of(f).n.path) }
func FileReaddir(f *os.File, n int) ([]fs.FileInfo, error) { return IoutilReadDir(of(f).n.path) }
func FileReaddirnames(f *os.File, n int) ([]string, error) {
	l, err := list(of(f).n.path)
	var r []string
	for _, i := range l {
		r = append(r, i.Name())
	}
	return r, err
}

// ---- byte searching

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Count(b []byte, c byte) int { return CountString(string(b), c) }

func IndexString(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func Index(s, sub []byte) int { return IndexString(string(s), string(sub)) }

func StringsCount(s, sub string) int {
	if len(sub) == 0 {
		n := 1
		for range s {
			n++
		}
		return n
	}
	n := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			n++
			i += len(sub)
		} else {
			i++
		}
	}
	return n
}
