package models

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"
)

// The file system model: directories, regular files and symbolic links to /dev/full, no permissions.

// Scratch is the directory harnesses work in; it is also the working directory.
const Scratch = "/scratch"

type node struct {
	name string
	dir  bool
	full bool // every write fails
	data []byte
	kids []*node
}

type handle struct {
	f      *os.File
	path   string
	n      *node
	pos    int
	write  bool
	read   bool
	app    bool
	closed bool
}

var (
	root    = &node{dir: true, kids: []*node{{name: "scratch", dir: true}}}
	handles []*handle
)

const (
	errNotDir = syscall.ENOTDIR
	errIsDir  = syscall.EISDIR
	errNoSpc  = syscall.ENOSPC
	errBadF   = syscall.EBADF
	errEmpty  = syscall.ENOTEMPTY
	errNone   = syscall.ENOENT
	errExist  = syscall.EEXIST
)

var errLink = errors.New("links are only to /dev/full")

func pathErr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// comps splits a path into its components.
func comps(p string) []string {
	if !strings.HasPrefix(p, "/") {
		p = Scratch + "/" + p
	}
	var r []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			r = append(r, c)
		}
	}
	return r
}

func (n *node) kid(name string) *node {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

// walk finds the directory holding the last component, its name and the node (nil if there is none).
func walk(p string) (dir *node, name string, n *node, err error) {
	if p == "" || strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, errNone
	}
	stack := []*node{root}
	cs := comps(p)
	for i, c := range cs {
		d := stack[len(stack)-1]
		if !d.dir {
			return nil, "", nil, errNotDir
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		k := d.kid(c)
		if k == nil {
			if i == len(cs)-1 {
				if strings.HasSuffix(p, "/") {
					return nil, "", nil, errIsDir
				}
				return d, c, nil, nil
			}
			return nil, "", nil, errNone
		}
		stack = append(stack, k)
	}
	n = stack[len(stack)-1]
	if !n.dir && strings.HasSuffix(p, "/") {
		return nil, "", nil, errNotDir
	}
	if len(stack) > 1 {
		dir = stack[len(stack)-2]
	}
	return dir, n.name, n, nil
}

func find(op, p string) (*node, error) {
	_, _, n, err := walk(p)
	if err == nil && n == nil {
		err = errNone
	}
	if errors.Is(err, errIsDir) {
		err = errNone
	}
	if err != nil {
		return nil, pathErr(op, p, err)
	}
	return n, nil
}

func OsMkdir(p string, mode os.FileMode) error {
	for len(p) > 1 && strings.HasSuffix(p, "/") {
		p = p[:len(p)-1]
	}
	d, name, n, err := walk(p)
	if err != nil {
		return pathErr("mkdir", p, err)
	}
	if n != nil {
		return pathErr("mkdir", p, errExist)
	}
	d.kids = append(d.kids, &node{name: name, dir: true})
	return nil
}

func OsMkdirAll(p string, mode os.FileMode) error {
	if n, err := find("stat", p); err == nil {
		if n.dir {
			return nil
		}
		return pathErr("mkdir", p, errNotDir)
	}
	i := len(p)
	for i > 0 && p[i-1] == '/' {
		i--
	}
	for i > 0 && p[i-1] != '/' {
		i--
	}
	if i > 1 {
		if err := OsMkdirAll(p[:i-1], mode); err != nil {
			return err
		}
	}
	err := OsMkdir(p, mode)
	if err != nil {
		if n, e := find("stat", p); e == nil && n.dir {
			return nil
		}
	}
	return err
}

func OsCreate(p string) (*os.File, error) {
	return OsOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OsOpen(p string) (*os.File, error) { return OsOpenFile(p, os.O_RDONLY, 0) }

func OsOpenFile(p string, flag int, mode os.FileMode) (*os.File, error) {
	d, name, n, err := walk(p)
	w := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case err == errIsDir && flag&os.O_CREATE == 0:
		err = errNone
	case err != nil:
	case n == nil && flag&os.O_CREATE == 0:
		err = errNone
	case n != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		err = errExist
	case n != nil && n.dir && (w || flag&os.O_CREATE != 0):
		err = errIsDir
	}
	if err != nil {
		return nil, pathErr("open", p, err)
	}
	if n == nil {
		n = &node{name: name}
		d.kids = append(d.kids, n)
	}
	if w && flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	f := new(os.File)
	handles = append(handles, &handle{f: f, path: p, n: n, write: w, read: flag&os.O_WRONLY == 0, app: flag&os.O_APPEND != 0})
	return f, nil
}

func handleOf(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	for _, h := range handles {
		if h.f == f {
			if h.closed {
				return nil, pathErr(op, h.path, os.ErrClosed)
			}
			return h, nil
		}
	}
	return nil, os.ErrInvalid
}

func FileWrite(f *os.File, b []byte) (int, error) {
	h, err := handleOf(f, "write")
	if err != nil {
		return 0, err
	}
	if !h.write {
		return 0, pathErr("write", h.path, errBadF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.n.full {
		return 0, pathErr("write", h.path, errNoSpc)
	}
	if h.app {
		h.pos = len(h.n.data)
	}
	for len(h.n.data) < h.pos {
		h.n.data = append(h.n.data, 0)
	}
	old := h.n.data
	d := append([]byte{}, old[:h.pos]...)
	d = append(d, b...)
	if len(d) < len(old) {
		d = append(d, old[len(d):]...)
	}
	h.n.data = d
	h.pos += len(b)
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileRead(f *os.File, b []byte) (int, error) {
	h, err := handleOf(f, "read")
	if err != nil {
		return 0, err
	}
	if !h.read {
		return 0, pathErr("read", h.path, errBadF)
	}
	if h.n.dir {
		return 0, pathErr("read", h.path, errIsDir)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.pos:])
	h.pos += n
	return n, nil
}

func FileClose(f *os.File) error {
	h, err := handleOf(f, "close")
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}

func FileSync(f *os.File) error {
	_, err := handleOf(f, "sync")
	return err
}

func FileChmod(f *os.File, mode os.FileMode) error {
	_, err := handleOf(f, "chmod")
	return err
}

func FileName(f *os.File) string {
	for _, h := range handles {
		if h.f == f {
			return h.path
		}
	}
	return ""
}

func FileStat(f *os.File) (os.FileInfo, error) {
	h, err := handleOf(f, "stat")
	if err != nil {
		return nil, err
	}
	return info{h.n}, nil
}

func FileReaddirnames(f *os.File, n int) ([]string, error) {
	h, err := handleOf(f, "readdir")
	if err != nil {
		return nil, err
	}
	if !h.n.dir {
		return nil, pathErr("readdirent", h.path, errNotDir)
	}
	var r []string
	for _, k := range h.n.kids {
		r = append(r, k.name)
	}
	return r, nil
}

func OsGetwd() (string, error) { return Scratch, nil }

func OsReadFile(p string) ([]byte, error) {
	n, err := find("open", p)
	if err != nil {
		return nil, err
	}
	if n.dir {
		return nil, pathErr("read", p, errIsDir)
	}
	return append([]byte{}, n.data...), nil
}

func OsWriteFile(p string, b []byte, mode os.FileMode) error {
	f, err := OsOpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, b)
	if e := FileClose(f); err == nil {
		err = e
	}
	return err
}

func OsSymlink(target, p string) error {
	if target != "/dev/full" {
		return errLink
	}
	d, name, n, err := walk(p)
	if err == nil && n != nil {
		err = errExist
	}
	if err != nil {
		return pathErr("symlink", p, err)
	}
	d.kids = append(d.kids, &node{name: name, full: true})
	return nil
}

func OsRemove(p string) error {
	d, _, n, err := walk(p)
	if err == nil && n == nil {
		err = errNone
	}
	if err == nil && n.dir && len(n.kids) > 0 {
		err = errEmpty
	}
	if err != nil {
		return pathErr("remove", p, err)
	}
	d.drop(n)
	return nil
}

func (n *node) drop(k *node) {
	var r []*node
	for _, x := range n.kids {
		if x != k {
			r = append(r, x)
		}
	}
	n.kids = r
}

func OsRename(from, to string) error {
	fd, _, n, err := walk(from)
	if err == nil && n == nil {
		err = errNone
	}
	var td, old *node
	var name string
	if err == nil {
		td, name, old, err = walk(to)
	}
	if err == nil && old != nil && old.dir {
		err = errExist
	}
	if err != nil {
		return pathErr("rename", from, err)
	}
	if old == n {
		return nil
	}
	fd.drop(n)
	if old != nil {
		td.drop(old)
	}
	n.name = name
	td.kids = append(td.kids, n)
	return nil
}

type info struct{ n *node }

func (i info) Name() string { return i.n.name }
func (i info) Size() int64  { return int64(len(i.n.data)) }
func (i info) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }

func OsStat(p string) (os.FileInfo, error) {
	n, err := find("stat", p)
	if err != nil {
		return nil, err
	}
	return info{n}, nil
}

func OsReadDir(p string) ([]os.DirEntry, error) {
	n, err := find("open", p)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, pathErr("readdirent", p, errNotDir)
	}
	var r []os.DirEntry
	for _, k := range n.kids {
		r = append(r, fs.FileInfoToDirEntry(info{k}))
	}
	for i := range r {
		for j := i; j > 0 && r[j].Name() < r[j-1].Name(); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r, nil
}

var tempSeq int

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = Scratch
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	tempSeq++
	return dir + "/" + pre + "12345678" + string(rune('0'+tempSeq%10)) + string(rune('0'+tempSeq/10%10)) + suf
}

func OsCreateTemp(dir, pattern string) (*os.File, error) {
	return OsOpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func OsMkdirTemp(dir, pattern string) (string, error) {
	p := tempName(dir, pattern)
	return p, OsMkdir(p, 0o700)
}

func OsTempDir() string { return Scratch }

func OsRemoveAll(p string) error {
	if d, _, n, err := walk(p); err == nil && n != nil && d != nil {
		d.drop(n)
	}
	return nil
}

func OsChmod(p string, mode os.FileMode) error {
	_, err := find("chmod", p)
	return err
}

func OsTruncate(p string, size int64) error {
	f, err := OsOpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	return FileTruncate(f, size)
}

func FileTruncate(f *os.File, size int64) error {
	h, err := handleOf(f, "truncate")
	if err != nil {
		return err
	}
	if !h.write || size < 0 {
		return pathErr("truncate", h.path, errBadF)
	}
	d := append([]byte{}, h.n.data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	h.n.data = d[:size]
	return nil
}

func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := handleOf(f, "seek")
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(h.pos)
	case io.SeekEnd:
		off += int64(len(h.n.data))
	}
	if off < 0 {
		return 0, pathErr("seek", h.path, os.ErrInvalid)
	}
	h.pos = int(off)
	return off, nil
}

func FileReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := handleOf(f, "read")
	if err != nil {
		return 0, err
	}
	if off >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		n, _ := FileWrite(f, b)
		return int64(n), err
	}
	n, err := FileWrite(f, b)
	return int64(n), err
}

func FileWriteTo(f *os.File, w io.Writer) (int64, error) {
	var total int64
	b := make([]byte, 512)
	for {
		n, err := FileRead(f, b)
		if n > 0 {
			m, werr := w.Write(b[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func FileReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	h, err := handleOf(f, "readdir")
	if err != nil {
		return nil, err
	}
	return OsReadDir(h.path)
}

func OsGetenv(k string) string            { return "" }
func OsLookupEnv(k string) (string, bool) { return "", false }
func OsGetpid() int                       { return 1000 }
