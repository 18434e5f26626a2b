package main

// An in-memory operating system for harnesses with the directive
// "//verif:subst os": the loader rewrites os.File, os.Open, ... in /repo's
// sources (in an overlay) to the vos_ names below.  The same code runs in the
// symbolic execution and in the native replay.

import (
	"errors"
	"io"
	"os"
	"time"
)

type vosNode struct {
	data []byte
}

type vosEntry struct {
	name string
	node *vosNode
}

type vosExit struct{ code int }

type vosState struct {
	disk     []vosEntry
	frozen   bool // the process is gone: nothing reaches the disk any more
	exited   bool
	code     int
	ops      int // operations performed that can fail
	faultAt  int // the operation with this number fails (-1: none)
	faultAll bool
	faulted  bool
	crashAt  int // the process dies at this operation (-1: none)
	short    int // how many bytes of a failing write reach the disk
	log      []string
	tmpNo    int
	open     int
	faultOp  string
	panicked any
}

var vos vosState

var errVos = errors.New("simulated I/O error")

func vosReset() { vos = vosState{faultAt: -1, crashAt: -1} }

func (s *vosState) find(name string) *vosNode {
	for i := range s.disk {
		if s.disk[i].name == name {
			return s.disk[i].node
		}
	}
	return nil
}

func (s *vosState) put(name string, data []byte) {
	s.disk = append(s.disk, vosEntry{name, &vosNode{data}})
}

// step counts an operation; fail: this one has to fail
func (s *vosState) step(op string) (fail bool) {
	n := s.ops
	s.ops++
	if n == s.crashAt {
		s.frozen = true
	}
	if n == s.faultAt || (s.faultAll && s.faulted) {
		s.faulted = true
		s.faultOp = op
		return true
	}
	return false
}

type vos_File struct {
	node   *vosNode
	name   string
	pos    int64
	closed bool
	w      bool
}

func (f *vos_File) Name() string { return f.name }

func (f *vos_File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	vos.open--
	if f.w && vos.step("close") {
		return errVos
	}
	return nil
}

func (f *vos_File) Read(p []byte) (int, error) {
	if f == nil || f.closed {
		return 0, os.ErrClosed
	}
	if vos.step("read") {
		return 0, errVos
	}
	if f.pos >= int64(len(f.node.data)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, f.node.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *vos_File) ReadAt(p []byte, off int64) (int, error) {
	if f == nil || f.closed {
		return 0, os.ErrClosed
	}
	if off < 0 {
		return 0, errVos
	}
	if vos.step("readat") {
		return 0, errVos
	}
	if off > int64(len(f.node.data)) {
		off = int64(len(f.node.data))
	}
	n := copy(p, f.node.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (f *vos_File) Seek(off int64, whence int) (int64, error) {
	if f == nil || f.closed {
		return 0, os.ErrClosed
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.node.data))
	}
	if off < 0 {
		return 0, errVos
	}
	f.pos = off
	return off, nil
}

func (f *vos_File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.name == "stdout" {
		vos_logged(string(p))
		return len(p), nil
	}
	if f.name == "stderr" {
		return len(p), nil
	}
	if f.closed {
		return 0, os.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	was := vos.frozen
	fail := vos.step("write")
	n := len(p)
	if fail || (vos.frozen && !was) {
		n = vMin(n, vos.short)
	}
	if !was {
		end := int(f.pos) + n
		for len(f.node.data) < end {
			f.node.data = append(f.node.data, 0)
		}
		copy(f.node.data[f.pos:], p[:n])
	}
	f.pos += int64(n)
	if fail {
		return n, errVos
	}
	return n, nil
}

func (f *vos_File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *vos_File) Truncate(size int64) error {
	if vos.step("truncate") {
		return errVos
	}
	if !vos.frozen {
		for int64(len(f.node.data)) < size {
			f.node.data = append(f.node.data, 0)
		}
		f.node.data = f.node.data[:size]
	}
	return nil
}

func (f *vos_File) Sync() error {
	if vos.step("sync") {
		return errVos
	}
	return nil
}

func vos_logged(s string) { vos.log = append(vos.log, s) }

func vosLogged(part string) bool {
	for _, l := range vos.log {
		for i := 0; i+len(part) <= len(l); i++ {
			if l[i:i+len(part)] == part {
				return true
			}
		}
	}
	return false
}

var vos_Stdout = &vos_File{name: "stdout", node: &vosNode{}}
var vos_Stderr = &vos_File{name: "stderr", node: &vosNode{}}

var vos_Args = []string{"vigilantbsp"}

func vos_Open(name string) (*vos_File, error) { return vos_OpenFile(name, os.O_RDONLY, 0) }

func vos_Create(name string) (*vos_File, error) {
	return vos_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func vos_OpenFile(name string, flag int, perm os.FileMode) (*vos_File, error) {
	if vos.step("open") {
		return nil, errVos
	}
	n := vos.find(name)
	w := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, os.ErrNotExist
		}
		n = &vosNode{}
		if !vos.frozen {
			vos.disk = append(vos.disk, vosEntry{name, n})
		}
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, os.ErrExist
		}
		if flag&os.O_TRUNC != 0 && !vos.frozen {
			n.data = nil
		}
	}
	vos.open++
	f := &vos_File{node: n, name: name, w: w}
	if flag&os.O_APPEND != 0 {
		f.pos = int64(len(n.data))
	}
	return f, nil
}

func vos_CreateTemp(dir, pattern string) (*vos_File, error) {
	vos.tmpNo++
	return vos_OpenFile(dir+"/"+pattern+string(rune('0'+vos.tmpNo)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func vos_Remove(name string) error {
	if vos.step("remove") {
		return errVos
	}
	for i := range vos.disk {
		if vos.disk[i].name == name {
			if !vos.frozen {
				vos.disk = append(append([]vosEntry{}, vos.disk[:i]...), vos.disk[i+1:]...)
			}
			return nil
		}
	}
	return os.ErrNotExist
}

func vos_Rename(from, to string) error {
	if vos.step("rename") {
		return errVos
	}
	n := vos.find(from)
	if n == nil {
		return os.ErrNotExist
	}
	if vos.frozen {
		return nil
	}
	var nd []vosEntry
	for _, e := range vos.disk {
		if e.name != from && e.name != to {
			nd = append(nd, e)
		}
	}
	vos.disk = append(nd, vosEntry{to, n})
	return nil
}

type vosInfo struct {
	name string
	node *vosNode
}

func (i vosInfo) Name() string       { return i.name }
func (i vosInfo) Size() int64        { return int64(len(i.node.data)) }
func (i vosInfo) Mode() os.FileMode  { return 0644 }
func (i vosInfo) ModTime() time.Time { return time.Time{} }
func (i vosInfo) IsDir() bool        { return false }
func (i vosInfo) Sys() any           { return nil }

func vos_Stat(name string) (os.FileInfo, error) {
	if vos.step("stat") {
		return nil, errVos
	}
	n := vos.find(name)
	if n == nil {
		return nil, os.ErrNotExist
	}
	return vosInfo{name, n}, nil
}

func vos_SameFile(a, b os.FileInfo) bool { return a.(vosInfo).node == b.(vosInfo).node }

func vos_ReadFile(name string) ([]byte, error) {
	n := vos.find(name)
	if n == nil {
		return nil, os.ErrNotExist
	}
	return append([]byte{}, n.data...), nil
}

func vos_Exit(code int) {
	vos.frozen = true
	vos.exited = true
	vos.code = code
	panic(vosExit{code})
}

// vosRun runs the program; crashed: it ended with a panic
func vosRun(f func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vStop); ok {
				panic(s)
			}
			if _, ok := r.(vosExit); ok {
				return
			}
			crashed = true
			vos.panicked = r
		}
	}()
	f()
	return false
}
