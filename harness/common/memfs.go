package PKG

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/je4/filesystem/v3/pkg/writefs"
)

// vMem is an in-memory file system with directories, a log of the mutating
// operations and one optional injected fault.
type vMem struct {
	files map[string][]byte
	dirs  map[string]bool
	ops   []string
	// fault: the n-th mutating operation (1-based) fails; 0: none
	failAt int
	n      int
	hit    string
	open   int // writers not closed yet
	style  int // how a missing directory is reported: 0 plain, 1 wrapped
}

var vErrFault = errors.New("injected fault")

func vNewMem() *vMem { return &vMem{files: map[string][]byte{}, dirs: map[string]bool{".": true}} }

func (m *vMem) clone() *vMem {
	c := vNewMem()
	for k, v := range m.files {
		c.files[k] = append([]byte{}, v...)
	}
	for k := range m.dirs {
		c.dirs[k] = true
	}
	c.style = m.style
	return c
}
func (m *vMem) op(kind, name string) error {
	m.n++
	m.ops = append(m.ops, kind+" "+name)
	if m.n == m.failAt {
		m.hit = kind + " " + name
		return fmt.Errorf("%s %s: %w", kind, name, vErrFault)
	}
	return nil
}
func (m *vMem) mkall(d string) {
	for d != "." && d != "/" && d != "" {
		m.dirs[d] = true
		d = path.Dir(d)
	}
}

// list: all files with content
func (m *vMem) list() map[string]string {
	r := map[string]string{}
	for k, v := range m.files {
		r[k] = string(v)
	}
	return r
}
func (m *vMem) names() []string {
	var r []string
	for k := range m.files {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type vMemFS struct {
	m   *vMem
	dir string
}

func (m *vMem) fs() *vMemFS { return &vMemFS{m, "."} }

func (f *vMemFS) p(name string) string { return path.Join(f.dir, name) }
func (f *vMemFS) String() string       { return "mem(" + f.dir + ")" }
func (f *vMemFS) Fullpath(n string) (string, error) {
	return f.p(n), nil
}

type vInfo struct {
	name string
	size int64
	dir  bool
}

func (i vInfo) Name() string { return i.name }
func (i vInfo) Size() int64  { return i.size }
func (i vInfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i vInfo) ModTime() time.Time         { return time.Time{} }
func (i vInfo) IsDir() bool                { return i.dir }
func (i vInfo) Sys() any                   { return nil }
func (i vInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i vInfo) Info() (fs.FileInfo, error) { return i, nil }

type vFile struct {
	*bytes.Reader
	info vInfo
}

func (f *vFile) Stat() (fs.FileInfo, error) { return f.info, nil }
func (f *vFile) Close() error               { return nil }

type vDir struct {
	fs   *vMemFS
	name string
	ents []fs.DirEntry
	pos  int
	init bool
}

func (d *vDir) Stat() (fs.FileInfo, error) { return vInfo{path.Base(d.name), 0, true}, nil }
func (d *vDir) Close() error               { return nil }
func (d *vDir) Read([]byte) (int, error)   { return 0, &fs.PathError{Op: "read", Path: d.name, Err: errors.New("is a directory")} }
func (d *vDir) ReadDir(n int) ([]fs.DirEntry, error) {
	if !d.init {
		d.ents, _ = d.fs.readDir(d.name)
		d.init = true
	}
	rest := d.ents[d.pos:]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		if len(rest) > n {
			rest = rest[:n]
		}
	}
	d.pos += len(rest)
	return rest, nil
}

func (f *vMemFS) Open(name string) (fs.File, error) {
	p := f.p(name)
	if b, ok := f.m.files[p]; ok {
		return &vFile{bytes.NewReader(b), vInfo{path.Base(p), int64(len(b)), false}}, nil
	}
	if f.m.dirs[p] {
		return &vDir{fs: f, name: p}, nil
	}
	return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
}
func (f *vMemFS) Stat(name string) (fs.FileInfo, error) {
	fp, err := f.Open(name)
	if err != nil {
		return nil, err
	}
	return fp.Stat()
}
func (f *vMemFS) readDir(p string) ([]fs.DirEntry, error) {
	if !f.m.dirs[p] {
		if _, ok := f.m.files[p]; ok {
			return nil, &fs.PathError{Op: "readdir", Path: p, Err: errors.New("not a directory")}
		}
		if f.m.style == 1 {
			return nil, fmt.Errorf("readdir: %w", &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist})
		}
		return nil, fs.ErrNotExist
	}
	var r []fs.DirEntry
	for n, b := range f.m.files {
		if path.Dir(n) == p {
			r = append(r, vInfo{path.Base(n), int64(len(b)), false})
		}
	}
	for n := range f.m.dirs {
		if n != "." && path.Dir(n) == p {
			r = append(r, vInfo{path.Base(n), 0, true})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r, nil
}
func (f *vMemFS) ReadDir(name string) ([]fs.DirEntry, error) { return f.readDir(f.p(name)) }
func (f *vMemFS) ReadFile(name string) ([]byte, error) {
	b, ok := f.m.files[f.p(name)]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: f.p(name), Err: fs.ErrNotExist}
	}
	return append([]byte{}, b...), nil
}
func (f *vMemFS) Sub(dir string) (fs.FS, error) {
	p := f.p(dir)
	if !f.m.dirs[p] {
		return nil, &fs.PathError{Op: "sub", Path: p, Err: fs.ErrNotExist}
	}
	return &vMemFS{f.m, p}, nil
}

type vWriter struct {
	m      *vMem
	name   string
	closed bool
}

func (w *vWriter) Write(b []byte) (int, error) {
	if w.closed {
		return 0, fs.ErrClosed
	}
	if err := w.m.op("write", w.name); err != nil {
		return 0, err
	}
	w.m.files[w.name] = append(w.m.files[w.name], b...)
	return len(b), nil
}
func (w *vWriter) Close() error {
	if w.closed {
		return fs.ErrClosed
	}
	w.closed = true
	w.m.open--
	return w.m.op("close", w.name)
}
func (f *vMemFS) Create(name string) (writefs.FileWrite, error) {
	p := f.p(name)
	if err := f.m.op("create", p); err != nil {
		return nil, err
	}
	if f.m.dirs[p] || strings.HasPrefix(p, "../") {
		return nil, fmt.Errorf("cannot create file '%s'", p)
	}
	f.m.mkall(path.Dir(p))
	f.m.files[p] = []byte{}
	f.m.open++
	return &vWriter{m: f.m, name: p}, nil
}
func (f *vMemFS) MkDir(name string) error {
	p := f.p(name)
	if err := f.m.op("mkdir", p); err != nil {
		return err
	}
	if f.m.dirs[p] {
		return &fs.PathError{Op: "mkdir", Path: p, Err: fs.ErrExist}
	}
	f.m.mkall(p)
	return nil
}
func (f *vMemFS) Remove(name string) error {
	p := f.p(name)
	if err := f.m.op("remove", p); err != nil {
		return err
	}
	if _, ok := f.m.files[p]; ok {
		delete(f.m.files, p)
		return nil
	}
	if f.m.dirs[p] {
		delete(f.m.dirs, p)
		return nil
	}
	return &fs.PathError{Op: "remove", Path: p, Err: fs.ErrNotExist}
}
func (f *vMemFS) Rename(a, b string) error {
	if err := f.m.op("rename", f.p(a)); err != nil {
		return err
	}
	d, ok := f.m.files[f.p(a)]
	if !ok {
		return &fs.PathError{Op: "rename", Path: f.p(a), Err: fs.ErrNotExist}
	}
	delete(f.m.files, f.p(a))
	f.m.mkall(path.Dir(f.p(b)))
	f.m.files[f.p(b)] = d
	return nil
}

var (
	_ writefs.CreateFS = (*vMemFS)(nil)
	_ writefs.MkDirFS  = (*vMemFS)(nil)
	_ fs.SubFS         = (*vMemFS)(nil)
	_ fs.ReadDirFS     = (*vMemFS)(nil)
)
