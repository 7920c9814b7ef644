package world

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"simkit/simrt"
)

// Node is a file or a directory. A file that is replaced gets a new Node, as rename(2) does; an open handle
// keeps the old one.
type Node struct {
	Dir  bool
	Data []byte
	Mode fs.FileMode
	Gen  int
	Mod  time.Time
	Seq  int // when it came to be
}

// FS is the simulated file system. Paths are absolute and clean.
type FS struct {
	w     *World
	nodes map[string]*Node
	gen   int
	Hist  map[string][]*Node // every version a path ever had
}

func newFS(w *World) *FS {
	f := &FS{w: w, nodes: map[string]*Node{}, Hist: map[string][]*Node{}}
	f.nodes[`/`] = &Node{Dir: true, Mode: fs.ModeDir | 0755}
	return f
}

// Mkdir creates a directory and its parents.
func (f *FS) Mkdir(p string) {
	p = path.Clean(p)
	for p != `/` {
		if n := f.nodes[p]; n == nil {
			f.nodes[p] = &Node{Dir: true, Mode: fs.ModeDir | 0755}
		}
		p = path.Dir(p)
	}
}

// Put atomically creates or replaces a file.
func (f *FS) Put(p, data string) {
	p = path.Clean(p)
	f.Mkdir(path.Dir(p))
	f.gen++
	n := &Node{Data: []byte(data), Mode: 0644, Gen: f.gen, Seq: f.w.S.Seq()}
	f.nodes[p] = n
	f.Hist[p] = append(f.Hist[p], n)
	f.w.S.Eventf(`fs put %s (gen %d)`, p, f.gen)
}

// Remove removes a file or a tree.
// IsDir tells if there is a directory.
func (f *FS) IsDir(p string) bool {
	n, errno := f.find(p)
	return errno == 0 && n.Dir
}

func (f *FS) Remove(p string) {
	p = path.Clean(p)
	for k := range f.nodes {
		if k == p || strings.HasPrefix(k, p+`/`) {
			delete(f.nodes, k)
		}
	}
	f.Hist[p] = append(f.Hist[p], &Node{Gen: -1, Seq: f.w.S.Seq()})
	f.w.S.Eventf(`fs remove %s`, p)
}

// Versions lists the versions of a file that were current at some time between two sequence numbers. One with a
// negative Gen means that there was no such file.
func (f *FS) Versions(p string, from, to int) (vs []*Node) {
	h := append([]*Node{{Gen: -1}}, f.Hist[path.Clean(p)]...)
	for i, n := range h {
		if n.Seq > to {
			break
		}
		if i+1 < len(h) && h[i+1].Seq <= from {
			continue
		}
		vs = append(vs, n)
	}
	return
}

// Content returns what the file contains now.
func (f *FS) Content(p string) (string, bool) {
	n := f.nodes[path.Clean(p)]
	if n == nil || n.Dir {
		return ``, false
	}
	return string(n.Data), true
}

// Paths lists all paths, sorted.
func (f *FS) Paths() []string {
	ls := make([]string, 0, len(f.nodes))
	for k := range f.nodes {
		ls = append(ls, k)
	}
	sort.Strings(ls)
	return ls
}

func (f *FS) abs(p string) string {
	if !path.IsAbs(p) {
		p = path.Join(f.w.Cwd, p)
	}
	return path.Clean(p)
}

func (f *FS) find(p string) (*Node, syscall.Errno) {
	if p == `` {
		return nil, syscall.ENOENT
	}
	a := f.abs(p)
	if n := f.nodes[a]; n != nil {
		if !n.Dir && strings.HasSuffix(p, `/`) {
			return nil, syscall.ENOTDIR
		}
		return n, 0
	}
	for d := path.Dir(a); ; d = path.Dir(d) {
		if n := f.nodes[d]; n != nil {
			if !n.Dir {
				return nil, syscall.ENOTDIR
			}
			return nil, syscall.ENOENT
		}
		if d == `/` {
			return nil, syscall.ENOENT
		}
	}
}

type fileInfo struct {
	name string
	n    *Node
}

func (i fileInfo) Name() string               { return i.name }
func (i fileInfo) Size() int64                { return int64(len(i.n.Data)) }
func (i fileInfo) Mode() fs.FileMode          { return i.n.Mode }
func (i fileInfo) ModTime() time.Time         { return i.n.Mod }
func (i fileInfo) IsDir() bool                { return i.n.Dir }
func (i fileInfo) Sys() interface{}           { return nil }
func (i fileInfo) Type() fs.FileMode          { return i.n.Mode.Type() }
func (i fileInfo) Info() (fs.FileInfo, error) { return i, nil }

// Stat is stat(2) or lstat(2).
func (f *FS) Stat(op, p string) (fs.FileInfo, error) {
	simrt.YieldIO(op + ` ` + p)
	f.w.Count(`op:` + op)
	if ft := f.w.fault(op, f.abs(p)); ft != nil {
		return nil, &os.PathError{Op: op, Path: p, Err: Errno(ft.Kind)}
	}
	n, en := f.find(p)
	if en != 0 {
		return nil, &os.PathError{Op: op, Path: p, Err: en}
	}
	f.w.S.Eventf(`%s %s`, op, p)
	f.w.op(op+`-done`, f.abs(p))
	simrt.YieldIO(op + ` done ` + p)
	return fileInfo{path.Base(f.abs(p)), n}, nil
}

// File is an open file or directory.
type File struct {
	fs     *FS
	name   string
	path   string
	n      *Node
	off    int
	closed bool
	listed []string
	isDir  bool
	std    int // 1, 2: stdout, stderr
}

// Open opens a file for reading.
func (f *FS) Open(p string) (*File, error) {
	simrt.YieldIO(`open ` + p)
	f.w.Count(`op:open`)
	a := f.abs(p)
	if ft := f.w.fault(`open`, a); ft != nil {
		f.w.Reads = append(f.w.Reads, ReadRec{Seq: f.w.S.Seq(), Path: a, Task: simrt.Cur(), Err: ft.Kind})
		return nil, &os.PathError{Op: `open`, Path: p, Err: Errno(ft.Kind)}
	}
	n, en := f.find(p)
	if en != 0 {
		f.w.Reads = append(f.w.Reads, ReadRec{Seq: f.w.S.Seq(), Path: a, Task: simrt.Cur(), Err: en.Error()})
		return nil, &os.PathError{Op: `open`, Path: p, Err: en}
	}
	fl := &File{fs: f, name: p, path: a, n: n, isDir: n.Dir}
	f.w.Reads = append(f.w.Reads, ReadRec{Seq: f.w.S.Seq(), Path: a, Gen: n.Gen, Task: simrt.Cur(), Dir: n.Dir})
	f.w.OpenFiles[fl] = true
	f.w.S.Eventf(`open %s (gen %d)`, p, n.Gen)
	f.w.op(`open-done`, a)
	simrt.YieldIO(`open done ` + p)
	return fl, nil
}

// Name is the name the file was opened with.
func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr { return 99 }

func (f *File) Stat() (fs.FileInfo, error) {
	if f.closed {
		return nil, &os.PathError{Op: `stat`, Path: f.name, Err: os.ErrClosed}
	}
	return fileInfo{path.Base(f.path), f.n}, nil
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std == 3 {
		if W == nil {
			return os.Stdin.Read(b)
		}
		return W.Stdin.Read(b)
	}
	simrt.YieldIO(`read ` + f.name)
	if f.closed {
		return 0, &os.PathError{Op: `read`, Path: f.name, Err: os.ErrClosed}
	}
	if f.isDir {
		return 0, &os.PathError{Op: `read`, Path: f.name, Err: syscall.EISDIR}
	}
	f.fs.w.Count(`op:read`)
	max := len(b)
	rem := len(f.n.Data) - f.off
	for _, ft := range f.fs.w.Faults {
		if ft.Op == `read` && (ft.Path == `` || ft.Path == f.path) && ft.Kind != `short` && ft.Kind != `slow` && f.off < ft.Off && f.off+max > ft.Off {
			max = ft.Off - f.off
		}
	}
	if ft := f.fs.w.readFault(f.path, f.off); ft != nil {
		switch ft.Kind {
		case `short`:
			if max > 1 && rem > 1 {
				max = 1 + (rem-1)/2
				if max > len(b) {
					max = len(b)
				}
			}
		default:
			return 0, &os.PathError{Op: `read`, Path: f.name, Err: Errno(ft.Kind)}
		}
	}
	if rem <= 0 {
		f.fs.w.op(`read-done`, f.path)
		f.fs.w.Full = append(f.fs.w.Full, ReadRec{Seq: f.fs.w.S.Seq(), Path: f.path, Gen: f.n.Gen, Task: simrt.Cur()})
		return 0, io.EOF
	}
	if max > rem {
		max = rem
	}
	copy(b, f.n.Data[f.off:f.off+max])
	f.off += max
	return max, nil
}

// readFault finds a fault of a read at the given offset.
func (w *World) readFault(p string, off int) *Fault {
	w.op(`read`, p)
	for _, f := range w.Faults {
		if f.Op != `read` || (f.Path != `` && f.Path != p) {
			continue
		}
		if f.Kind != `short` && f.Kind != `slow` && off < f.Off {
			continue
		}
		f.seen++
		if f.Nth == 0 || f.seen == f.Nth || (f.Nth < 0 && f.seen >= -f.Nth) {
			f.fired++
			w.Count(`fault:read:` + f.Kind)
			w.S.Eventf(`fault read %s %s`, f.Kind, p)
			if f.Kind == `slow` {
				simrt.Sleep(time.Duration(f.Ms) * time.Millisecond)
				continue
			}
			if f.Kind != `short` {
				w.Fired = append(w.Fired, FireRec{w.S.Seq(), `read`, p, f.Kind, simrt.Cur(), w.S.Now()})
			}
			return f
		}
	}
	return nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if int(off) >= len(f.n.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.off = int(off)
	case io.SeekCurrent:
		f.off += int(off)
	default:
		f.off = len(f.n.Data) + int(off)
	}
	return int64(f.off), nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &os.PathError{Op: `close`, Path: f.name, Err: os.ErrClosed}
	}
	f.closed = true
	if f.fs != nil {
		delete(f.fs.w.OpenFiles, f)
	}
	simrt.YieldIO(`close ` + f.name)
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	switch f.std {
	case 1:
		if W != nil {
			return W.write(`/dev/stdout`, &W.Stdout, b)
		}
		return os.Stdout.Write(b)
	case 2:
		if W != nil {
			return W.write(`/dev/stderr`, &W.Stderr, b)
		}
		return os.Stderr.Write(b)
	}
	return 0, &os.PathError{Op: `write`, Path: f.name, Err: syscall.EBADF}
}

// Writer is an output whose writes can be made to fail.
type Writer struct {
	Name string
	Data []byte
}

func (o *Writer) Write(b []byte) (int, error) { return W.write(o.Name, &o.Data, b) }

// write writes to an output. A fault with an offset lets that many bytes of all that is written through: the disk is
// full then, and if only the n-th write is to fail there is room again for those that follow.
func (w *World) write(name string, to *[]byte, b []byte) (int, error) {
	simrt.YieldIO(`write ` + name)
	w.Count(`op:write`)
	w.op(`write`, name)
	var hit *Fault
	room := len(b)
	for _, f := range w.Faults {
		if f.Op != `write` || f.Path != name || hit != nil {
			continue
		}
		f.seen++
		if f.Off > 0 {
			if len(*to)+len(b) > f.Off {
				if hit, room = f, f.Off-len(*to); room < 0 {
					room = 0
				}
			}
		} else if f.Nth == 0 || f.seen == f.Nth || f.Nth < 0 && f.seen >= -f.Nth {
			if hit, room = f, 0; f.Ms > 0 && f.Ms < len(b) {
				room = f.Ms
			}
		}
	}
	*to = append(*to, b[:room]...)
	if hit == nil {
		return len(b), nil
	}
	hit.fired++
	w.Count(`fault:write:` + hit.Kind)
	w.S.Eventf(`fault %s write %s after %d bytes`, hit.Kind, name, len(*to))
	w.Fired = append(w.Fired, FireRec{w.S.Seq(), `write`, name, hit.Kind, simrt.Cur(), w.S.Now()})
	return room, &os.PathError{Op: `write`, Path: name, Err: Errno(hit.Kind)}
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// StdFile returns the stdout (1), stderr (2) or stdin (3) of the simulated process.
func StdFile(n int) *File { return &File{std: n, name: `/dev/stdout`} }

// list returns the entries of a directory in an order the scheduler chooses, which is what readdir(3) promises.
func (f *File) list(op string) ([]string, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	simrt.YieldIO(op + ` ` + f.name)
	if f.closed {
		return nil, &os.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	if !f.isDir {
		return nil, &os.PathError{Op: `readdirent`, Path: f.name, Err: syscall.ENOTDIR}
	}
	f.fs.w.Count(`op:readdir`)
	var ls []string
	for p := range f.fs.nodes {
		if p != `/` && path.Dir(p) == f.path {
			ls = append(ls, path.Base(p))
		}
	}
	sort.Strings(ls)
	for i := 0; i < len(ls)-1; i++ {
		if j := i + simrt.Choose(len(ls)-i, `readdir`); j != i {
			ls[i], ls[j] = ls[j], ls[i]
			f.fs.w.Count(`readdir:permuted`)
		}
	}
	if ft := f.fs.w.fault(`readdir`, f.path); ft != nil {
		return ls[:len(ls)/2], &os.PathError{Op: `readdirent`, Path: f.name, Err: Errno(ft.Kind)}
	}
	f.fs.w.S.Eventf(`readdir %s -> %v`, f.name, ls)
	return ls, nil
}

func (f *File) infos(ls []string) []fileInfo {
	var r []fileInfo
	for _, b := range ls {
		if n := f.fs.nodes[path.Join(f.path, b)]; n != nil {
			r = append(r, fileInfo{b, n})
		}
	}
	return r
}

func page(f *File, n int, all []string, err error) ([]string, error) {
	if n <= 0 {
		return all, err
	}
	if f.listed == nil && err == nil {
		f.listed = append([]string{}, all...)
	}
	if len(f.listed) == 0 {
		if err == nil {
			err = io.EOF
		}
		return nil, err
	}
	if n > len(f.listed) {
		n = len(f.listed)
	}
	r := f.listed[:n]
	f.listed = f.listed[n:]
	return r, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	var ls []string
	var err error
	if n <= 0 || f.listed == nil {
		ls, err = f.list(`readdir`)
	}
	return page(f, n, ls, err)
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	ls, err := f.Readdirnames(n)
	r := []fs.FileInfo{}
	for _, i := range f.infos(ls) {
		r = append(r, i)
	}
	if err != nil && n <= 0 {
		return r, err
	}
	return r, err
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	ls, err := f.Readdirnames(n)
	r := []fs.DirEntry{}
	for _, i := range f.infos(ls) {
		r = append(r, i)
	}
	return r, err
}

// ReadFile reads a whole file.
func (f *FS) ReadFile(p string) ([]byte, error) {
	fl, err := f.Open(p)
	if err != nil {
		return nil, err
	}
	defer func() { _ = fl.Close() }()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := fl.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			f.w.Reads = append(f.w.Reads, ReadRec{Seq: f.w.S.Seq(), Path: fl.path, Gen: fl.n.Gen, Task: simrt.Cur(), Err: err.Error()})
			return out, err
		}
	}
}

// ReadDir reads a directory sorted by name, as os.ReadDir does.
func (f *FS) ReadDir(p string) ([]fs.DirEntry, error) {
	fl, err := f.Open(p)
	if err != nil {
		return nil, err
	}
	defer func() { _ = fl.Close() }()
	ls, err := fl.ReadDir(-1)
	sort.Slice(ls, func(i, j int) bool { return ls[i].Name() < ls[j].Name() })
	return ls, err
}

// Stdin is the standard input of the simulated process.
type Stdin struct {
	w    *World
	Data []byte
	off  int
}

func (s *Stdin) Read(b []byte) (int, error) {
	simrt.YieldIO(`read stdin`)
	if ft := s.w.readFault(`-`, s.off); ft != nil {
		if ft.Kind != `short` {
			return 0, &os.PathError{Op: `read`, Path: `/dev/stdin`, Err: Errno(ft.Kind)}
		}
		if len(b) > 1 {
			b = b[:1]
		}
	}
	if s.off >= len(s.Data) {
		return 0, io.EOF
	}
	for _, ft := range s.w.Faults {
		if ft.Op == `read` && ft.Path == `-` && ft.Kind != `short` && ft.Kind != `slow` && s.off < ft.Off && s.off+len(b) > ft.Off {
			b = b[:ft.Off-s.off]
		}
	}
	n := len(s.Data) - s.off
	if n > len(b) {
		n = len(b)
	}
	if n > 1 && simrt.Choose(4, `read size`) == 1 { // a pipe gives what there is
		n = 1 + simrt.Choose(n-1, `read size`)
	}
	n = copy(b[:n], s.Data[s.off:])
	s.off += n
	return n, nil
}
