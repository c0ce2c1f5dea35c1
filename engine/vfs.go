package main

import (
	"go/types"
	"path/filepath"
	"strings"
	"syscall"
)

// An in-memory file system standing in for package os: files, directories, open
// flags and offsets, the errors of missing and existing files, and /dev/full, to
// which nothing can be written.

type vfile struct {
	name   string
	data   *vdata
	off    int
	std    bool
	closed bool
	read   bool
	write  bool
	app    bool
	full   bool
	dir    bool
}

type vdata struct {
	b []*Term
}

type VFS struct {
	files map[string]*vdata
	dirs  map[string]bool
	temp  int
}

func newVFS() *VFS {
	return &VFS{files: map[string]*vdata{}, dirs: map[string]bool{"/": true, "/vfs": true, "/tmp": true, "/dev": true, ".": true}}
}

func (m *Machine) errno(e syscall.Errno) Iface {
	return Iface{t: m.P.canon(m.P.pkgs["syscall"].Type("Errno").Type()), v: mkConst(64, uint64(e))}
}

// pathErr is a *fs.PathError.
func (m *Machine) pathErr(op, name string, e syscall.Errno) Iface {
	return m.pathErrOf(op, name, m.errno(e))
}

func (m *Machine) pathErrOf(op, name string, e Iface) Iface {
	t := m.P.pkgs["io/fs"].Type("PathError").Type()
	p := new(Value)
	*p = Struct{cstr(op), cstr(name), e}
	return Iface{t: m.P.canon(types.NewPointer(t)), v: p}
}

func (m *Machine) closedErr(op, name string) Iface {
	g := m.P.pkgs["internal/oserror"].Var("ErrClosed")
	return m.pathErrOf(op, name, (*m.global(m.P.globalIdx(g), g)).(Iface))
}

func (m *Machine) mkFile(f *vfile) *Value {
	p := new(Value)
	*p = &Native{kind: "file", v: f}
	return p
}

func (m *Machine) fileOf(fr *Frame, v Value) *vfile {
	p := v.(*Value)
	if p == nil {
		m.throw(fr, "invalid memory address or nil pointer dereference")
	}
	return (*p).(*Native).v.(*vfile)
}

func (m *Machine) concStr(v Value, what string) string {
	s := m.force(v.(*Str))
	if !s.concrete() {
		m.unsupported("symbolic %s", what)
	}
	return s.s
}

func (m *Machine) pathArg(v Value) string {
	s := m.concStr(v, "file name")
	if s == "" {
		return s
	}
	return filepath.Clean(s)
}

func (m *Machine) initGlobalFile(name string) *Value {
	return m.mkFile(&vfile{name: name, data: &vdata{}, std: true, read: true, write: true})
}

func (m *Machine) ioEOF() Iface {
	g := m.P.pkgs["io"].Var("EOF")
	return (*m.global(m.P.globalIdx(g), g)).(Iface)
}

func (fs *VFS) exists(n string) bool {
	_, ok := fs.files[n]
	return ok || fs.dirs[n]
}

// open returns a file or an error number.
func (fs *VFS) open(n string, flag int) (*vfile, syscall.Errno) {
	acc := flag & (syscall.O_RDONLY | syscall.O_WRONLY | syscall.O_RDWR)
	f := &vfile{name: n, read: acc != syscall.O_WRONLY, write: acc != syscall.O_RDONLY, app: flag&syscall.O_APPEND != 0}
	if n == "/dev/full" {
		f.full, f.data = true, &vdata{}
		return f, 0
	}
	if n == "/dev/null" {
		f.data = &vdata{}
		return f, 0
	}
	if n == "" || !fs.dirs[filepath.Dir(n)] {
		if _, ok := fs.files[filepath.Dir(n)]; ok {
			return nil, syscall.ENOTDIR
		}
		return nil, syscall.ENOENT
	}
	if fs.dirs[n] {
		if f.write || flag&syscall.O_CREAT != 0 {
			return nil, syscall.EISDIR
		}
		f.dir, f.data = true, &vdata{}
		return f, 0
	}
	d, ok := fs.files[n]
	switch {
	case ok && flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0:
		return nil, syscall.EEXIST
	case !ok && flag&syscall.O_CREAT == 0:
		return nil, syscall.ENOENT
	case !ok:
		d = &vdata{}
		fs.files[n] = d
	case flag&syscall.O_TRUNC != 0 && f.write:
		d.b = nil
	}
	f.data = d
	return f, 0
}

func (m *Machine) openFile(n string, flag int) Value {
	f, e := m.fs.open(n, flag)
	if e != 0 {
		return Tuple{(*Value)(nil), m.pathErr("open", n, e)}
	}
	return Tuple{m.mkFile(f), nilErr()}
}

func (f *vfile) put(b []*Term, at int) {
	for len(f.data.b) < at {
		f.data.b = append(f.data.b, mkConst(8, 0))
	}
	// a new array: earlier reads keep what they got
	r := append([]*Term{}, f.data.b[:at]...)
	r = append(r, b...)
	if at+len(b) < len(f.data.b) {
		r = append(r, f.data.b[at+len(b):]...)
	}
	f.data.b = r
}

func (m *Machine) fileWrite(fr *Frame, v Value, b []*Term) Value {
	f := m.fileOf(fr, v)
	switch {
	case f.std:
		m.out["std"] = append(m.out["std"], termsStr(b))
		return Tuple{i64(len(b)), nilErr()}
	case f.closed:
		return Tuple{i64(0), m.closedErr("write", f.name)}
	case !f.write:
		return Tuple{i64(0), m.pathErr("write", f.name, syscall.EBADF)}
	case f.full && len(b) > 0:
		return Tuple{i64(0), m.pathErr("write", f.name, syscall.ENOSPC)}
	}
	if f.app {
		f.off = len(f.data.b)
	}
	f.put(b, f.off)
	f.off += len(b)
	return Tuple{i64(len(b)), nilErr()}
}

func (m *Machine) fileRead(fr *Frame, v Value, buf Slice) Value {
	f := m.fileOf(fr, v)
	switch {
	case f.closed:
		return Tuple{i64(0), m.closedErr("read", f.name)}
	case f.dir:
		return Tuple{i64(0), m.pathErr("read", f.name, syscall.EISDIR)}
	case !f.read:
		return Tuple{i64(0), m.pathErr("read", f.name, syscall.EBADF)}
	case len(buf) == 0:
		return Tuple{i64(0), nilErr()}
	}
	n := len(f.data.b) - f.off
	if n <= 0 {
		return Tuple{i64(0), m.ioEOF()}
	}
	if n > len(buf) {
		n = len(buf)
	}
	for i := 0; i < n; i++ {
		m.set(&buf[i], f.data.b[f.off+i])
	}
	f.off += n
	return Tuple{i64(n), nilErr()}
}

// fileInfo is a fs.FileInfo.
func (m *Machine) fileInfo(n string, size int, dir bool) Iface {
	t := m.P.pkgs["os"].Type("fileStat").Type()
	st := zero(t).(Struct)
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "name":
			st[i] = cstr(filepath.Base(n))
		case "size":
			st[i] = i64(size)
		case "mode":
			st[i] = mkConst(32, 0o660)
			if dir {
				st[i] = mkConst(32, 1<<31|0o770)
			}
		}
	}
	p := new(Value)
	*p = st
	return Iface{t: m.P.canon(types.NewPointer(t)), v: p}
}

func (m *Machine) stat(op, n string) Value {
	if m.fs.dirs[n] {
		return Tuple{m.fileInfo(n, 4096, true), nilErr()}
	}
	if d, ok := m.fs.files[n]; ok {
		return Tuple{m.fileInfo(n, len(d.b), false), nilErr()}
	}
	return Tuple{Iface{}, m.pathErr(op, n, syscall.ENOENT)}
}

func (m *Machine) mkdirAll(n string) Value {
	var todo []string
	for p := n; !m.fs.dirs[p]; p = filepath.Dir(p) {
		if _, ok := m.fs.files[p]; ok {
			return m.pathErr("mkdir", p, syscall.ENOTDIR)
		}
		todo = append(todo, p)
	}
	for _, p := range todo {
		m.fs.dirs[p] = true
	}
	return nilErr()
}

func (m *Machine) terms(v Slice, d []*Term) Slice {
	v = make(Slice, len(d))
	for i, t := range d {
		v[i] = t
	}
	return v
}

func (m *Machine) intArg(v Value) int { return int(int64(m.concretize(v.(*Term)))) }

var osIntrinsics = map[string]intrinsic{
	"os.ReadFile": func(m *Machine, fr *Frame, a []Value) Value {
		n := m.pathArg(a[0])
		f, e := m.fs.open(n, syscall.O_RDONLY)
		if e != 0 {
			return Tuple{Slice(nil), m.pathErr("open", n, e)}
		}
		if f.dir {
			return Tuple{Slice(nil), m.pathErr("read", n, syscall.EISDIR)}
		}
		return Tuple{m.terms(nil, f.data.b), nilErr()}
	},
	"os.WriteFile": func(m *Machine, fr *Frame, a []Value) Value {
		n := m.pathArg(a[0])
		f, e := m.fs.open(n, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC)
		if e != 0 {
			return m.pathErr("open", n, e)
		}
		return m.fileWrite(fr, m.mkFile(f), bytesOf(m, a[1])).(Tuple)[1]
	},
	"os.Open": func(m *Machine, fr *Frame, a []Value) Value {
		return m.openFile(m.pathArg(a[0]), syscall.O_RDONLY)
	},
	"os.Create": func(m *Machine, fr *Frame, a []Value) Value {
		return m.openFile(m.pathArg(a[0]), syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC)
	},
	"os.OpenFile": func(m *Machine, fr *Frame, a []Value) Value {
		return m.openFile(m.pathArg(a[0]), m.intArg(a[1]))
	},
	"os.CreateTemp": func(m *Machine, fr *Frame, a []Value) Value {
		dir, pat := m.concStr(a[0], "dir"), m.concStr(a[1], "pattern")
		if dir == "" {
			dir = "/tmp"
		}
		m.fs.temp++
		x := strings.Repeat("9", m.fs.temp)
		if i := strings.LastIndex(pat, "*"); i >= 0 {
			pat = pat[:i] + x + pat[i+1:]
		} else {
			pat += x
		}
		return m.openFile(filepath.Join(dir, pat), syscall.O_RDWR|syscall.O_CREAT|syscall.O_EXCL)
	},
	"os.Mkdir": func(m *Machine, fr *Frame, a []Value) Value {
		n := m.pathArg(a[0])
		if m.fs.exists(n) {
			return m.pathErr("mkdir", n, syscall.EEXIST)
		}
		if !m.fs.dirs[filepath.Dir(n)] {
			return m.pathErr("mkdir", n, syscall.ENOENT)
		}
		m.fs.dirs[n] = true
		return nilErr()
	},
	"os.MkdirAll": func(m *Machine, fr *Frame, a []Value) Value { return m.mkdirAll(m.pathArg(a[0])) },
	"os.Stat":     func(m *Machine, fr *Frame, a []Value) Value { return m.stat("stat", m.pathArg(a[0])) },
	"os.Lstat":    func(m *Machine, fr *Frame, a []Value) Value { return m.stat("lstat", m.pathArg(a[0])) },
	"os.Chmod": func(m *Machine, fr *Frame, a []Value) Value {
		if n := m.pathArg(a[0]); !m.fs.exists(n) {
			return m.pathErr("chmod", n, syscall.ENOENT)
		}
		return nilErr()
	},
	"os.Remove": func(m *Machine, fr *Frame, a []Value) Value {
		n := m.pathArg(a[0])
		if !m.fs.exists(n) {
			return m.pathErr("remove", n, syscall.ENOENT)
		}
		if m.fs.dirs[n] {
			for p := range m.fs.files {
				if filepath.Dir(p) == n {
					return m.pathErr("remove", n, syscall.ENOTEMPTY)
				}
			}
		}
		delete(m.fs.files, n)
		delete(m.fs.dirs, n)
		return nilErr()
	},
	"os.RemoveAll": func(m *Machine, fr *Frame, a []Value) Value {
		n := m.pathArg(a[0])
		for p := range m.fs.files {
			if p == n || strings.HasPrefix(p, n+"/") {
				delete(m.fs.files, p)
			}
		}
		for p := range m.fs.dirs {
			if p == n || strings.HasPrefix(p, n+"/") {
				delete(m.fs.dirs, p)
			}
		}
		return nilErr()
	},
	"os.Truncate": func(m *Machine, fr *Frame, a []Value) Value {
		n := m.pathArg(a[0])
		d, ok := m.fs.files[n]
		if !ok {
			return m.pathErr("truncate", n, syscall.ENOENT)
		}
		(&vfile{data: d}).truncate(m.intArg(a[1]))
		return nilErr()
	},
	"os.Rename": func(m *Machine, fr *Frame, a []Value) Value {
		o, n := m.pathArg(a[0]), m.pathArg(a[1])
		d, ok := m.fs.files[o]
		if !ok || !m.fs.dirs[filepath.Dir(n)] {
			return m.pathErr("rename", o, syscall.ENOENT)
		}
		if m.fs.dirs[n] {
			return m.pathErr("rename", o, syscall.EISDIR)
		}
		delete(m.fs.files, o)
		m.fs.files[n] = d
		return nilErr()
	},
	"os.ReadDir": func(m *Machine, fr *Frame, a []Value) Value {
		m.unsupported("os.ReadDir")
		return nil
	},
	"os.Exit":   func(m *Machine, fr *Frame, a []Value) Value { panic(pathEnd{"exit", "os.Exit"}) },
	"os.Getenv": func(m *Machine, fr *Frame, a []Value) Value { return emptyStr },
	"os.LookupEnv": func(m *Machine, fr *Frame, a []Value) Value {
		return Tuple{emptyStr, tFalse}
	},
	"os.TempDir": func(m *Machine, fr *Frame, a []Value) Value { return cstr("/tmp") },
	"(syscall.Errno).Error": func(m *Machine, fr *Frame, a []Value) Value {
		t := a[0].(*Term)
		if !t.isConst() {
			m.unsupported("text of a symbolic errno")
		}
		return cstr(syscall.Errno(t.c).Error())
	},
	"os.Getpid": func(m *Machine, fr *Frame, a []Value) Value { return i64(4321) },
	"(*os.File).Close": func(m *Machine, fr *Frame, a []Value) Value {
		f := m.fileOf(fr, a[0])
		if f.closed {
			return m.closedErr("close", f.name)
		}
		f.closed = !f.std
		return nilErr()
	},
	"(*os.File).Sync":  func(m *Machine, fr *Frame, a []Value) Value { return nilErr() },
	"(*os.File).Chmod": func(m *Machine, fr *Frame, a []Value) Value { return nilErr() },
	"(*os.File).Name":  func(m *Machine, fr *Frame, a []Value) Value { return cstr(m.fileOf(fr, a[0]).name) },
	"(*os.File).Stat": func(m *Machine, fr *Frame, a []Value) Value {
		f := m.fileOf(fr, a[0])
		return Tuple{m.fileInfo(f.name, len(f.data.b), f.dir), nilErr()}
	},
	"(*os.File).Truncate": func(m *Machine, fr *Frame, a []Value) Value {
		m.fileOf(fr, a[0]).truncate(m.intArg(a[1]))
		return nilErr()
	},
	"(*os.File).Seek": func(m *Machine, fr *Frame, a []Value) Value {
		f := m.fileOf(fr, a[0])
		n := m.intArg(a[1])
		switch m.intArg(a[2]) {
		case 1:
			n += f.off
		case 2:
			n += len(f.data.b)
		}
		if n < 0 {
			return Tuple{i64(0), m.pathErr("seek", f.name, syscall.EINVAL)}
		}
		f.off = n
		return Tuple{i64(n), nilErr()}
	},
	"(*os.File).Read": func(m *Machine, fr *Frame, a []Value) Value { return m.fileRead(fr, a[0], a[1].(Slice)) },
	"(*os.File).ReadAt": func(m *Machine, fr *Frame, a []Value) Value {
		f := m.fileOf(fr, a[0])
		off := f.off
		f.off = m.intArg(a[2])
		r := m.fileRead(fr, a[0], a[1].(Slice)).(Tuple)
		f.off = off
		if n := int(r[0].(*Term).c); n < len(a[1].(Slice)) && r[1].(Iface).t == nil {
			r[1] = m.ioEOF()
		}
		return r
	},
	"(*os.File).Write": func(m *Machine, fr *Frame, a []Value) Value { return m.fileWrite(fr, a[0], bytesOf(m, a[1])) },
	"(*os.File).WriteString": func(m *Machine, fr *Frame, a []Value) Value {
		return m.fileWrite(fr, a[0], bytesOf(m, a[1]))
	},
	"(*os.File).WriteAt": func(m *Machine, fr *Frame, a []Value) Value {
		f := m.fileOf(fr, a[0])
		off := f.off
		f.off = m.intArg(a[2])
		r := m.fileWrite(fr, a[0], bytesOf(m, a[1]))
		f.off = off
		return r
	},
	"(*os.File).ReadFrom": func(m *Machine, fr *Frame, a []Value) Value {
		total := 0
		for {
			buf := m.makeSlice(types.Typ[types.Uint8], 512, 512)
			r := m.callMethod(fr, a[1].(Iface), "Read", buf).(Tuple)
			n := m.intArg(r[0])
			if n > 0 {
				w := m.fileWrite(fr, a[0], bytesOf(m, buf[:n])).(Tuple)
				total += int(w[0].(*Term).c)
				if w[1].(Iface).t != nil {
					return Tuple{i64(total), w[1]}
				}
			}
			if e := r[1].(Iface); e.t != nil {
				if m.branch(m.equal(fr, e, m.ioEOF())) {
					return Tuple{i64(total), nilErr()}
				}
				return Tuple{i64(total), e}
			}
		}
	},
	"(*os.File).WriteTo": func(m *Machine, fr *Frame, a []Value) Value {
		f := m.fileOf(fr, a[0])
		if f.closed || f.dir || !f.read || f.off >= len(f.data.b) {
			return Tuple{i64(0), nilErr()}
		}
		b := m.terms(nil, f.data.b[f.off:])
		f.off = len(f.data.b)
		return m.callMethod(fr, a[1].(Iface), "Write", b)
	},
}

func (f *vfile) truncate(n int) {
	if n <= len(f.data.b) {
		f.data.b = append([]*Term{}, f.data.b[:n]...)
	} else {
		f.put(nil, n)
	}
}
