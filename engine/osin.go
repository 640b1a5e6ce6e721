package main

import (
	"fmt"
	"go/types"
	"path"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// vfs is the per-path virtual file system standing in for package os.
type vfs struct {
	files    map[string]*vfile
	dirs     map[string]bool
	limit    int // writes beyond this offset fail with EFBIG (as RLIMIT_FSIZE does); -1: none
	stdin    *Str
	stdinPos int
	stdout   *Str
	stderr   *Str
	tmp      int
}

type vfile struct {
	data *Str
	mode uint64
}

type vhandle struct {
	std    int // 1 stdin 2 stdout 3 stderr
	name   string
	f      *vfile
	pos    int
	write  bool
	read   bool
	app    bool
	closed bool
}

func (v *vfs) clone() *vfs {
	c := *v
	c.files, c.dirs = map[string]*vfile{}, map[string]bool{}
	for k, f := range v.files {
		g := *f
		c.files[k] = &g
	}
	for k := range v.dirs {
		c.dirs[k] = true
	}
	return &c
}

func newVFS() *vfs {
	return &vfs{files: map[string]*vfile{}, dirs: map[string]bool{"/": true, ".": true, "/vfs": true, "/tmp": true}, limit: -1, stdin: emptyStr, stdout: emptyStr, stderr: emptyStr}
}

const (
	eNOENT  = 2
	eEXIST  = 17
	eNOTDIR = 20
	eISDIR  = 21
	eFBIG   = 27
	eBADF   = 9
	eINVAL  = 22
)

var errnoText = map[uint64]string{eNOENT: "no such file or directory", eEXIST: "file exists", eNOTDIR: "not a directory", eISDIR: "is a directory", eFBIG: "file too large", eBADF: "bad file descriptor", eINVAL: "invalid argument"}

func (w *W) pathErr(op, name string, errno uint64) Value {
	p := new(Value)
	*p = StructV{cstr(op), cstr(name), Iface{w.sh.namedType("syscall", "Errno"), w.tb.konst(sBV64, errno)}}
	return Iface{w.sh.ptrTo("io/fs", "PathError"), p}
}

func clean(name string) string {
	if name == "" {
		return ""
	}
	return path.Clean(name)
}

func (v *vfs) parentOK(name string) uint64 {
	d := path.Dir(name)
	if v.dirs[d] {
		return 0
	}
	if _, ok := v.files[d]; ok {
		return eNOTDIR
	}
	return eNOENT
}

func (v *vfs) lookup(name string) (*vfile, uint64) {
	if name == "" {
		return nil, eNOENT
	}
	if strings.HasSuffix(name, "/") {
		if _, ok := v.files[clean(name)]; ok {
			return nil, eNOTDIR
		}
	}
	name = clean(name)
	if f, ok := v.files[name]; ok {
		return f, 0
	}
	if v.dirs[name] {
		return nil, eISDIR
	}
	if e := v.parentOK(name); e != 0 {
		return nil, e
	}
	return nil, eNOENT
}

func (w *W) readFile(name string) (Value, Value) {
	f, e := w.vfs.lookup(name)
	if e == eISDIR {
		return []Value(nil), w.pathErr("read", name, e)
	}
	if e != 0 {
		return []Value(nil), w.pathErr("open", name, e)
	}
	b := w.strToBytes(f.data)
	if b == nil {
		b = []Value{}
	}
	return b, Iface{}
}

func (w *W) writeAt(f *vfile, pos int, s *Str) (int, uint64) {
	n := w.slen(s)
	var e uint64
	if l := w.vfs.limit; l >= 0 && pos+n > l {
		n = max(0, l-pos)
		e = eFBIG
	}
	old := f.data
	pre := old
	if w.slen(old) > pos {
		pre = w.ssub(old, 0, pos)
	}
	for w.slen(pre) < pos {
		pre = w.sconcat(pre, cstr("\x00"))
	}
	out := w.sconcat(pre, w.ssub(s, 0, n))
	if w.slen(old) > pos+n {
		out = w.sconcat(out, w.ssub(old, pos+n, w.slen(old)))
	}
	f.data = out
	return n, e
}

func (w *W) openFile(name string, flag int64, mode uint64) (Value, Value) {
	nilf := (*Value)(nil)
	const wr, rw, creat, excl, trunc, app = 1, 2, 0x40, 0x80, 0x200, 0x400
	f, e := w.vfs.lookup(name)
	if e == eISDIR {
		return nilf, w.pathErr("open", name, e)
	}
	if e == 0 && flag&creat != 0 && flag&excl != 0 {
		return nilf, w.pathErr("open", name, eEXIST)
	}
	if e != 0 {
		if flag&creat == 0 || name == "" || w.vfs.parentOK(clean(name)) != 0 {
			return nilf, w.pathErr("open", name, e)
		}
		f = &vfile{emptyStr, mode}
		w.vfs.files[clean(name)] = f
	}
	if flag&trunc != 0 {
		f.data = emptyStr
	}
	h := &vhandle{name: name, f: f, write: flag&(wr|rw) != 0, read: flag&wr == 0, app: flag&app != 0}
	p := new(Value)
	*p = h
	return p, Iface{}
}

func (w *W) stdoutWrite(s *Str) Value {
	w.vfs.stdout = w.sconcat(w.vfs.stdout, s)
	return Tuple{w.intV(w.slen(s)), Iface{}}
}

func (w *W) handle(v Value) *vhandle {
	h, ok := (*w.ptr(v)).(*vhandle)
	if !ok {
		w.unsupported("os.File not opened through the model")
	}
	return h
}

func (w *W) hwrite(h *vhandle, s *Str) Value {
	switch h.std {
	case 2:
		return w.stdoutWrite(s)
	case 3:
		w.vfs.stderr = w.sconcat(w.vfs.stderr, s)
		return Tuple{w.intV(w.slen(s)), Iface{}}
	}
	if h.closed || !h.write {
		return Tuple{w.intV(0), w.pathErr("write", h.name, eBADF)}
	}
	if h.app {
		h.pos = w.slen(h.f.data)
	}
	n, e := w.writeAt(h.f, h.pos, s)
	h.pos += n
	if e != 0 {
		return Tuple{w.intV(n), w.pathErr("write", h.name, e)}
	}
	return Tuple{w.intV(n), Iface{}}
}

func (w *W) fileInfo(name string, f *vfile, dir bool) Value {
	o := &nativeObj{call: func(w *W, m string, a []Value) Value {
		switch m {
		case "Name":
			return cstr(path.Base(name))
		case "Size":
			if dir {
				return w.tb.int64T(4096)
			}
			return w.tb.int64T(int64(w.slen(f.data)))
		case "Mode":
			if dir {
				return w.tb.bvT(32, 1<<31|0755)
			}
			return w.tb.bvT(32, f.mode)
		case "IsDir":
			return w.boolV(dir)
		}
		w.unsupported("FileInfo." + m)
		return nil
	}}
	return Iface{w.sh.ptrTo("os", "fileStat"), o}
}

func osIntrinsics(T map[string]intrinsic) {
	gs := func(w *W, v Value) string { return w.goStr(v) }
	T["os.ReadFile"] = always(func(w *W, a []Value) Value { b, e := w.readFile(gs(w, a[0])); return Tuple{b, e} })
	T["os.WriteFile"] = always(func(w *W, a []Value) Value {
		name := gs(w, a[0])
		h, e := w.openFile(name, 1|0x40|0x200, w.concretize(a[2].(*Term)))
		if e.(Iface).t != nil {
			return e
		}
		b, _ := a[1].([]Value)
		r := w.hwrite(w.handle(h), w.bytesToStr(b)).(Tuple)
		return r[1]
	})
	T["os.Open"] = always(func(w *W, a []Value) Value {
		n := gs(w, a[0])
		if w.vfs.dirs[clean(n)] {
			p := new(Value)
			*p = &vhandle{name: n}
			return Tuple{p, Iface{}}
		}
		f, e := w.openFile(n, 0, 0)
		return Tuple{f, e}
	})
	T["os.Create"] = always(func(w *W, a []Value) Value { f, e := w.openFile(gs(w, a[0]), 2|0x40|0x200, 0644); return Tuple{f, e} })
	T["os.OpenFile"] = always(func(w *W, a []Value) Value {
		f, e := w.openFile(gs(w, a[0]), int64(w.concretize(a[1].(*Term))), w.concretize(a[2].(*Term)))
		return Tuple{f, e}
	})
	T["os.CreateTemp"] = always(func(w *W, a []Value) Value {
		dir, pat := gs(w, a[0]), gs(w, a[1])
		if dir == "" {
			dir = "/tmp"
		}
		w.vfs.tmp++
		r := fmt.Sprintf("%d", 1000+w.vfs.tmp)
		if i := strings.LastIndex(pat, "*"); i >= 0 {
			pat = pat[:i] + r + pat[i+1:]
		} else {
			pat += r
		}
		f, e := w.openFile(path.Join(dir, pat), 2|0x40|0x80, 0600)
		return Tuple{f, e}
	})
	T["os.MkdirTemp"] = always(func(w *W, a []Value) Value {
		w.vfs.tmp++
		d := path.Join("/tmp", fmt.Sprintf("d%d", w.vfs.tmp))
		w.vfs.dirs[d] = true
		return Tuple{cstr(d), Iface{}}
	})
	mkdir := always(func(w *W, a []Value) Value {
		d := clean(gs(w, a[0]))
		for x := d; x != "/" && x != "."; x = path.Dir(x) {
			if _, ok := w.vfs.files[x]; ok {
				return w.pathErr("mkdir", d, eNOTDIR)
			}
			w.vfs.dirs[x] = true
		}
		return Iface{}
	})
	T["os.MkdirAll"], T["os.Mkdir"] = mkdir, mkdir
	T["os.Remove"] = always(func(w *W, a []Value) Value {
		n := gs(w, a[0])
		if _, e := w.vfs.lookup(n); e != 0 && e != eISDIR {
			return w.pathErr("remove", n, e)
		}
		delete(w.vfs.files, clean(n))
		delete(w.vfs.dirs, clean(n))
		return Iface{}
	})
	T["os.RemoveAll"] = always(func(w *W, a []Value) Value {
		n := clean(gs(w, a[0]))
		for k := range w.vfs.files {
			if k == n || strings.HasPrefix(k, n+"/") {
				delete(w.vfs.files, k)
			}
		}
		delete(w.vfs.dirs, n)
		return Iface{}
	})
	T["os.Rename"] = always(func(w *W, a []Value) Value {
		o, n := gs(w, a[0]), gs(w, a[1])
		f, e := w.vfs.lookup(o)
		if e == 0 && w.vfs.dirs[clean(n)] {
			e = eEXIST
		}
		if e == 0 {
			e = w.vfs.parentOK(clean(n))
		}
		if e != 0 {
			p := new(Value)
			*p = StructV{cstr("rename"), cstr(o), cstr(n), Iface{w.sh.namedType("syscall", "Errno"), w.tb.konst(sBV64, e)}}
			return Iface{w.sh.ptrTo("os", "LinkError"), p}
		}
		delete(w.vfs.files, clean(o))
		w.vfs.files[clean(n)] = f
		return Iface{}
	})
	st := func(op string) intrinsic {
		return always(func(w *W, a []Value) Value {
			n := gs(w, a[0])
			f, e := w.vfs.lookup(n)
			if e != 0 && e != eISDIR {
				return Tuple{Iface{}, w.pathErr(op, n, e)}
			}
			return Tuple{w.fileInfo(n, f, e == eISDIR), Iface{}}
		})
	}
	T["os.Stat"], T["os.Lstat"] = st("stat"), st("lstat")
	T["os.Chmod"] = always(func(w *W, a []Value) Value {
		n := gs(w, a[0])
		f, e := w.vfs.lookup(n)
		if e != 0 {
			return w.pathErr("chmod", n, e)
		}
		f.mode = w.concretize(a[1].(*Term))
		return Iface{}
	})
	T["os.Chtimes"] = always(func(w *W, a []Value) Value { return Iface{} })
	T["os.Truncate"] = always(func(w *W, a []Value) Value {
		n := gs(w, a[0])
		f, e := w.vfs.lookup(n)
		if e != 0 {
			return w.pathErr("truncate", n, e)
		}
		k := int(w.concretize(a[1].(*Term)))
		if k < w.slen(f.data) {
			f.data = w.ssub(f.data, 0, k)
		}
		return Iface{}
	})
	T["os.Getenv"] = always(func(w *W, a []Value) Value { return emptyStr })
	T["os.LookupEnv"] = always(func(w *W, a []Value) Value { return Tuple{emptyStr, w.tb.ff} })
	T["os.Getwd"] = always(func(w *W, a []Value) Value { return Tuple{cstr("/vfs"), Iface{}} })
	T["os.Getpid"] = always(func(w *W, a []Value) Value { return w.intV(4242) })
	T["os.IsNotExist"] = always(func(w *W, a []Value) Value { return w.boolV(w.hasErrno(a[0].(Iface), eNOENT)) })
	T["os.IsExist"] = always(func(w *W, a []Value) Value { return w.boolV(w.hasErrno(a[0].(Iface), eEXIST)) })
	T["os.Exit"] = always(func(w *W, a []Value) Value {
		if c := int64(w.concretize(a[0].(*Term))); w.exitExpected && c == w.exitCode {
			o := w.vfs.stdout
			for _, t := range w.exitTexts {
				i := w.strIndexV(o, t.(*Str))
				if w.branch(w.tb.bin(opSLt, i, w.tb.int64T(0))) {
					w.assert(w.tb.ff, "standard output at exit lacks a text")
				}
				o = w.ssub(o, int(int64(w.concretize(i)))+w.slen(t.(*Str)), w.slen(o))
			}
			panic(pathStop{"ok", ""})
		}
		panic(targetPanic{Iface{types.Typ[types.String], cstr(fmt.Sprintf("os.Exit(%d)", int64(w.concretize(a[0].(*Term)))))}, ""})
	})
	T["(syscall.Errno).Error"] = always(func(w *W, a []Value) Value {
		if s, ok := errnoText[a[0].(*Term).val]; ok {
			return cstr(s)
		}
		return cstr("errno")
	})
	T["(syscall.Errno).Is"] = always(func(w *W, a []Value) Value {
		text := ""
		if t, ok := a[1].(Iface); ok && t.t != nil && typeName(t.t) == "*errors.errorString" {
			if st, ok := (*w.ptr(t.v)).(StructV); ok {
				text = w.goStr(st[0])
			}
		}
		switch a[0].(*Term).val {
		case eNOENT:
			return w.boolV(text == "file does not exist")
		case eEXIST:
			return w.boolV(text == "file already exists")
		}
		return w.boolV(false)
	})
	T["path/filepath.EvalSymlinks"] = always(func(w *W, a []Value) Value {
		n := gs(w, a[0])
		if _, e := w.vfs.lookup(n); e != 0 && e != eISDIR {
			return Tuple{emptyStr, w.pathErr("lstat", n, e)}
		}
		return Tuple{cstr(clean(n)), Iface{}}
	})
	T["path/filepath.Abs"] = always(func(w *W, a []Value) Value {
		n := gs(w, a[0])
		if !strings.HasPrefix(n, "/") {
			n = path.Join("/vfs", n)
		}
		return Tuple{cstr(clean(n)), Iface{}}
	})
	T["path/filepath.Glob"] = always(func(w *W, a []Value) Value {
		pat := gs(w, a[0])
		var out []string
		for k := range w.vfs.files {
			if ok, _ := path.Match(pat, k); ok {
				out = append(out, k)
			}
		}
		sort.Strings(out)
		return Tuple{w.strsV(out), Iface{}}
	})
	fm := func(name string, f func(w *W, h *vhandle, a []Value) Value) {
		T["(*os.File)."+name] = always(func(w *W, a []Value) Value { return f(w, w.handle(a[0]), a[1:]) })
	}
	fm("Write", func(w *W, h *vhandle, a []Value) Value { b, _ := a[0].([]Value); return w.hwrite(h, w.bytesToStr(b)) })
	fm("WriteString", func(w *W, h *vhandle, a []Value) Value { return w.hwrite(h, a[0].(*Str)) })
	fm("Name", func(w *W, h *vhandle, a []Value) Value { return cstr(h.name) })
	fm("Sync", func(w *W, h *vhandle, a []Value) Value { return Iface{} })
	fm("Fd", func(w *W, h *vhandle, a []Value) Value { return w.tb.konst(sBV64, uint64(h.std)) })
	fm("Chmod", func(w *W, h *vhandle, a []Value) Value {
		if h.f != nil {
			h.f.mode = w.concretize(a[0].(*Term))
		}
		return Iface{}
	})
	fm("Close", func(w *W, h *vhandle, a []Value) Value {
		if h.closed {
			return w.pathErr("close", h.name, eBADF)
		}
		if h.std == 0 {
			h.closed = true
		}
		return Iface{}
	})
	fm("Truncate", func(w *W, h *vhandle, a []Value) Value {
		k := int(w.concretize(a[0].(*Term)))
		if h.f != nil && k < w.slen(h.f.data) {
			h.f.data = w.ssub(h.f.data, 0, k)
		}
		return Iface{}
	})
	fm("Seek", func(w *W, h *vhandle, a []Value) Value {
		off, wh := int64(w.concretize(a[0].(*Term))), w.concretize(a[1].(*Term))
		switch wh {
		case 0:
			h.pos = int(off)
		case 1:
			h.pos += int(off)
		case 2:
			h.pos = w.slen(h.f.data) + int(off)
		}
		return Tuple{w.tb.int64T(int64(h.pos)), Iface{}}
	})
	fm("Stat", func(w *W, h *vhandle, a []Value) Value {
		if h.f == nil {
			return Tuple{w.fileInfo(h.name, nil, true), Iface{}}
		}
		return Tuple{w.fileInfo(h.name, h.f, false), Iface{}}
	})
	fm("Read", func(w *W, h *vhandle, a []Value) Value {
		b, _ := a[0].([]Value)
		eof := Iface{}
		if g := w.sh.globalByName("io", "EOF"); g != nil {
			eof, _ = (*w.global(g)).(Iface)
		}
		src, pos := w.vfs.stdin, &w.vfs.stdinPos
		if h.std == 0 {
			if h.f == nil {
				return Tuple{w.intV(0), w.pathErr("read", h.name, eISDIR)}
			}
			src, pos = h.f.data, &h.pos
		}
		n := min(len(b), w.slen(src)-*pos)
		if n <= 0 {
			if len(b) == 0 {
				return Tuple{w.intV(0), Iface{}}
			}
			return Tuple{w.intV(0), eof}
		}
		for i := 0; i < n; i++ {
			w.store1(&b[i], w.sat(src, *pos+i))
		}
		*pos += n
		return Tuple{w.intV(n), Iface{}}
	})
}

func (w *W) hasErrno(e Iface, n uint64) bool {
	if e.t == nil {
		return false
	}
	if t, ok := e.v.(*Term); ok && e.t.String() == "syscall.Errno" {
		return t.val == n
	}
	for _, u := range w.unwrapAll(e) {
		if w.hasErrno(u, n) {
			return true
		}
	}
	return false
}

// ---- the verification API

const zvPath = modPath + "/zzverif/zv"
const jmPath = modPath + "/zzverif/jsonm"

func (w *W) label(v Value) string {
	s := v.(*Str).s
	n := w.p.names[s]
	w.p.names[s] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

// alphabet restricts a byte to a set of characters.
func (w *W) alphabet(name string, set string) (*Term, *Term) {
	tb := w.tb
	switch set {
	case "\x00any":
		return tb.mkVar(name, sBV8, -128, 127, false), nil
	case "\x00ascii":
		return tb.mkVar(name, sBV8, 0, 127, true), nil
	}
	bs := []byte(set)
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	if len(bs) == 0 {
		w.unsupported("empty alphabet")
	}
	for _, b := range bs {
		if b >= 128 {
			w.unsupported("non-ASCII alphabet")
		}
	}
	v := tb.mkVar(name, sBV8, int64(bs[0]), int64(bs[len(bs)-1]), true)
	c := tb.ff
	for i := 0; i < len(bs); {
		j := i
		for j+1 < len(bs) && bs[j+1] <= bs[j]+1 {
			j++
		}
		c = tb.or(c, tb.and(tb.bin(opULe, tb.byteT(bs[i]), v), tb.bin(opULe, v, tb.byteT(bs[j]))))
		i = j + 1
	}
	return v, c
}

func (w *W) symStr(name string, n int, set string) *Str {
	b := make([]*Term, n)
	for i := range b {
		lab := fmt.Sprintf("%s[%d]", name, i)
		t, c := w.alphabet(lab, set)
		b[i] = t
		w.p.inputs = append(w.p.inputs, input{"byte", lab, t, 0})
		if c != nil {
			w.assume(c)
		}
	}
	if n == 0 {
		return emptyStr
	}
	return &Str{b: b}
}

// strIndexV is strings.Index on the real code.
func (w *W) strIndexV(s, t *Str) *Term {
	return w.call(w.sh.funcByName("strings", "Index"), []Value{s, t}).(*Term)
}

func zvIntrinsics(T map[string]intrinsic) {
	z := func(name string, f func(w *W, a []Value) Value) { T[zvPath+"."+name] = always(f) }
	z("Int", func(w *W, a []Value) Value {
		l := w.label(a[0])
		t := w.tb.mkVar(l, sBV64, -1<<63, 1<<63-1, false)
		w.p.inputs = append(w.p.inputs, input{"int", l, t, 0})
		return t
	})
	z("IntRange", func(w *W, a []Value) Value {
		l := w.label(a[0])
		lo, hi := int64(a[1].(*Term).val), int64(w.concretize(a[2].(*Term)))
		if lo == hi {
			w.p.inputs = append(w.p.inputs, input{"int", l, nil, lo})
			return w.tb.int64T(lo)
		}
		t := w.tb.mkVar(l, sBV64, lo, hi, true)
		w.p.inputs = append(w.p.inputs, input{"int", l, t, 0})
		return t
	})
	z("Byte", func(w *W, a []Value) Value {
		l := w.label(a[0])
		t := w.tb.mkVar(l, sBV8, -128, 127, false)
		w.p.inputs = append(w.p.inputs, input{"byte", l, t, 0})
		return t
	})
	z("Bool", func(w *W, a []Value) Value {
		l := w.label(a[0])
		t := w.tb.mkVar(l, sBool, 0, 0, false)
		w.p.inputs = append(w.p.inputs, input{"bool", l, t, 0})
		return t
	})
	z("Float", func(w *W, a []Value) Value {
		l := w.label(a[0])
		t := w.tb.mkVar(l, sBV64, -1<<63, 1<<63-1, false)
		w.p.inputs = append(w.p.inputs, input{"float", l, t, 0})
		return w.fromBits(t)
	})
	z("Choose", func(w *W, a []Value) Value {
		l := w.label(a[0])
		k := w.choose(int(w.concretize(a[1].(*Term))))
		w.p.inputs = append(w.p.inputs, input{"choose", l, nil, int64(k)})
		return w.intV(k)
	})
	z("Concrete", func(w *W, a []Value) Value { return w.tb.konst(sBV64, w.concretize(a[0].(*Term))) })
	z("ConcreteStr", func(w *W, a []Value) Value { return cstr(w.goStr(a[0])) })
	z("Str", func(w *W, a []Value) Value {
		l := w.label(a[0])
		n := w.choose(int(w.concretize(a[1].(*Term))) + 1)
		w.p.inputs = append(w.p.inputs, input{"choose", l + ".len", nil, int64(n)})
		return w.symStr(l, n, w.goStr(a[2]))
	})
	z("StrN", func(w *W, a []Value) Value {
		l := w.label(a[0])
		return w.symStr(l, int(w.concretize(a[1].(*Term))), w.goStr(a[2]))
	})
	z("Assume", func(w *W, a []Value) Value { w.assume(a[0].(*Term)); return nil })
	z("Assert", func(w *W, a []Value) Value { w.assert(a[0].(*Term), w.msgStr(a[1])); return nil })
	z("Fail", func(w *W, a []Value) Value { w.assert(w.tb.ff, w.msgStr(a[0])); return nil })
	z("Cover", func(w *W, a []Value) Value { w.p.covers[w.msgStr(a[0])] = true; return nil })
	z("ExpectExit", func(w *W, a []Value) Value {
		w.exitExpected, w.exitCode = true, int64(w.concretize(a[0].(*Term)))
		w.exitTexts, _ = a[1].([]Value)
		w.vfs.stdout = emptyStr
		return nil
	})
	z("Known", func(w *W, a []Value) Value {
		id := w.msgStr(a[0])
		vals, labels := w.inputs(w.tb.model)
		w.ex.mu.Lock()
		if w.ex.known[id] == nil {
			w.ex.known[id] = &KnownHit{id, vals, labels}
		}
		w.ex.mu.Unlock()
		return nil
	})
	z("Tier", func(w *W, a []Value) Value { return w.intV(w.sh.tier) })
	z("MapOrder", func(w *W, a []Value) Value { w.mapMode = int(w.concretize(a[0].(*Term))); return nil })
	z("Scale", func(w *W, a []Value) Value { return a[0] })
	z("MapOrders", func(w *W, a []Value) Value { return w.intV(5) })
	z("TempDir", func(w *W, a []Value) Value { return cstr("/vfs") })
	z("FailWritesAfter", func(w *W, a []Value) Value { w.vfs.limit = int(int64(w.concretize(a[0].(*Term)))); return nil })
	z("SetStdin", func(w *W, a []Value) Value { w.vfs.stdin, w.vfs.stdinPos = a[0].(*Str), 0; return nil })
	z("TakeStdout", func(w *W, a []Value) Value { s := w.vfs.stdout; w.vfs.stdout = emptyStr; return s })
	z("ListDir", func(w *W, a []Value) Value {
		d := clean(w.goStr(a[0]))
		var out []string
		for k := range w.vfs.files {
			if path.Dir(k) == d {
				out = append(out, path.Base(k))
			}
		}
		sort.Strings(out)
		return w.strsV(out)
	})
	T[zvPath+".Catch"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		depth, cur := w.depth, w.cur
		nd := len(w.deferOwner)
		var msg *Str = emptyStr
		bad := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					w.depth, w.cur = depth, cur
					w.deferOwner = w.deferOwner[:nd]
					bad = true
					msg = cstr(w.panicText(tp.v))
				}
			}()
			w.call(a[0], nil)
		}()
		return Tuple{msg, w.boolV(bad)}, true
	}
	// Fork runs a function and takes all its effects back, keeping only the strings and integers it returns.
	T[zvPath+".Fork"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		if !w.logging || w.spec > 0 {
			w.unsupported("Fork here")
		}
		mark, v := len(w.undo), w.vfs
		w.vfs = v.clone()
		r := w.call(a[0], nil).(Tuple)
		var out Tuple
		for _, s := range r {
			el, _ := s.([]Value)
			out = append(out, append([]Value{}, el...))
		}
		w.rollbackTo(mark)
		w.vfs = v
		return out, true
	}
	z("ExactFmt", func(w *W, a []Value) Value { w.exactFmt = a[0].(*Term).val != 0; return nil })
}

func (w *W) msgStr(v Value) string {
	s := v.(*Str)
	if s.conc() {
		return s.s
	}
	return "<symbolic message>"
}

// ---- encoding/json, executed through the jsonm model package

type jsonDec struct {
	r   Iface
	d   Value // *jsonm.Dec
	num bool
}

type jsonEnc struct {
	w    Iface
	html bool
}

// jsonErr carries an error of the model out of assign.
type jsonErr struct{ e Iface }

func (w *W) jm(name string, a ...Value) Value {
	fn := w.sh.funcByName(jmPath, name)
	if fn == nil {
		w.unsupported("json model not loaded")
	}
	return w.call(fn, a)
}

func jsonIntrinsics(T map[string]intrinsic) {
	mismatch := func(w *W, t types.Type) Value {
		return w.newError(cstr("json: cannot unmarshal value into Go value of type " + types.TypeString(t, nil)))
	}
	named := func(t types.Type, name string) bool {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return false
		}
		pk, nm := n.Obj().Pkg().Path(), n.Obj().Name()
		return pk == "encoding/json" && nm == name || name == "RawMessage" && pk == "encoding/json/jsontext" && nm == "Value"
	}
	isAny := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	}
	isAnys := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isAny(s.Elem())
	}
	storeAny := func(w *W, p *Value, t types.Type, v Iface) Value {
		if v.t == nil {
			w.storeVal(p, []Value(nil))
			return Iface{}
		}
		if s, ok := v.v.([]Value); ok {
			w.storeVal(p, s)
			return Iface{}
		}
		return mismatch(w, t)
	}
	// assign stores the value with the text raw, which is valid, in *p of type t
	var assign func(w *W, p *Value, t types.Type, raw *Str, num bool) Value
	assign = func(w *W, p *Value, t types.Type, raw *Str, num bool) Value {
		value := func() Value {
			r := w.jm("Value", raw, w.boolV(num)).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				panic(jsonErr{e})
			}
			return r[0]
		}
		if named(t, "RawMessage") {
			w.storeVal(p, w.strToBytes(w.jm("Trim", raw).(*Str)))
			return Iface{}
		}
		isNull := func() bool { return value().(Iface).t == nil }
		if m := types.NewMethodSet(types.NewPointer(t)); !named(t, "Number") && m.Lookup(nil, "UnmarshalJSON") != nil {
			w.unsupported("json target with UnmarshalJSON")
		}
		switch u := t.Underlying().(type) {
		case *types.Interface:
			if u.NumMethods() > 0 {
				w.unsupported("json target " + t.String())
			}
			w.storeVal(p, value())
			return Iface{}
		case *types.Pointer:
			if isNull() {
				w.storeVal(p, w.zero(t))
				return Iface{}
			}
			q := new(Value)
			*q = w.zero(u.Elem())
			e := assign(w, q, u.Elem(), raw, num)
			w.storeVal(p, q)
			return e
		case *types.Slice:
			if isAny(u.Elem()) {
				return storeAny(w, p, t, value().(Iface))
			}
			r := w.jm("Elems", raw).(Tuple)
			if !w.branch(r[1].(*Term)) {
				if isNull() {
					w.storeVal(p, []Value(nil))
					return Iface{}
				}
				if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
					w.unsupported("json target " + t.String())
				}
				return mismatch(w, t)
			}
			el, _ := r[0].([]Value)
			out := make([]Value, len(el))
			first := Value(Iface{})
			for i := range el {
				out[i] = w.zero(u.Elem())
				if e := assign(w, &out[i], u.Elem(), el[i].(*Str), num).(Iface); e.t != nil && first.(Iface).t == nil {
					first = e
				}
			}
			w.storeVal(p, out)
			return first
		case *types.Basic:
			v := value().(Iface)
			if v.t == nil {
				return Iface{}
			}
			if named(t, "Number") {
				if s, ok := v.v.(*Str); ok && !num {
					_ = s
					w.unsupported("json string as number")
				}
				w.storeVal(p, w.jm("Trim", raw))
				return Iface{}
			}
			b, _ := v.t.Underlying().(*types.Basic)
			switch {
			case b == nil:
			case u.Kind() == types.String && b.Kind() == types.String && !named(v.t, "Number"):
				w.storeVal(p, v.v)
				return Iface{}
			case u.Kind() == types.Bool && b.Kind() == types.Bool:
				w.storeVal(p, v.v)
				return Iface{}
			case u.Kind() == types.Float64 && b.Kind() == types.Float64:
				w.storeVal(p, v.v)
				return Iface{}
			case u.Kind() == types.Int || u.Kind() == types.Int64:
				if b.Kind() == types.Float64 || named(v.t, "Number") {
					r := w.call(w.sh.funcByName("strconv", "ParseInt"), []Value{w.jm("Trim", raw), w.intV(10), w.intV(64)}).(Tuple)
					if r[1].(Iface).t != nil {
						return mismatch(w, t)
					}
					w.storeVal(p, r[0])
					return Iface{}
				}
			case u.Info()&(types.IsInteger|types.IsFloat) != 0:
				w.unsupported("json target " + t.String())
			}
			return mismatch(w, t)
		}
		w.unsupported("json target " + t.String())
		return nil
	}
	store := func(w *W, target Iface, raw *Str, num bool) (r Value) {
		if target.t == nil {
			return w.newError(cstr("json: Unmarshal(nil)"))
		}
		pt, ok := target.t.Underlying().(*types.Pointer)
		if !ok {
			return w.newError(cstr("json: Unmarshal(non-pointer " + target.t.String() + ")"))
		}
		defer func() {
			if x := recover(); x != nil {
				e, ok := x.(jsonErr)
				if !ok {
					panic(x)
				}
				r = e.e
			}
		}()
		return assign(w, w.ptr(target.v), pt.Elem(), raw, num)
	}
	T["encoding/json.Unmarshal"] = always(func(w *W, a []Value) Value {
		b, _ := a[0].([]Value)
		s := w.bytesToStr(b)
		if pt, ok := a[1].(Iface).t.(*types.Pointer); ok && (isAny(pt.Elem()) || isAnys(pt.Elem())) {
			// the common targets, without decoding twice
			r := w.jm("Parse", s, w.tb.ff).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				return e
			}
			p := w.ptr(a[1].(Iface).v)
			if isAny(pt.Elem()) {
				w.storeVal(p, r[0])
				return Iface{}
			}
			return storeAny(w, p, pt.Elem(), r[0].(Iface))
		}
		r := w.jm("Parse", s, w.tb.tt).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		return store(w, a[1].(Iface), s, false)
	})
	T["encoding/json.Valid"] = always(func(w *W, a []Value) Value {
		b, _ := a[0].([]Value)
		r := w.jm("Parse", w.bytesToStr(b), w.tb.tt).(Tuple)
		return w.boolV(r[1].(Iface).t == nil)
	})
	T["encoding/json.NewDecoder"] = always(func(w *W, a []Value) Value {
		p := new(Value)
		*p = &jsonDec{r: a[0].(Iface)}
		return p
	})
	// load reads all there is; the error of the reader, if any, is the decoder's
	load := func(w *W, d *jsonDec) Iface {
		if d.d == nil {
			r := w.call(w.sh.funcByName("io", "ReadAll"), []Value{d.r}).(Tuple)
			b, _ := r[0].([]Value)
			d.d = w.jm("NewDec", w.bytesToStr(b), w.boolV(d.num))
			return r[1].(Iface)
		}
		return Iface{}
	}
	T["(*encoding/json.Decoder).Decode"] = always(func(w *W, a []Value) Value {
		d := (*w.ptr(a[0])).(*jsonDec)
		if e := load(w, d); e.t != nil {
			return e
		}
		r := w.jm("DecRaw", d.d).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		return store(w, a[1].(Iface), r[0].(*Str), d.num)
	})
	T["(*encoding/json.Decoder).More"] = always(func(w *W, a []Value) Value {
		d := (*w.ptr(a[0])).(*jsonDec)
		load(w, d)
		return w.jm("DecMore", d.d)
	})
	T["(*encoding/json.Decoder).Token"] = always(func(w *W, a []Value) Value {
		d := (*w.ptr(a[0])).(*jsonDec)
		if e := load(w, d); e.t != nil {
			return Tuple{Iface{}, e}
		}
		return w.jm("DecToken", d.d)
	})
	T["(*encoding/json.Decoder).InputOffset"] = always(func(w *W, a []Value) Value {
		d := (*w.ptr(a[0])).(*jsonDec)
		load(w, d)
		return w.jm("DecOffset", d.d)
	})
	T["(*encoding/json.Decoder).Buffered"] = always(func(w *W, a []Value) Value {
		d := (*w.ptr(a[0])).(*jsonDec)
		load(w, d)
		return w.jm("DecRest", d.d)
	})
	T["(*encoding/json.Decoder).UseNumber"] = always(func(w *W, a []Value) Value {
		d := (*w.ptr(a[0])).(*jsonDec)
		if d.d != nil {
			w.unsupported("UseNumber after reading")
		}
		d.num = true
		return nil
	})
	T["(*encoding/json.Decoder).DisallowUnknownFields"] = always(func(w *W, a []Value) Value { return nil })
	T["(encoding/json.Delim).String"] = always(func(w *W, a []Value) Value {
		return cstr(string(rune(w.concretize(a[0].(*Term)))))
	})
	T["(encoding/json.Number).String"] = always(func(w *W, a []Value) Value { return a[0] })
	T["(encoding/json.Number).Float64"] = always(func(w *W, a []Value) Value {
		return w.call(w.sh.funcByName("strconv", "ParseFloat"), []Value{a[0], w.intV(64)})
	})
	T["(encoding/json.Number).Int64"] = always(func(w *W, a []Value) Value {
		return w.call(w.sh.funcByName("strconv", "ParseInt"), []Value{a[0], w.intV(10), w.intV(64)})
	})
	T["(*encoding/json.SyntaxError).Error"] = always(func(w *W, a []Value) Value { return cstr("invalid JSON") })
	T["encoding/json.NewEncoder"] = always(func(w *W, a []Value) Value {
		p := new(Value)
		*p = &jsonEnc{w: a[0].(Iface), html: true}
		return p
	})
	T["(*encoding/json.Encoder).SetEscapeHTML"] = always(func(w *W, a []Value) Value {
		(*w.ptr(a[0])).(*jsonEnc).html = w.branch(a[1].(*Term))
		return nil
	})
	T["(*encoding/json.Encoder).Encode"] = always(func(w *W, a []Value) Value {
		e := (*w.ptr(a[0])).(*jsonEnc)
		r := w.jm("Encode", a[1], w.boolV(e.html)).(Tuple)
		if er := r[1].(Iface); er.t != nil {
			return er
		}
		wr := w.writeTo(e.w, w.sconcat(r[0].(*Str), cstr("\n"))).(Tuple)
		return wr[1]
	})
	T["encoding/json.Marshal"] = always(func(w *W, a []Value) Value {
		r := w.jm("Encode", a[0], w.tb.tt).(Tuple)
		if er := r[1].(Iface); er.t != nil {
			return Tuple{[]Value(nil), er}
		}
		return Tuple{w.strToBytes(r[0].(*Str)), Iface{}}
	})
	T["reflect.ValueOf"] = always(func(w *W, a []Value) Value {
		return StructV{a[0]}
	})
	T["(reflect.Value).Kind"] = always(func(w *W, a []Value) Value {
		i, ok := a[0].(StructV)[0].(Iface)
		k := uint64(0)
		if ok && i.t != nil {
			switch u := i.t.Underlying().(type) {
			case *types.Map:
				k = 21
			case *types.Slice:
				k = 23
			case *types.Struct:
				k = 25
			case *types.Pointer:
				k = 22
			case *types.Basic:
				switch u.Kind() {
				case types.Bool:
					k = 1
				case types.Int:
					k = 2
				case types.Float64:
					k = 14
				case types.String:
					k = 24
				default:
					w.unsupported("reflect kind")
				}
			default:
				w.unsupported("reflect kind")
			}
		}
		return w.tb.konst(sBV64, k)
	})
}

// ---- encoding/xml: real tokens (package xmlm drives the real decoder); the
// assignment to struct fields by tag is modelled here.

const xmPath = modPath + "/zzverif/xmlm"

func xmlIntrinsics(T map[string]intrinsic) {
	T["reflect.TypeFor"] = always(func(w *W, a []Value) Value { return Iface{} }) // only initialises package variables of encoding/xml
	T["encoding/xml.Unmarshal"] = always(func(w *W, a []Value) Value {
		fn := w.sh.funcByName(xmPath, "Parse")
		if fn == nil {
			w.unsupported("xml model not loaded")
		}
		r := w.call(fn, []Value{a[0]}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		target := a[1].(Iface)
		pt, ok := target.t.Underlying().(*types.Pointer)
		if !ok {
			w.unsupported("xml target")
		}
		return w.xmlInto(r[0], pt.Elem(), target.v.(*Value))
	})
}

// xmlInto assigns an element (*xmlm.Node: Name, Attrs, Text, Kids) to *p of type t.
func (w *W) xmlInto(node Value, t types.Type, p *Value) Value {
	n := (*node.(*Value)).(StructV)
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		w.storeVal(p, n[2])
		return Iface{}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		w.unsupported("xml field type " + t.String())
	}
	elems := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("xml")
		name, opts, _ := strings.Cut(tag, ",")
		fp := &(*p).(StructV)[i]
		switch {
		case f.Name() == "XMLName":
			if name != "" && !w.branch(w.seq(n[0].(*Str), cstr(name))) {
				return w.newError(cstr("expected element type <" + name + ">"))
			}
		case opts == "attr":
			attrs, _ := n[1].([]Value)
			for _, av := range attrs {
				at := av.(StructV)
				if w.branch(w.seq(at[0].(*Str), cstr(name))) {
					w.storeVal(fp, at[1])
				}
			}
		case opts == "chardata" && name == "":
			w.storeVal(fp, n[2])
		case opts == "" && name != "" && !strings.Contains(name, ">") && !strings.Contains(name, " "):
			elems[name] = i
		default:
			w.unsupported("xml tag " + tag)
		}
	}
	kids, _ := n[3].([]Value)
	for _, k := range kids {
		kn := (*k.(*Value)).(StructV)
		for _, name := range sortedKeys(elems) {
			if w.branch(w.seq(kn[0].(*Str), cstr(name))) {
				i := elems[name]
				if e := w.xmlInto(k, st.Field(i).Type(), &(*p).(StructV)[i]).(Iface); e.t != nil {
					return e
				}
				break
			}
		}
	}
	return Iface{}
}
