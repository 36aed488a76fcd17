//go:build go1.21

package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

const fdBase = 1 << 20

// Fault is one planned kernel fault.
type Fault struct {
	Op   string `json:"op"`   // open, read, write, close, short, eintr, exec, stat
	Path string `json:"path"` // the file, device or program concerned
	Nth  int    `json:"nth,omitempty"`
	At   int64  `json:"at,omitempty"` // byte offset (write, read) or size limit (short)
	Err  string `json:"err,omitempty"`
}

var errnos = map[string]syscall.Errno{
	"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"EDQUOT": syscall.EDQUOT, "ENOENT": syscall.ENOENT, "EROFS": syscall.EROFS, "ENOMEM": syscall.ENOMEM,
	"EAGAIN": syscall.EAGAIN, "EINTR": syscall.EINTR, "ENFILE": syscall.ENFILE, "ETXTBSY": syscall.ETXTBSY,
	"ENOEXEC": syscall.ENOEXEC, "E2BIG": syscall.E2BIG, "EFBIG": syscall.EFBIG, "EISDIR": syscall.EISDIR,
	"EPIPE": syscall.EPIPE, "ENXIO": syscall.ENXIO, "EPERM": syscall.EPERM, "ENODEV": syscall.ENODEV,
}

// Node is a file, directory or device.
type Node struct {
	path string
	ino  uint64
	dir  bool
	dev  string // "", null, tty, stream
	mode uint32
	data []byte
}

// Pipe is a kernel pipe.
type Pipe struct {
	buf     []byte
	cap     int
	readers int
	writers int
	rq, wq  waitq
}

// OFD is an open file description.
type OFD struct {
	node  *Node
	name  string
	flags int
	pos   int64
	refs  int
	pipe  *Pipe
	wr    bool
	orig  []byte // content when opened, for lost writes
	wrote bool
	nops  int
}

// Wr is a write that reached a stream device.
type Wr struct {
	Src  string // "" for pgutil, otherwise a process
	Data []byte
	T    int64
	Seq  int // of the write event
}

// Kernel is the simulated kernel of one run.
type Kernel struct {
	s       *Sim
	nodes   map[string]*Node
	fds     map[int]*OFD
	nextFD  int
	nextIno uint64
	cwd     string
	procs   map[int]*Proc
	nextPid int
	reapq   waitq
	faults  []*Fault
	count   map[string]int
	pipeCap int
	chunk   int // reads from pipes return at most this much, 0: no limit
	streams map[string][]Wr
	slow    int64 // ns a write to a stream takes
	busy    int   // writes in progress
	onIdle  []func()
	onProc  func(p *Proc) // a process was created; sets its script
	Fired   []string      // faults that took effect
	exempt  bool          // the harness itself is using the file system
}

func newKernel(s *Sim) *Kernel {
	k := &Kernel{s: s, nodes: map[string]*Node{}, fds: map[int]*OFD{}, nextFD: fdBase, cwd: "/work", procs: map[int]*Proc{},
		nextPid: 1000, count: map[string]int{}, pipeCap: 65536, streams: map[string][]Wr{}}
	for _, d := range []string{"/", "/bin", "/usr", "/usr/bin", "/etc", "/etc/ssl", "/etc/ssl/certs", "/dev", "/work", "/root", "/tmp", "/var", "/out"} {
		k.add(&Node{path: d, dir: true, mode: 0755})
	}
	k.add(&Node{path: "/dev/null", dev: "null", mode: 0666})
	k.add(&Node{path: "/dev/stdin", dev: "null", mode: 0666})
	k.add(&Node{path: "/dev/stdout", dev: "stream", mode: 0666})
	k.add(&Node{path: "/dev/stderr", dev: "stream", mode: 0666})
	k.file("/etc/passwd", "root:x:0:0:root:/root:/bin/sh\n", 0644)
	k.file("/etc/ssl/certs/ca-certificates.crt", caPEM, 0644)
	for i, p := range []string{"/dev/stdin", "/dev/stdout", "/dev/stderr"} {
		k.fds[i] = &OFD{node: k.nodes[p], name: p, flags: syscall.O_RDWR | syscall.O_APPEND, refs: 1}
	}
	return k
}

func (k *Kernel) add(n *Node) *Node {
	k.nextIno++
	n.ino = k.nextIno
	k.nodes[n.path] = n
	return n
}

func (k *Kernel) file(p, content string, mode uint32) *Node {
	return k.add(&Node{path: p, mode: mode, data: []byte(content)})
}

func (k *Kernel) mkdirs(p string) {
	for ; p != "/" && k.nodes[p] == nil; p = path.Dir(p) {
		k.add(&Node{path: p, dir: true, mode: 0755})
	}
}

// content returns a file's content and whether it exists.
func (k *Kernel) content(p string) (string, bool) {
	n := k.nodes[p]
	if n == nil {
		return "", false
	}
	return string(n.data), true
}

// idle runs the callbacks waiting for quiescence.
func (k *Kernel) idle() bool {
	cbs := k.onIdle
	k.onIdle = nil
	for _, f := range cbs {
		f()
	}
	return len(cbs) > 0
}

// fault looks for a planned fault of the given operations that applies now.
func (k *Kernel) fault(op, p string) *Fault {
	if len(k.faults) == 0 || k.exempt {
		return nil
	}
	key := op + " " + p
	k.count[key]++
	n := k.count[key]
	for _, f := range k.faults {
		if f.Op == op && f.Path == p && (f.Nth == 0 || f.Nth == n) {
			return f
		}
	}
	return nil
}

func (k *Kernel) planned(op, p string) *Fault {
	if k.exempt {
		return nil
	}
	for _, f := range k.faults {
		if f.Op == op && f.Path == p {
			return f
		}
	}
	return nil
}

func (k *Kernel) fired(f *Fault) syscall.Errno {
	k.Fired = append(k.Fired, f.Op+" "+f.Path+" "+f.Err)
	k.s.fault(f.Op + " " + f.Err)
	k.s.ev("fault", f.Path, "%s %s", f.Op, f.Err)
	e, ok := errnos[f.Err]
	if !ok {
		e = syscall.EIO
	}
	return e
}

func (k *Kernel) resolve(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = k.cwd + "/" + p
	}
	return path.Clean(p)
}

func (k *Kernel) lookup(p string) (*Node, error) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	trail := strings.HasSuffix(p, "/")
	p = k.resolve(p)
	n := k.nodes[p]
	if n == nil {
		for d := path.Dir(p); d != "/"; d = path.Dir(d) {
			if x := k.nodes[d]; x != nil && !x.dir {
				return nil, syscall.ENOTDIR
			}
		}
		return nil, syscall.ENOENT
	}
	if trail && !n.dir {
		return nil, syscall.ENOTDIR
	}
	return n, nil
}

func (k *Kernel) newFD(o *OFD) int {
	fd := k.nextFD
	k.nextFD++
	o.refs++
	k.fds[fd] = o
	return fd
}

func (k *Kernel) get(fd int) (*OFD, error) {
	o := k.fds[fd]
	if o == nil {
		return nil, syscall.EBADF
	}
	return o, nil
}

// Openat implements open.
func (k *Kernel) Openat(dirfd int, p string, flags int, mode uint32) (int, error) {
	abs := k.resolve(p)
	if f := k.fault("open", abs); f != nil {
		return -1, k.fired(f)
	}
	n, err := k.lookup(p)
	if err == syscall.ENOENT && flags&syscall.O_CREAT != 0 && p != "" && !strings.HasSuffix(p, "/") {
		d := k.nodes[path.Dir(abs)]
		if d == nil {
			return -1, syscall.ENOENT
		}
		if !d.dir {
			return -1, syscall.ENOTDIR
		}
		n = k.file(abs, "", mode&^0022)
		k.s.ev("file.create", abs, "")
		err = nil
	} else if err == nil && flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		return -1, syscall.EEXIST
	}
	if err != nil {
		return -1, err
	}
	acc := flags & syscall.O_ACCMODE
	if n.dir && acc != syscall.O_RDONLY {
		return -1, syscall.EISDIR
	}
	if !n.dir && flags&syscall.O_DIRECTORY != 0 {
		return -1, syscall.ENOTDIR
	}
	if !n.dir && n.mode&0222 == 0 && acc != syscall.O_RDONLY {
		return -1, syscall.EACCES
	}
	o := &OFD{node: n, name: abs, flags: flags, orig: append([]byte(nil), n.data...)}
	if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY && n.dev == "" {
		n.data = nil
		o.orig = nil
		k.s.ev("file.trunc", abs, "")
	}
	return k.newFD(o), nil
}

// Close implements close.
func (k *Kernel) Close(fd int) error {
	o, err := k.get(fd)
	if err != nil {
		return err
	}
	delete(k.fds, fd)
	if o.refs > 1 {
		k.drop(o)
		return nil
	}
	var ret error
	if o.node != nil && o.flags&syscall.O_ACCMODE != syscall.O_RDONLY {
		if f := k.fault("close", o.name); f != nil {
			ret = k.fired(f)
			if o.wrote && o.node.dev == "" {
				o.node.data = o.orig // written data is lost
			}
		}
	}
	k.drop(o)
	return ret
}

func (k *Kernel) drop(o *OFD) {
	o.refs--
	if o.refs > 0 || o.pipe == nil {
		return
	}
	if o.wr {
		o.pipe.writers--
	} else {
		o.pipe.readers--
	}
	o.pipe.rq.wake()
	o.pipe.wq.wake()
}

// Read implements read.
func (k *Kernel) Read(fd int, p []byte) (int, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	return k.readOFD(o, p)
}

func (k *Kernel) readOFD(o *OFD, p []byte) (int, error) {
	if o.pipe != nil {
		if o.wr {
			return -1, syscall.EBADF
		}
		if len(p) == 0 {
			return 0, nil
		}
		for len(o.pipe.buf) == 0 {
			if o.pipe.writers == 0 {
				return 0, nil
			}
			o.pipe.rq.wait()
		}
		n := len(p)
		if k.chunk > 0 && n > k.chunk {
			n = k.chunk
		}
		n = copy(p[:n], o.pipe.buf)
		o.pipe.buf = o.pipe.buf[n:]
		o.pipe.wq.wake()
		return n, nil
	}
	if o.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return -1, syscall.EBADF
	}
	if o.node.dir {
		return -1, syscall.EISDIR
	}
	if o.node.dev != "" {
		return 0, nil
	}
	if f := k.planned("eintr", o.name); f != nil {
		if o.nops++; o.nops == 1 {
			f.Err = "EINTR"
			return -1, k.fired(f)
		}
	}
	end := int64(len(o.node.data))
	if f := k.planned("read", o.name); f != nil {
		if o.pos >= f.At {
			return -1, k.fired(f)
		}
		if end > f.At {
			end = f.At
		}
	}
	if o.pos >= end {
		return 0, nil
	}
	n := len(p)
	if f := k.planned("short", o.name); f != nil && int64(n) > f.At && f.At > 0 {
		n = int(f.At)
		k.s.fault("short read")
	}
	n = copy(p[:n], o.node.data[o.pos:end])
	o.pos += int64(n)
	return n, nil
}

// Write implements write.
func (k *Kernel) Write(fd int, p []byte) (int, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	return k.writeOFD(o, p, "")
}

func (k *Kernel) writeOFD(o *OFD, p []byte, src string) (int, error) {
	if o.pipe != nil {
		if !o.wr {
			return -1, syscall.EBADF
		}
		done := 0
		for done < len(p) {
			if o.pipe.readers == 0 {
				if done > 0 {
					return done, nil
				}
				return -1, syscall.EPIPE
			}
			room := o.pipe.cap - len(o.pipe.buf)
			if room <= 0 {
				o.pipe.wq.wait()
				continue
			}
			n := len(p) - done
			if n > room {
				n = room
			}
			o.pipe.buf = append(o.pipe.buf, p[done:done+n]...)
			done += n
			o.pipe.rq.wake()
		}
		return done, nil
	}
	if o.node.dir || o.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return -1, syscall.EBADF
	}
	if o.node.dev == "null" {
		return len(p), nil
	}
	if f := k.planned("eintr", o.name); f != nil && src == "" {
		if o.nops++; o.nops == 1 {
			f.Err = "EINTR"
			return -1, k.fired(f)
		}
	}
	n := len(p)
	if f := k.planned("short", o.name); f != nil && int64(n) > f.At && f.At > 0 {
		n = int(f.At)
		k.s.fault("short write")
	}
	if f := k.fault("write1", o.name); f != nil && n > 0 && src == "" {
		return -1, k.fired(f)
	}
	if f := k.planned("write", o.name); f != nil && n > 0 {
		key := "written " + o.name
		if left := int(f.At) - k.count[key]; left < n {
			if left <= 0 {
				return -1, k.fired(f)
			}
			n = left
		}
		k.count[key] += n
	}
	if o.node.dev == "stream" {
		if k.slow > 0 && src == "" && !k.exempt {
			k.busy++
			time.Sleep(time.Duration(k.slow))
			k.busy--
		}
		k.toStream(o.name, src, p[:n])
		return n, nil
	}
	o.wrote = true
	if src == "" {
		k.s.wrote(o.name, p[:n])
	}
	if o.flags&syscall.O_APPEND != 0 {
		o.pos = int64(len(o.node.data))
	}
	for int64(len(o.node.data)) < o.pos {
		o.node.data = append(o.node.data, 0)
	}
	m := copy(o.node.data[o.pos:], p[:n])
	o.node.data = append(o.node.data, p[m:n]...)
	o.pos += int64(n)
	k.s.ev("write", o.name, "%s%q", src, clip(p[:n]))
	return n, nil
}

// opened lists the files and pipes that are open, the standard streams and the debug log apart.
func (k *Kernel) opened() (names []string) {
	for fd, o := range k.fds {
		if fd > 2 && o != nil && o.name != "/out/debug.log" {
			names = append(names, o.name)
		}
	}
	sort.Strings(names)
	return names
}

func (k *Kernel) toStream(name, src string, p []byte) {
	seq := len(k.s.Events)
	if src == "" {
		k.s.wrote(name, p)
	}
	k.streams[name] = append(k.streams[name], Wr{Src: src, Data: append([]byte(nil), p...), T: k.s.now(), Seq: seq})
	k.s.ev("write", name, "%s%q", src, clip(p))
}

func clip(p []byte) string {
	if len(p) > 80 {
		return fmt.Sprintf("%s…(%d)", p[:80], len(p))
	}
	return string(p)
}

// stream returns all bytes written to a stream device.
func (k *Kernel) stream(name string) string {
	var sb strings.Builder
	for _, w := range k.streams[name] {
		sb.Write(w.Data)
	}
	return sb.String()
}

func (k *Kernel) Pread(fd int, p []byte, off int64) (int, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	if o.pipe != nil {
		return -1, syscall.ESPIPE
	}
	save := o.pos
	o.pos = off
	n, err := k.readOFD(o, p)
	o.pos = save
	return n, err
}

func (k *Kernel) Pwrite(fd int, p []byte, off int64) (int, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	if o.pipe != nil {
		return -1, syscall.ESPIPE
	}
	save := o.pos
	o.pos = off
	n, err := k.writeOFD(o, p, "")
	o.pos = save
	return n, err
}

func (k *Kernel) Seek(fd int, off int64, whence int) (int64, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	if o.pipe != nil || o.node.dev != "" {
		return -1, syscall.ESPIPE
	}
	switch whence {
	case 1:
		off += o.pos
	case 2:
		off += int64(len(o.node.data))
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	o.pos = off
	return off, nil
}

func (k *Kernel) stat(n *Node, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Ino: n.ino, Dev: 1, Nlink: 1, Mode: n.mode, Size: int64(len(n.data)), Blksize: 4096}
	switch {
	case n.dir:
		st.Mode |= syscall.S_IFDIR
	case n.dev != "":
		st.Mode |= syscall.S_IFCHR
	default:
		st.Mode |= syscall.S_IFREG
	}
	st.Mtim.Sec = 946684800
}

func (k *Kernel) Fstat(fd int, st *syscall.Stat_t) error {
	o, err := k.get(fd)
	if err != nil {
		return err
	}
	if o.pipe != nil {
		*st = syscall.Stat_t{Mode: syscall.S_IFIFO | 0600, Nlink: 1}
		return nil
	}
	k.stat(o.node, st)
	return nil
}

func (k *Kernel) Fstatat(dirfd int, p string, st *syscall.Stat_t, flags int) error {
	if f := k.fault("stat", k.resolve(p)); f != nil {
		return k.fired(f)
	}
	n, err := k.lookup(p)
	if err != nil {
		return err
	}
	k.stat(n, st)
	return nil
}

func (k *Kernel) Faccessat(dirfd int, p string, mode uint32) error {
	n, err := k.lookup(p)
	if err != nil {
		return err
	}
	if mode&1 != 0 && n.mode&0111 == 0 {
		return syscall.EACCES
	}
	return nil
}

func (k *Kernel) truncNode(n *Node, size int64) error {
	if n.dir {
		return syscall.EISDIR
	}
	if n.dev != "" {
		return syscall.EINVAL
	}
	for int64(len(n.data)) < size {
		n.data = append(n.data, 0)
	}
	n.data = n.data[:size]
	k.s.ev("file.trunc", n.path, "%d", size)
	return nil
}

func (k *Kernel) Ftruncate(fd int, size int64) error {
	o, err := k.get(fd)
	if err != nil {
		return err
	}
	if o.pipe != nil {
		return syscall.EINVAL
	}
	o.wrote = true
	return k.truncNode(o.node, size)
}

func (k *Kernel) Truncate(p string, size int64) error {
	n, err := k.lookup(p)
	if err != nil {
		return err
	}
	return k.truncNode(n, size)
}

func (k *Kernel) Unlinkat(dirfd int, p string, flags int) error {
	n, err := k.lookup(p)
	if err != nil {
		return err
	}
	if n.dir != (flags&0x200 != 0) {
		if n.dir {
			return syscall.EISDIR
		}
		return syscall.ENOTDIR
	}
	if n.dir {
		for q := range k.nodes {
			if path.Dir(q) == n.path && q != n.path {
				return syscall.ENOTEMPTY
			}
		}
	}
	k.s.ev("file.unlink", n.path, "")
	delete(k.nodes, n.path)
	return nil
}

func (k *Kernel) Mkdirat(dirfd int, p string, mode uint32) error {
	abs := k.resolve(p)
	if k.nodes[abs] != nil {
		return syscall.EEXIST
	}
	if d := k.nodes[path.Dir(abs)]; d == nil || !d.dir {
		return syscall.ENOENT
	}
	k.add(&Node{path: abs, dir: true, mode: mode &^ 0022})
	return nil
}

func (k *Kernel) Renameat(a int, oldp string, b int, newp string) error {
	if f := k.fault("rename", k.resolve(newp)); f != nil {
		return k.fired(f)
	}
	n, err := k.lookup(oldp)
	if err != nil {
		return err
	}
	abs := k.resolve(newp)
	if d := k.nodes[path.Dir(abs)]; d == nil || !d.dir {
		return syscall.ENOENT
	}
	if x := k.nodes[abs]; x != nil && x.dir {
		return syscall.EISDIR
	}
	if n.dir {
		return syscall.EPERM
	}
	delete(k.nodes, n.path)
	n.path = abs
	k.nodes[abs] = n
	k.s.ev("file.rename", abs, "")
	return nil
}

func (k *Kernel) Linkat(a int, oldp string, b int, newp string, flags int) error {
	return syscall.EPERM
}

func (k *Kernel) Fsync(fd int) error {
	o, err := k.get(fd)
	if err != nil {
		return err
	}
	if o.pipe != nil || o.node.dev != "" {
		return syscall.EINVAL
	}
	if f := k.fault("fsync", o.name); f != nil {
		return k.fired(f)
	}
	return nil
}

func (k *Kernel) Getdents(fd int, p []byte) (int, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	if o.node == nil || !o.node.dir {
		return -1, syscall.ENOTDIR
	}
	var names []string
	for q := range k.nodes {
		if q != o.node.path && path.Dir(q) == o.node.path {
			names = append(names, q)
		}
	}
	sort.Strings(names)
	n := 0
	for i := int(o.pos); i < len(names); i++ {
		name := path.Base(names[i])
		l := (19 + len(name) + 1 + 7) &^ 7
		if n+l > len(p) {
			break
		}
		b := p[n : n+l]
		for j := range b {
			b[j] = 0
		}
		x := k.nodes[names[i]]
		put64(b, x.ino)
		put64(b[8:], uint64(i+1))
		b[16], b[17] = byte(l), byte(l>>8)
		switch {
		case x.dir:
			b[18] = 4
		case x.dev != "":
			b[18] = 2
		default:
			b[18] = 8
		}
		copy(b[19:], name)
		n += l
		o.pos++
	}
	return n, nil
}

func put64(b []byte, x uint64) {
	for i := 0; i < 8; i++ {
		b[i] = byte(x >> (8 * i))
	}
}

func (k *Kernel) Getcwd(p []byte) (int, error) {
	return copy(p, k.cwd+"\x00"), nil
}

func (k *Kernel) Pipe2() (int, int, error) {
	if f := k.fault("pipe", "pipe"); f != nil {
		return -1, -1, k.fired(f)
	}
	p := &Pipe{cap: k.pipeCap, readers: 1, writers: 1}
	r := k.newFD(&OFD{pipe: p, name: "pipe", flags: syscall.O_RDONLY})
	w := k.newFD(&OFD{pipe: p, name: "pipe", flags: syscall.O_WRONLY, wr: true})
	return r, w, nil
}

func (k *Kernel) Dup(fd int) (int, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	return k.newFD(o), nil
}

func (k *Kernel) Chmod(p string, mode uint32) error {
	n, err := k.lookup(p)
	if err == nil {
		n.mode = mode & 0777
	}
	return err
}

func (k *Kernel) Fchmod(fd int, mode uint32) error {
	o, err := k.get(fd)
	if err == nil && o.node != nil {
		o.node.mode = mode & 0777
	}
	return err
}

// ---- processes ----

// Step is one action of a simulated program.
type Step struct {
	Op   string `json:"op"` // sleep, out, err, stdin, fork
	Data string `json:"data,omitempty"`
	N    int    `json:"n,omitempty"` // Data is repeated this often
	NS   int64  `json:"ns,omitempty"`
	Sub  []Step `json:"sub,omitempty"` // of a forked child
}

// Proc is a simulated process.
type Proc struct {
	Pid    int
	Name   string // task it belongs to
	Path   string
	Argv   []string
	Env    []string
	Dir    string
	Stdin  string // what it read from standard input
	Steps  []Step
	Code   int
	Signal int
	Fds    map[int]*OFD
	Exited bool
	Reaped bool
	StartT int64
	EndT   int64
	Killed bool
	Werr   error // first write error
	seen   int   // bytes of its output already looked at
	quit   chan struct{}
	xlat   func(st Step) []byte
	Forks  int    // descendants still running
	Out    []byte // written to standard output so far
	ErrOut []byte
	parent *Proc
}

// ForkExec implements fork and exec.
func (k *Kernel) ForkExec(argv0 string, argv []string, attr *syscall.ProcAttr) (int, error) {
	dir := k.cwd
	if attr != nil && attr.Dir != "" {
		dir = k.resolve(attr.Dir)
	}
	p := &Proc{Path: argv0, Argv: append([]string(nil), argv...), Dir: dir, Fds: map[int]*OFD{}, quit: make(chan struct{})}
	if attr != nil {
		p.Env = append([]string(nil), attr.Env...)
	}
	exe := argv0
	if !strings.HasPrefix(exe, "/") {
		exe = path.Join(dir, exe)
	}
	if d := k.nodes[dir]; d == nil || !d.dir {
		return 0, syscall.ENOENT
	}
	n := k.nodes[path.Clean(exe)]
	if n == nil {
		return 0, syscall.ENOENT
	}
	if n.dir || n.mode&0111 == 0 {
		return 0, syscall.EACCES
	}
	if k.onProc != nil {
		k.onProc(p)
	}
	if f := k.fault("exec", "task:"+p.Name); f != nil {
		return 0, k.fired(f)
	}
	if f := k.fault("exec", n.path); f != nil {
		return 0, k.fired(f)
	}
	k.nextPid++
	p.Pid = k.nextPid
	p.StartT = k.s.now()
	k.procs[p.Pid] = p
	if attr != nil {
		for i, fd := range attr.Files {
			if o := k.fds[int(fd)]; o != nil {
				o.refs++
				p.Fds[i] = o
			}
		}
	}
	k.s.ev("proc.start", p.Name, "pid %d %q", p.Pid, p.Argv)
	harnessGo(func() { k.runProc(p) })
	return p.Pid, nil
}

func (k *Kernel) runProc(p *Proc) {
	k.runSteps(p, p.Steps, p.Fds)
	if p.Killed {
		return
	}
	k.exit(p, p.Code, p.Signal)
}

func (k *Kernel) runSteps(p *Proc, steps []Step, fds map[int]*OFD) {
	for _, st := range steps {
		if p.Killed {
			return
		}
		switch st.Op {
		case "sleep":
			tm := time.NewTimer(time.Duration(st.NS))
			select {
			case <-tm.C:
			case <-p.quit:
				tm.Stop()
				return
			}
		case "stdin":
			if o := fds[0]; o != nil {
				buf := make([]byte, 256)
				for {
					n, err := k.readOFD(o, buf)
					if n <= 0 || err != nil {
						break
					}
					p.Stdin += string(buf[:n])
				}
			} else {
				p.Stdin += "<closed>"
			}
		case "out", "err":
			o := fds[1]
			if st.Op == "err" {
				o = fds[2]
			}
			if o == nil {
				continue
			}
			data := []byte(st.Data)
			if p.xlat != nil {
				data = p.xlat(st)
			}
			for len(data) > 0 {
				n, err := k.writeOFD(o, data, p.Name+":")
				if err == syscall.EINTR {
					continue
				}
				if err != nil {
					if p.Werr == nil {
						p.Werr = err
					}
					if err == syscall.EPIPE && p.Signal == 0 {
						p.Signal = 13
					} else if p.Code == 0 {
						p.Code = 1
					}
					return
				}
				if p.parent == nil {
					if st.Op == "out" {
						p.Out = append(p.Out, data[:n]...)
					} else {
						p.ErrOut = append(p.ErrOut, data[:n]...)
					}
				}
				data = data[n:]
			}
		case "fork":
			sub := map[int]*OFD{}
			for i, o := range fds {
				o.refs++
				sub[i] = o
			}
			steps := st.Sub
			p.Forks++
			harnessGo(func() {
				k.s.ev("proc.fork", p.Name, "")
				k.runSteps(&Proc{Name: p.Name, parent: p, xlat: p.xlat, quit: make(chan struct{})}, steps, sub)
				p.Forks--
				k.s.ev("proc.forkexit", p.Name, "")
				for i := 0; i < 16; i++ {
					if o := sub[i]; o != nil {
						k.drop(o)
					}
				}
			})
		}
	}
}

func (k *Kernel) exit(p *Proc, code, sig int) {
	p.Code, p.Signal = code, sig
	p.Exited = true
	p.EndT = k.s.now()
	for i := 0; i < 16; i++ {
		if o := p.Fds[i]; o != nil {
			k.drop(o)
		}
	}
	k.s.ev("proc.exit", p.Name, "pid %d code %d signal %d", p.Pid, code, sig)
	k.reapq.wake()
}

func (k *Kernel) Wait4(pid int, options int) (int, syscall.WaitStatus, error) {
	if f := k.fault("eintr", "wait"); f != nil {
		f.Err = "EINTR"
		return -1, 0, k.fired(f)
	}
	for {
		var found *Proc
		any := false
		if pid > 0 {
			found = k.procs[pid]
			if found == nil || found.Reaped {
				return -1, 0, syscall.ECHILD
			}
			any = true
			if !found.Exited {
				found = nil
			}
		} else {
			for q := 1001; q <= k.nextPid; q++ {
				if p := k.procs[q]; p != nil && !p.Reaped {
					any = true
					if p.Exited {
						found = p
						break
					}
				}
			}
		}
		if found != nil {
			found.Reaped = true
			ws := syscall.WaitStatus(found.Code << 8)
			if found.Signal != 0 {
				ws = syscall.WaitStatus(found.Signal)
			}
			k.s.ev("proc.reap", found.Name, "pid %d", found.Pid)
			return found.Pid, ws, nil
		}
		if !any {
			return -1, 0, syscall.ECHILD
		}
		if options&syscall.WNOHANG != 0 {
			return 0, 0, nil
		}
		k.reapq.wait()
	}
}

func (k *Kernel) Kill(pid int, sig syscall.Signal) error {
	p := k.procs[pid]
	if p == nil || p.Reaped {
		return syscall.ESRCH
	}
	if p.Exited || sig == 0 {
		return nil
	}
	k.s.ev("proc.kill", p.Name, "pid %d signal %d", pid, sig)
	if sig == syscall.SIGKILL || sig == syscall.SIGTERM || sig == syscall.SIGINT {
		p.Killed = true
		close(p.quit)
		k.exit(p, 0, int(sig))
	}
	return nil
}

// alive lists processes that have not ended or were not waited for.
func (k *Kernel) alive() (running, zombies []string) {
	for q := 1001; q <= k.nextPid; q++ {
		if p := k.procs[q]; p != nil {
			if !p.Exited {
				running = append(running, p.Name)
			} else if !p.Reaped {
				zombies = append(zombies, p.Name)
			}
		}
	}
	return
}
