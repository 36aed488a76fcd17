// Command simcheck builds the simulation of pgutil from /repo's current tree:
// the packages of /repo with preemption points inserted, a Go standard library
// whose scheduler, clock, randomness and system calls are simulated, and the
// harness in /verif/sim/harness. It writes nothing under /repo.
//
//	simcheck -o BIN                build only
//	simcheck -prop C01             build and check a property (VERIF_SEED, VERIF_TIER)
//	simcheck -replay FILE          build and repeat a recorded run
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var (
	repo   = flag.String("repo", "/repo", "")
	verif  = flag.String("verif", "/verif", "")
	work   = flag.String("work", "", "scratch directory")
	out    = flag.String("o", "", "binary to write")
	prop   = flag.String("prop", "", "check this property")
	replay = flag.String("replay", "", "repeat the run of a replay file")
	goroot string
	ov     = map[string]string{}
)

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simcheck: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		fail("%v", err)
	}
}

type edit struct{ old, new string }

// patch overlays a standard library file, each old text of which must occur exactly once.
func patch(file string, edits ...edit) {
	src := filepath.Join(goroot, "src", file)
	b, err := os.ReadFile(src)
	must(err)
	s := string(b)
	for _, e := range edits {
		if n := strings.Count(s, e.old); n != 1 {
			fail("%s: %q occurs %d times", file, e.old, n)
		}
		s = strings.Replace(s, e.old, e.new, 1)
	}
	put(src, []byte(s), strings.ReplaceAll(file, "/", "__"))
}

func put(target string, content []byte, name string) {
	p := filepath.Join(*work, "std", name)
	must(os.MkdirAll(filepath.Dir(p), 0777))
	must(os.WriteFile(p, content, 0666))
	ov[target] = p
}

func patchStd() {
	rt := func(n string) []byte {
		b, err := os.ReadFile(filepath.Join(*verif, "sim/rt", n))
		must(err)
		return b
	}
	put(filepath.Join(goroot, "src/runtime/zz_sim.go"), rt("runtime_zz_sim.go"), "runtime_zz_sim.go")
	put(filepath.Join(goroot, "src/syscall/zz_sim.go"), rt("syscall_zz_sim.go"), "syscall_zz_sim.go")

	patch("runtime/proc.go",
		edit{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		edit{"	// now and pollUntil are saved for work stealing later,\n", "	if simActive {\n		if gp := simPick(pp); gp != nil {\n			return gp, false, false\n		}\n	}\n\n	// now and pollUntil are saved for work stealing later,\n"},
		edit{"	newg.runningCleanups.Store(false)\n	if isSystemGoroutine(newg, false) {\n", "	newg.runningCleanups.Store(false)\n	defer simNewG(newg, callergp)\n	if isSystemGoroutine(newg, false) {\n"},
	)
	idle := ""
	for _, w := range []string{"ChanReceive", "ChanSend", "Select", "SyncMutexLock", "SyncRWMutexRLock", "SyncRWMutexLock", "SyncWaitGroupWait", "Semacquire"} {
		idle += "	waitReason" + w + ": true,\n"
	}
	patch("runtime/runtime2.go",
		edit{"	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	simID, simRand, simPrio uint64\n	simKids uint32\n	simHarness, simStall bool\n"},
		edit{"	waitReasonSleep:                 true,\n", "	waitReasonSleep:                 true,\n" + idle},
	)
	patch("runtime/synctest.go",
		edit{"	gp.bubble = bubble\n	defer func() {\n", "	gp.bubble = bubble\n	simStart(bubble)\n	defer func() {\n"},
		edit{"		next := bubble.timers.wakeTime()\n		if next == 0 {\n			break\n", "		next := bubble.timers.wakeTime()\n		if next == 0 || next > bubble.now {\n			unlock(&bubble.mu)\n			again := simIdle(bubble, next)\n			lock(&bubble.mu)\n			if again {\n				continue\n			}\n			next = bubble.timers.wakeTime()\n		}\n		if next == 0 {\n			break\n"},
	)
	patch("runtime/rand.go",
		edit{"func rand() uint64 {\n", "func rand() uint64 {\n	if gp := simUserG(); gp != nil {\n		return simRand(gp)\n	}\n"},
	)
	patch("internal/runtime/maps/runtime_alg.go",
		edit{"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15 * (uint64(i) + 11))"},
		edit{"key[i] = bootstrapRand()", "key[i] = 0xbf58476d1ce4e5b9 * (uint64(i) + 5)"},
	)
	// (the runtime's caches draw from cheaprand too, so it cannot be seeded as a whole)
	patch("runtime/select.go",
		edit{"cheaprandn(uint32(norder + 1))", "simRandn(uint32(norder + 1))"})
	patch("runtime/time.go",
		edit{"t.rand = cheaprand()", "t.rand = simRandn(1 << 31)"})
	patch("runtime/mfinal.go",
		edit{"func SetFinalizer(obj any, finalizer any) {\n", "func SetFinalizer(obj any, finalizer any) {\n	if simUserG() != nil {\n		return\n	}\n"})
	patch("runtime/mcleanup.go",
		edit{"func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup {\n", "func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup {\n	if SimIn() {\n		return Cleanup{}\n	}\n"})
	patch("runtime/sema.go",
		edit{"s.ticket = cheaprand() | 1", "s.ticket = simRandn(1<<31) | 1"},
		edit{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if gp := simUserG(); gp != nil {\n		return gp.bubble.now\n	}\n"})
	patch("runtime/panic.go",
		edit{"	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n", "	if simActive && simUserG() != nil {\n		SimStop(p.arg, \"panic\")\n	}\n	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n"},
		edit{"func sync_fatal(s string) {\n", "func sync_fatal(s string) {\n	simFatal(s)\n"},
		edit{"func maps_fatal(s string) {\n", "func maps_fatal(s string) {\n	simFatal(s)\n"},
		edit{"func internal_sync_fatal(s string) {\n", "func internal_sync_fatal(s string) {\n	simFatal(s)\n"},
	)

	patch("syscall/syscall_linux.go",
		edit{"func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n", "func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n	if runtime.SimGuard(trap) {\n		return ^uintptr(0), 0, ENOSYS\n	}\n"},
		edit{"	runtime_entersyscall()\n	// N.B. Calling", "	if runtime.SimGuard(trap) {\n		return ^uintptr(0), 0, ENOSYS\n	}\n	runtime_entersyscall()\n	// N.B. Calling"},
		edit{"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n	runtime_entersyscall()\n", "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n	if runtime.SimGuard(trap) {\n		return ^uintptr(0), 0, ENOSYS\n	}\n	runtime_entersyscall()\n"},
	)
	k := func(sig, call string) edit {
		return edit{"\nfunc " + sig + " {\n", "\nfunc " + sig + " {\n	if k := simK(); k != nil {\n		" + call + "\n	}\n"}
	}
	patch("syscall/zsyscall_linux_amd64.go",
		k("faccessat(dirfd int, path string, mode uint32) (err error)", "return k.Faccessat(dirfd, path, mode)"),
		k("faccessat2(dirfd int, path string, mode uint32, flags int) (err error)", "return k.Faccessat(dirfd, path, mode)"),
		k("fchmodat(dirfd int, path string, mode uint32) (err error)", "return k.Chmod(path, mode)"),
		k("fchmodat2(dirfd int, path string, mode uint32, flags int) (err error)", "return k.Chmod(path, mode)"),
		k("linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error)", "return k.Linkat(olddirfd, oldpath, newdirfd, newpath, flags)"),
		k("openat(dirfd int, path string, flags int, mode uint32) (fd int, err error)", "return k.Openat(dirfd, path, flags, mode)"),
		k("pipe2(p *[2]_C_int, flags int) (err error)", "r, w, err := k.Pipe2()\n		p[0], p[1] = _C_int(r), _C_int(w)\n		return err"),
		k("readlinkat(dirfd int, path string, buf []byte) (n int, err error)", "return -1, EINVAL"),
		k("unlinkat(dirfd int, path string, flags int) (err error)", "return k.Unlinkat(dirfd, path, flags)"),
		k("utimensat(dirfd int, path string, times *[2]Timespec, flag int) (err error)", "return nil"),
		k("Getcwd(buf []byte) (n int, err error)", "return k.Getcwd(buf)"),
		k("wait4(pid int, wstatus *_C_int, options int, rusage *Rusage) (wpid int, err error)", "wpid, ws, err := k.Wait4(pid, options)\n		if wstatus != nil {\n			*wstatus = _C_int(ws)\n		}\n		return wpid, err"),
		k("Close(fd int) (err error)", "return k.Close(fd)"),
		k("Dup(oldfd int) (fd int, err error)", "return k.Dup(oldfd)"),
		k("Fchmod(fd int, mode uint32) (err error)", "return k.Fchmod(fd, mode)"),
		k("fcntl(fd int, cmd int, arg int) (val int, err error)", "return -1, EINVAL"),
		k("Fdatasync(fd int) (err error)", "return k.Fsync(fd)"),
		k("Flock(fd int, how int) (err error)", "return nil"),
		k("Fsync(fd int) (err error)", "return k.Fsync(fd)"),
		k("Getdents(fd int, buf []byte) (n int, err error)", "return k.Getdents(fd, buf)"),
		k("Kill(pid int, sig Signal) (err error)", "return k.Kill(pid, sig)"),
		k("Mkdirat(dirfd int, path string, mode uint32) (err error)", "return k.Mkdirat(dirfd, path, mode)"),
		k("read(fd int, p []byte) (n int, err error)", "return k.Read(fd, p)"),
		k("write(fd int, p []byte) (n int, err error)", "return k.Write(fd, p)"),
		k("Fstat(fd int, stat *Stat_t) (err error)", "return k.Fstat(fd, stat)"),
		k("Ftruncate(fd int, length int64) (err error)", "return k.Ftruncate(fd, length)"),
		k("pread(fd int, p []byte, offset int64) (n int, err error)", "return k.Pread(fd, p, offset)"),
		k("pwrite(fd int, p []byte, offset int64) (n int, err error)", "return k.Pwrite(fd, p, offset)"),
		k("Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error)", "return k.Renameat(olddirfd, oldpath, newdirfd, newpath)"),
		k("Seek(fd int, offset int64, whence int) (off int64, err error)", "return k.Seek(fd, offset, whence)"),
		k("Truncate(path string, length int64) (err error)", "return k.Truncate(path, length)"),
		k("fstatat(fd int, path string, stat *Stat_t, flags int) (err error)", "return k.Fstatat(fd, path, stat, flags)"),
	)
	patch("syscall/exec_unix.go",
		k("forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error)", "return k.ForkExec(argv0, argv, attr)"))
	patch("net/dial.go",
		edit{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "// SimDial replaces dialing in a simulated run.\nvar SimDial func(ctx context.Context, d *Dialer, network, address string) (Conn, error)\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDial != nil && runtime.SimIn() {\n		return SimDial(ctx, d, network, address)\n	}\n"},
		edit{"import (\n", "import (\n	\"runtime\"\n"})
	patch("os/proc.go",
		edit{"func Exit(code int) {\n", "func Exit(code int) {\n	runtime.SimStop(code, \"os.Exit\")\n"})
	patch("sync/pool.go",
		edit{"	noCopy noCopy\n\n	local ", "	noCopy noCopy\n\n	simEpoch uint64\n	simList  []any\n\n	local "},
		edit{"	if x == nil {\n		return\n	}\n	if race.Enabled {\n		if runtime_randn(4) == 0 {\n", "	if x == nil {\n		return\n	}\n	if e := runtime.SimEpoch(); e != 0 {\n		if p.simEpoch != e {\n			p.simEpoch, p.simList = e, nil\n		}\n		p.simList = append(p.simList, x)\n		return\n	}\n	if race.Enabled {\n		if runtime_randn(4) == 0 {\n"},
		edit{"func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n	if e := runtime.SimEpoch(); e != 0 {\n		if p.simEpoch == e && len(p.simList) > 0 {\n			x := p.simList[len(p.simList)-1]\n			p.simList = p.simList[:len(p.simList)-1]\n			return x\n		}\n		if p.New != nil {\n			return p.New()\n		}\n		return nil\n	}\n"},
	)
	// (the standard library's caches outlive a run: whether one is filled or
	// hit must not shift the caller's random stream)
	patch("sync/once.go",
		edit{"	if !o.done.Load() {\n		defer o.done.Store(true)\n", "	if !o.done.Load() {\n		defer runtime.SimSetRand(runtime.SimGetRand())\n		defer o.done.Store(true)\n"},
		edit{"import (\n", "import (\n	\"runtime\"\n"})
	patch("internal/sync/hashtriemap.go",
		edit{"	ht.seed = uintptr(runtime_rand())\n", "	s := runtime.SimGetRand()\n	ht.seed = uintptr(runtime_rand())\n	runtime.SimSetRand(s)\n"},
		edit{"import (\n", "import (\n	\"runtime\"\n"})
	// (whether it hits depends on the garbage collector)
	patch("crypto/tls/cache.go",
		edit{"newCert(der []byte) (*x509.Certificate, error) {\n", "newCert(der []byte) (*x509.Certificate, error) {\n	if runtime.SimIn() {\n		return x509.ParseCertificate(der)\n	}\n"})
	patch("crypto/internal/sysrand/rand.go",
		edit{"func Read(b []byte) {\n", "func Read(b []byte) {\n	if runtime.SimIn() {\n		for i := range b {\n			b[i] = byte(runtime.SimRand64() >> 32)\n		}\n		return\n	}\n"},
		edit{"import (\n", "import (\n	\"runtime\"\n"})
}

type pkg struct {
	ImportPath, Dir string
	GoFiles         []string
}

type ins struct {
	off  int
	text string
}

// instrument inserts a preemption point before every statement, and lets pi
// initialise the package's variables again.
func instrument(path string, pi *pkgInit) []byte {
	src, err := os.ReadFile(path)
	must(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return src // let the compiler report it
	}
	var list []ins
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			list = append(list, ins{fset.Position(s.Pos()).Offset, "zzsimrt.SimPoint(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			for _, c := range x.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				stmts(c.(*ast.CommClause).Body)
			}
		case *ast.FuncDecl:
			if x.Body != nil {
				stmts(x.Body.List)
			}
		case *ast.FuncLit:
			stmts(x.Body.List)
		case *ast.LabeledStmt:
			if b, ok := x.Stmt.(*ast.BlockStmt); ok {
				stmts(b.List)
			}
		case *ast.IfStmt:
			stmts(x.Body.List)
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				stmts(b.List)
			}
		case *ast.ForStmt:
			stmts(x.Body.List)
		case *ast.RangeStmt:
			stmts(x.Body.List)
		}
		return true
	})
	points := len(list)
	text := func(a, b int) string {
		var sb strings.Builder
		seen := map[int]bool{}
		for _, x := range list {
			if seen[x.off] || x.off < a || x.off >= b {
				continue
			}
			seen[x.off] = true
			sb.Write(src[a:x.off])
			sb.WriteString(x.text)
			a = x.off
		}
		sb.Write(src[a:b])
		return sb.String()
	}
	order := func() { sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off }) }
	order()
	tail, renames := pi.file(fset, f, func(n ast.Node) string {
		return text(fset.Position(n.Pos()).Offset, fset.Position(n.End()).Offset)
	})
	list = append(list, renames...)
	if points > 0 {
		list = append(list, ins{fset.Position(f.Name.End()).Offset, "; import zzsimrt \"runtime\""})
	}
	order()
	return []byte(text(0, len(src)) + tail)
}

func run(dir string, args ...string) []byte {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fail("%s: %v\n%s", strings.Join(args, " "), err, b)
	}
	return b
}

var packageMain = regexp.MustCompile(`(?m)^package main\b`)

// build writes the simulation binary.
func build() {
	must(os.MkdirAll(*work, 0777))
	goroot = strings.TrimSpace(string(run("/", "go", "env", "GOROOT")))
	patchStd()

	// copies of go.mod and go.sum, so that /repo's stay as they are
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	must(os.WriteFile(filepath.Join(*work, "sim.mod"), mod, 0666))
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(*work, "sim.sum"), sum, 0666))

	dec := json.NewDecoder(strings.NewReader(string(run(*repo, "go", "list", "-modfile", filepath.Join(*work, "sim.mod"), "-json=ImportPath,Dir,GoFiles", "./internal/..."))))
	n := 0
	for dec.More() {
		var p pkg
		must(dec.Decode(&p))
		pi := &pkgInit{}
		for _, f := range p.GoFiles {
			src := filepath.Join(p.Dir, f)
			n++
			dst := filepath.Join(*work, "repo", fmt.Sprintf("%03d_%s", n, f))
			must(os.MkdirAll(filepath.Dir(dst), 0777))
			must(os.WriteFile(dst, instrument(src, pi), 0666))
			ov[src] = dst
		}
		if again := pi.register(); again != "" {
			n++
			dst := filepath.Join(*work, "repo", fmt.Sprintf("%03d_zz_init.go", n))
			must(os.WriteFile(dst, []byte(again), 0666))
			ov[filepath.Join(p.Dir, "zz_init.go")] = dst
		}
	}

	// the program's own package, importable under another name
	var root pkg
	must(json.Unmarshal(run(*repo, "go", "list", "-modfile", filepath.Join(*work, "sim.mod"), "-json=ImportPath,Dir,GoFiles", "."), &root))
	pi := &pkgInit{}
	for _, f := range root.GoFiles {
		dst := filepath.Join(*work, "repo", "main_"+f)
		src := packageMain.ReplaceAll(instrument(filepath.Join(root.Dir, f), pi), []byte("package zzmain"))
		must(os.WriteFile(dst, src, 0666))
		ov[filepath.Join(*repo, "internal/zzmain", f)] = dst
	}
	if again := pi.register(); again != "" {
		dst := filepath.Join(*work, "repo", "main_zz_init.go")
		must(os.WriteFile(dst, packageMain.ReplaceAll([]byte(again), []byte("package zzmain")), 0666))
		ov[filepath.Join(*repo, "internal/zzmain/zz_init.go")] = dst
	}
	exp := filepath.Join(*work, "repo", "main_zz_export.go")
	must(os.WriteFile(exp, []byte("package zzmain\n\n// Main runs the program.\nfunc Main() { main() }\n"), 0666))
	ov[filepath.Join(*repo, "internal/zzmain/zz_export.go")] = exp

	hs, err := filepath.Glob(filepath.Join(*verif, "sim/harness/*.go"))
	must(err)
	for _, h := range hs {
		ov[filepath.Join(*repo, "internal/zzverif", filepath.Base(h))] = h
	}
	j, err := json.MarshalIndent(map[string]interface{}{"Replace": ov}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(*work, "overlay.json"), j, 0666))
	args := []string{"go", "build", "-modfile", filepath.Join(*work, "sim.mod"), "-overlay", filepath.Join(*work, "overlay.json"), "-o", *out}
	args = append(args, "./internal/zzverif")
	run(*repo, args...)
}

func main() {
	flag.Parse()
	if *work == "" {
		d, err := os.MkdirTemp("", "simcheck")
		must(err)
		*work = d
		tmp = d
	}
	if *out == "" {
		*out = filepath.Join(*work, "sim")
	}
	code := 0
	switch {
	case *prop != "":
		build()
		code = check()
	case *replay != "":
		build()
		code = replayFile(*replay, os.Stdout)
	default:
		build()
	}
	cleanup()
	os.Exit(code)
}

var tmp string

func cleanup() {
	if tmp != "" {
		os.RemoveAll(tmp)
	}
}
