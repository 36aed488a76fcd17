// The simulated kernel's seam, added to package syscall by the overlay.

package syscall

import "runtime"

// SimKernel is the simulated kernel.
type SimKernel interface {
	Openat(dirfd int, path string, flags int, mode uint32) (int, error)
	Close(fd int) error
	Read(fd int, p []byte) (int, error)
	Write(fd int, p []byte) (int, error)
	Pread(fd int, p []byte, off int64) (int, error)
	Pwrite(fd int, p []byte, off int64) (int, error)
	Seek(fd int, off int64, whence int) (int64, error)
	Fstat(fd int, st *Stat_t) error
	Fstatat(dirfd int, path string, st *Stat_t, flags int) error
	Faccessat(dirfd int, path string, mode uint32) error
	Ftruncate(fd int, n int64) error
	Truncate(path string, n int64) error
	Unlinkat(dirfd int, path string, flags int) error
	Mkdirat(dirfd int, path string, mode uint32) error
	Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error
	Linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) error
	Fsync(fd int) error
	Getdents(fd int, p []byte) (int, error)
	Getcwd(p []byte) (int, error)
	Pipe2() (int, int, error)
	Dup(fd int) (int, error)
	Chmod(path string, mode uint32) error
	Fchmod(fd int, mode uint32) error
	Wait4(pid int, options int) (int, WaitStatus, error)
	Kill(pid int, sig Signal) error
	ForkExec(argv0 string, argv []string, attr *ProcAttr) (int, error)
}

// SimK is the simulated kernel used by goroutines of a simulated run.
var SimK SimKernel

func simK() SimKernel {
	if SimK != nil && runtime.SimIn() {
		return SimK
	}
	return nil
}
