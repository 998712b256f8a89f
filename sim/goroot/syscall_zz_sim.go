// Simulated kernel seam: added to package syscall through "go build -overlay"
// by /verif/vsim.py. It is never part of /repo. With SimK nil (the default)
// every wrapper behaves as shipped.
package syscall

// SimKernel receives the system calls of the code under test.
type SimKernel interface {
	Open(dirfd int, path string, flags int, mode uint32) (int, error)
	Close(fd int) error
	Read(fd int, p []byte) (int, error)
	Write(fd int, p []byte) (int, error)
	Pread(fd int, p []byte, off int64) (int, error)
	Pwrite(fd int, p []byte, off int64) (int, error)
	Seek(fd int, off int64, whence int) (int64, error)
	Fsync(fd int) error
	Ftruncate(fd int, n int64) error
	Truncate(path string, n int64) error
	Fchmod(fd int, mode uint32) error
	Fstat(fd int, st *Stat_t) error
	Fstatat(dirfd int, path string, st *Stat_t, flags int) error
	Rename(old, new string) error
	Link(old, new string) error
	Unlink(path string, flags int) error
	Mkdir(path string, mode uint32) error
	// Meta is a call on the metadata of path, or of fd when path is empty.
	Meta(call, path string, fd int, arg uint32) error
	Getdents(fd int, buf []byte) (int, error)
	Unsupported(name string) error
}

// SimFDBase is the first descriptor number handed out by the simulated kernel.
const SimFDBase = 1 << 20

// SimK, when set, receives every path-based call, every call on a descriptor
// >= SimFDBase, and every write to descriptors 1 and 2.
var SimK SimKernel

// SimPID is the process id of the simulated process.
var SimPID = 4711

// SimUID and SimHost are the user and the machine of the simulated process.
var (
	SimUID  = 1000
	SimHost = "host"
)

func simUname(buf *Utsname) error {
	*buf = Utsname{}
	put := func(to *[65]int8, s string) {
		for i := 0; i < len(s) && i < 64; i++ {
			to[i] = int8(s[i])
		}
	}
	put(&buf.Sysname, "Linux")
	put(&buf.Nodename, SimHost)
	put(&buf.Release, "6.1.0")
	put(&buf.Machine, "x86_64")
	return nil
}

func simFD(fd int) bool { return fd >= SimFDBase }
