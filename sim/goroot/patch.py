"""Derive the simulation-mode runtime, syscall and time packages from the
installed Go tree by anchored text replacement. Every anchor must match exactly
once, otherwise the build fails loudly."""
import os, re

class PatchError(Exception):
    pass

def sub1(text, old, new, what):
    n = text.count(old)
    if n != 1:
        raise PatchError("anchor for %s found %d times" % (what, n))
    return text.replace(old, new)

def patch_goroot(goroot, out, here):
    src = os.path.join(goroot, "src")
    over = {}
    def rd(rel):
        with open(os.path.join(src, rel)) as f:
            return f.read()
    def wr(rel, text):
        p = os.path.join(out, "goroot", rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        over[os.path.join(src, rel)] = p
    # --- runtime scheduler
    t = rd("runtime/proc.go")
    t = sub1(t, "\t// Check the global runnable queue once in a while to ensure fairness.\n",
             "\tif sim.on {\n\t\tif gp := simPick(pp); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n"
             "\t// Check the global runnable queue once in a while to ensure fairness.\n", "findRunnable")
    t = sub1(t, "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif sim.on {\n\t\treturn false\n\t}\n", "preemptone")
    t = sub1(t, "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif sim.on {\n\t\treturn 0\n\t}\n", "retake")
    t = sub1(t, "if randomizeScheduler && next && randn(2) == 0 {", "if randomizeScheduler && !sim.on && next && randn(2) == 0 {", "runqput")
    t = sub1(t, "func goexit1() {\n\tif raceenabled {\n", "func goexit1() {\n\tif raceenabled {\n\t\tsimRaceExit()\n", "goexit1")
    wr("runtime/proc.go", t)
    t = rd("runtime/select.go")
    t = sub1(t, "j := cheaprandn(uint32(norder + 1))", "j := simRandn(uint32(norder + 1))", "selectgo")
    wr("runtime/select.go", t)
    # --- clock
    t = rd("runtime/time_nofake.go")
    t = sub1(t, "func nanotime() int64 {\n", "func nanotime() int64 {\n\tif sim.on {\n\t\treturn sim.clock\n\t}\n", "nanotime")
    wr("runtime/time_nofake.go", t)
    t = rd("runtime/time.go")
    t = sub1(t, "func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n",
             "func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n\tif sim.on {\n\t\treturn simNow()\n\t}\n", "runtimeNow")
    t = sub1(t, "t.rand = cheaprand()", "t.rand = simRandn(1 << 31)", "timer tie break")
    wr("runtime/time.go", t)
    # --- randomness
    t = rd("runtime/rand.go")
    i = t.index("\tif len(startupRand) >= 16 &&")
    j = t.index("\tglobalRand.state.Init(*seed)")
    if t.count("\tif len(startupRand) >= 16 &&") != 1 or t.count("\tglobalRand.state.Init(*seed)") != 1:
        raise PatchError("randinit")
    t = t[:i] + "\tfor i := range seed {\n\t\tseed[i] = byte(i*37 + 11)\n\t}\n" + t[j:]
    t = sub1(t, "func bootstrapRandReseed() {\n", "func bootstrapRandReseed() {\n\tif true {\n\t\treturn\n\t}\n", "bootstrapRandReseed")
    t = sub1(t, "func rand() uint64 {\n", "func rand() uint64 {\n\tif sim.on {\n\t\tif gp := getg(); gp == gp.m.curg {\n\t\t\treturn simMix(&sim.rand)\n\t\t}\n\t}\n", "rand")
    wr("runtime/rand.go", t)
    with open(os.path.join(here, "runtime_zz_sim.go")) as f:
        wr("runtime/zz_sim.go", f.read())
    # --- environment: number of processors, process ids, system entropy
    t = rd("runtime/debug.go")
    t = sub1(t, "func NumCPU() int {\n", "func NumCPU() int {\n\tif simCPUs != 0 {\n\t\treturn simCPUs\n\t}\n", "NumCPU")
    t = sub1(t, "func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n\tif simCPUs != 0 {\n\t\treturn simSetProcs(n)\n\t}\n", "GOMAXPROCS")
    wr("runtime/debug.go", t)
    t = rd("crypto/internal/sysrand/rand.go")
    t = sub1(t, "func Read(b []byte) {\n", "func Read(b []byte) {\n\tif runtime.SimFill(b) {\n\t\treturn\n\t}\n", "sysrand")
    t = sub1(t, 'import (\n', 'import (\n\t"runtime"\n', "sysrand imports")
    wr("crypto/internal/sysrand/rand.go", t)
    # --- system calls
    t = rd("syscall/zsyscall_linux_amd64.go")
    def hook(sig, body):
        nonlocal t
        t = sub1(t, sig + "\n", sig + "\n" + body + "\n", sig)
    FD = "\tif simFD(fd) && SimK != nil {\n\t\treturn SimK.%s\n\t}"
    P = "\tif SimK != nil {\n\t\treturn SimK.%s\n\t}"
    hook("func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {", P % "Open(dirfd, path, flags, mode)")
    hook("func Close(fd int) (err error) {", "\tif simFD(fd) {\n\t\tif SimK == nil {\n\t\t\treturn nil\n\t\t}\n\t\treturn SimK.Close(fd)\n\t}")
    hook("func read(fd int, p []byte) (n int, err error) {", FD % "Read(fd, p)")
    hook("func write(fd int, p []byte) (n int, err error) {", "\tif SimK != nil && (simFD(fd) || fd == 1 || fd == 2) {\n\t\treturn SimK.Write(fd, p)\n\t}")
    hook("func pread(fd int, p []byte, offset int64) (n int, err error) {", FD % "Pread(fd, p, offset)")
    hook("func pwrite(fd int, p []byte, offset int64) (n int, err error) {", FD % "Pwrite(fd, p, offset)")
    hook("func Seek(fd int, offset int64, whence int) (off int64, err error) {", FD % "Seek(fd, offset, whence)")
    hook("func Fsync(fd int) (err error) {", FD % "Fsync(fd)")
    hook("func Fdatasync(fd int) (err error) {", FD % "Fsync(fd)")
    hook("func Ftruncate(fd int, length int64) (err error) {", FD % "Ftruncate(fd, length)")
    hook("func Truncate(path string, length int64) (err error) {", P % "Truncate(path, length)")
    hook("func Fchmod(fd int, mode uint32) (err error) {", FD % "Fchmod(fd, mode)")
    hook("func Fstat(fd int, stat *Stat_t) (err error) {", FD % "Fstat(fd, stat)")
    hook("func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {", P % "Fstatat(fd, path, stat, flags)")
    hook("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {", P % "Rename(oldpath, newpath)")
    hook("func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {", P % "Link(oldpath, newpath)")
    hook("func unlinkat(dirfd int, path string, flags int) (err error) {", P % "Unlink(path, flags)")
    hook("func Mkdirat(dirfd int, path string, mode uint32) (err error) {", P % "Mkdir(path, mode)")
    hook("func Fallocate(fd int, mode uint32, off int64, len int64) (err error) {", FD % 'Unsupported("fallocate")')
    hook("func Dup(oldfd int) (fd int, err error) {", "\tif simFD(oldfd) && SimK != nil {\n\t\treturn -1, SimK.Unsupported(\"dup\")\n\t}")
    M = "\tif SimK != nil {\n\t\treturn SimK.Meta(%s)\n\t}"
    MF = "\tif simFD(fd) && SimK != nil {\n\t\treturn SimK.Meta(%s)\n\t}"
    hook("func fchmodat(dirfd int, path string, mode uint32) (err error) {", M % '"chmod", path, -1, mode')
    hook("func fchmodat2(dirfd int, path string, mode uint32, flags int) (err error) {", M % '"chmod", path, -1, mode')
    hook("func Fchownat(dirfd int, path string, uid int, gid int, flags int) (err error) {", M % '"chown", path, -1, 0')
    hook("func Fchown(fd int, uid int, gid int) (err error) {", MF % '"chown", "", fd, 0')
    hook("func faccessat(dirfd int, path string, mode uint32) (err error) {", M % '"access", path, -1, mode')
    hook("func faccessat2(dirfd int, path string, mode uint32, flags int) (err error) {", M % '"access", path, -1, mode')
    hook("func Flock(fd int, how int) (err error) {", MF % '"flock", "", fd, uint32(how)')
    hook("func utimensat(dirfd int, path string, times *[2]Timespec, flag int) (err error) {", M % '"utimens", path, -1, 0')
    hook("func symlinkat(oldpath string, newdirfd int, newpath string) (err error) {", M % '"symlink", newpath, -1, 0')
    hook("func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {", "\tif SimK != nil {\n\t\treturn -1, SimK.Meta(\"readlink\", path, -1, 0)\n\t}")
    hook("func Getdents(fd int, buf []byte) (n int, err error) {", FD % "Getdents(fd, buf)")
    hook("func SyncFileRange(fd int, off int64, n int64, flags int) (err error) {", MF % '"sync_file_range", "", fd, 0')
    hook("func Getpid() (pid int) {", "\tif SimK != nil {\n\t\treturn SimPID\n\t}")
    hook("func Getppid() (ppid int) {", "\tif SimK != nil {\n\t\treturn SimPID - 1\n\t}")
    hook("func Getuid() (uid int) {", "\tif SimK != nil {\n\t\treturn SimUID\n\t}")
    hook("func Uname(buf *Utsname) (err error) {", "\tif SimK != nil {\n\t\treturn simUname(buf)\n\t}")
    wr("syscall/zsyscall_linux_amd64.go", t)
    with open(os.path.join(here, "syscall_zz_sim.go")) as f:
        wr("syscall/zz_sim.go", f.read())
    t = rd("internal/syscall/unix/copy_file_range_unix.go")
    t = sub1(t, "(n int, err error) {\n", "(n int, err error) {\n\tif rfd >= syscall.SimFDBase || wfd >= syscall.SimFDBase {\n\t\treturn 0, syscall.ENOSYS\n\t}\n", "CopyFileRange")
    wr("internal/syscall/unix/copy_file_range_unix.go", t)
    return over
