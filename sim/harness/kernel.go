//go:build go1.21

package main

// Simulated kernel: an in-memory file system with POSIX-like semantics for the
// calls a Go program makes, a fault plan, and a log of every mutation, from
// which the image left behind by a crash at any instant can be rebuilt.

import (
	"encoding/binary"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
)

// Fault makes the Nth call (1-based) of kind Call on a matching path misbehave.
type Fault struct {
	Call string `json:"call"`           // open write pwrite read seek close fsync ftruncate rename
	Nth  int    `json:"nth"`            // which call of that kind
	Kind string `json:"kind"`           // errno name, "short", "delayed"
	Arg  int    `json:"arg,omitempty"`  // short: bytes done; close/fsync errors: bytes lost
	Path string `json:"path,omitempty"` // restrict to one file
}

func (f Fault) soft() bool { return f.Kind == "short" || f.Kind == "EINTR" }

// KSpec configures the simulated machine's storage.
type KSpec struct {
	Faults   []Fault           `json:"faults,omitempty"`
	Capacity int64             `json:"capacity,omitempty"` // disk size in bytes, 0 = unlimited
	Quota    int64             `json:"quota,omitempty"`    // like Capacity but reported only at close/fsync (delayed allocation)
	WriteMax int               `json:"write_max,omitempty"`
	ReadMax  int               `json:"read_max,omitempty"`
	Prior    map[string]Prior  `json:"prior,omitempty"`
	Special  map[string]string `json:"special,omitempty"` // path -> "fifo", "dir", "rofile"
}

// Prior describes what a path holds before the run.
type Prior struct {
	Kind string `json:"kind"` // "bytes": Size pseudo-random bytes, "stl": a complete STL of N triangles, "3mf"
	Size int    `json:"size,omitempty"`
	N    int    `json:"n,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

type inode struct {
	data []byte
	kind string // "", "fifo", "dir", "rofile"
	mode uint32
}

type ofd struct {
	ino   *inode
	path  string
	off   int64
	flags int
	wrote bool
}

// mut is one logged mutation. Torn variants of writes apply only a prefix.
type mut struct {
	op   string // create trunc write unlink rename
	path string
	ino  *inode
	off  int64
	data []byte
	n    int64
	to   string
}

type kernel struct {
	spec    KSpec
	files   map[string]*inode
	fds     map[int]*ofd
	next    int
	counts  map[string]int
	fired   map[string]int // faults that really happened
	hard    int            // hard faults that fired
	hardAt  map[string]int // hard faults by path
	log     []mut
	initial map[string][]byte
	used    int64
	stdout  int
	calls   int
	trace   []string
	bad     []string // calls the simulator does not model
	tmpSeq  int
	opened  int
}

const cwd = "/simfs"

var fdSeq = syscall.SimFDBase

func newKernel(spec KSpec) *kernel {
	k := &kernel{
		spec: spec, files: map[string]*inode{}, fds: map[int]*ofd{}, counts: map[string]int{},
		fired: map[string]int{}, hardAt: map[string]int{}, initial: map[string][]byte{},
	}
	for _, d := range []string{"/", cwd, "/simfs/tmp", "/tmp", "/simfs/d0", "/simfs/d1", "/simfs/d2", "/simfs/d3"} {
		k.files[d] = &inode{kind: "dir", mode: 0o755}
	}
	for _, p := range sortedKeys(spec.Special) {
		k.files[p] = &inode{kind: spec.Special[p], mode: 0o644}
	}
	for _, p := range sortedPriors(spec.Prior) {
		b := spec.Prior[p].bytes()
		k.files[p] = &inode{data: b, mode: 0o644}
		k.initial[p] = append([]byte(nil), b...)
		k.used += int64(len(b))
	}
	return k
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedPriors(m map[string]Prior) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return path.Clean(p)
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EDQUOT": syscall.EDQUOT, "EFBIG": syscall.EFBIG,
	"EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "EROFS": syscall.EROFS,
	"EISDIR": syscall.EISDIR, "ENOENT": syscall.ENOENT, "ESPIPE": syscall.ESPIPE, "EINVAL": syscall.EINVAL,
	"EINTR": syscall.EINTR, "EPIPE": syscall.EPIPE, "ENOTDIR": syscall.ENOTDIR, "EPERM": syscall.EPERM,
	"ENOMEM": syscall.ENOMEM, "EBADF": syscall.EBADF, "ETXTBSY": syscall.ETXTBSY, "ELOOP": syscall.ELOOP,
}

// enter counts a call and returns the fault planned for it, if any. Every
// system call is also a scheduling point (see syscalls).
func (k *kernel) enter(call, p string) *Fault {
	k.calls++
	k.counts[call]++
	n := k.counts[call]
	np := 0
	if p != "" {
		k.counts[call+" "+p]++
		np = k.counts[call+" "+p]
	}
	for i := range k.spec.Faults {
		f := &k.spec.Faults[i]
		if f.Call != call {
			continue
		}
		if f.Path == "" && f.Nth == n || f.Path != "" && f.Path == p && f.Nth == np {
			return f
		}
	}
	return nil
}

func (k *kernel) fire(f *Fault, p string) {
	k.fired[f.Call+":"+f.Kind]++
	if !f.soft() {
		k.hard++
		k.hardAt[p]++
	}
}

func (k *kernel) tracef(format string, args ...interface{}) {
	if len(k.trace) < 4000 {
		k.trace = append(k.trace, fmt.Sprintf(format, args...))
	}
}

func (k *kernel) Open(dirfd int, name string, flags int, mode uint32) (int, error) {
	p := clean(name)
	f := k.enter("open", p)
	if f != nil {
		k.fire(f, p)
		k.tracef("open %s = %s", p, f.Kind)
		return -1, errnos[f.Kind]
	}
	ino := k.files[p]
	acc := flags & syscall.O_ACCMODE
	if ino == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT
		}
		dir := k.files[path.Dir(p)]
		if dir == nil {
			return -1, syscall.ENOENT
		}
		if dir.kind != "dir" {
			return -1, syscall.ENOTDIR
		}
		ino = &inode{mode: mode & 0o777}
		k.files[p] = ino
		k.log = append(k.log, mut{op: "create", path: p, ino: ino})
	} else {
		if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			return -1, syscall.EEXIST
		}
		switch ino.kind {
		case "dir":
			if acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0 {
				return -1, syscall.EISDIR
			}
		case "rofile":
			if acc != syscall.O_RDONLY {
				return -1, syscall.EACCES
			}
		}
		// The reader of a pipe sees the end of the stream when its last writer
		// closes, so the next writer starts a new one.
		fresh := ino.kind == "fifo" && acc != syscall.O_RDONLY && !k.hasWriter(ino)
		if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY && ino.kind == "" || fresh {
			k.used -= int64(len(ino.data))
			ino.data = nil
			k.log = append(k.log, mut{op: "trunc", path: p, ino: ino, n: 0})
		}
	}
	fd := fdSeq
	fdSeq++
	k.opened++
	k.fds[fd] = &ofd{ino: ino, path: p, flags: flags}
	k.tracef("open %s flags=%#x", p, flags)
	return fd, nil
}

// hasWriter reports whether a descriptor open for writing refers to ino.
func (k *kernel) hasWriter(ino *inode) bool {
	for _, o := range k.fds {
		if o.ino == ino && o.flags&syscall.O_ACCMODE != syscall.O_RDONLY {
			return true
		}
	}
	return false
}

func (k *kernel) get(fd int) (*ofd, error) {
	o := k.fds[fd]
	if o == nil {
		return nil, syscall.EBADF
	}
	return o, nil
}

// lose drops the last n bytes the file's writer believed written: the data was
// still in a cache when the device or server refused it.
func (k *kernel) lose(o *ofd, n int) {
	if n <= 0 {
		n = 1
	}
	if n > len(o.ino.data) {
		n = len(o.ino.data)
	}
	keep := len(o.ino.data) - n
	o.ino.data = o.ino.data[:keep:keep]
	k.log = append(k.log, mut{op: "trunc", path: o.path, ino: o.ino, n: int64(keep)})
}

// overQuota reports whether the file holds data beyond the delayed quota and
// drops that data.
func (k *kernel) overQuota(o *ofd) bool {
	if k.spec.Quota <= 0 || o.ino.kind == "fifo" || int64(len(o.ino.data)) <= k.spec.Quota {
		return false
	}
	k.lose(o, int(int64(len(o.ino.data))-k.spec.Quota))
	return true
}

func (k *kernel) Close(fd int) error {
	if fd < 0 {
		return syscall.EBADF
	}
	o, err := k.get(fd)
	if err != nil {
		return nil // a descriptor of an earlier run, closed by a cleanup
	}
	f := k.enter("close", o.path)
	delete(k.fds, fd) // Linux releases the descriptor even when close fails
	if f != nil && o.wrote && o.ino.kind != "fifo" {
		k.fire(f, o.path)
		k.lose(o, f.Arg)
		k.tracef("close %s = %s (lost %d bytes)", o.path, f.Kind, f.Arg)
		return errnos[f.Kind]
	}
	if o.wrote && k.overQuota(o) {
		k.fire(&Fault{Call: "close", Kind: "EDQUOT"}, o.path)
		k.tracef("close %s = EDQUOT", o.path)
		return syscall.EDQUOT
	}
	k.tracef("close %s", o.path)
	return nil
}

func (k *kernel) Fsync(fd int) error {
	o, err := k.get(fd)
	if err != nil {
		return err
	}
	f := k.enter("fsync", o.path)
	if o.ino.kind == "fifo" {
		return syscall.EINVAL
	}
	if f != nil {
		k.fire(f, o.path)
		if !f.soft() {
			k.lose(o, f.Arg)
		}
		return errnos[f.Kind]
	}
	if o.wrote && k.overQuota(o) {
		k.fire(&Fault{Call: "fsync", Kind: "EDQUOT"}, o.path)
		return syscall.EDQUOT
	}
	return nil
}

func (k *kernel) Read(fd int, p []byte) (int, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	n, err := k.readAt("read", o, p, o.off)
	if n > 0 {
		o.off += int64(n)
	}
	return n, err
}

func (k *kernel) Pread(fd int, p []byte, off int64) (int, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	return k.readAt("pread", o, p, off)
}

func (k *kernel) readAt(call string, o *ofd, p []byte, off int64) (int, error) {
	f := k.enter(call, o.path)
	if f != nil && f.Kind != "short" {
		k.fire(f, o.path)
		return -1, errnos[f.Kind]
	}
	if o.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return -1, syscall.EBADF
	}
	if o.ino.kind == "dir" {
		return -1, syscall.EISDIR
	}
	if off >= int64(len(o.ino.data)) {
		return 0, nil
	}
	max := len(p)
	if k.spec.ReadMax > 0 && max > k.spec.ReadMax {
		max = k.spec.ReadMax
	}
	if f != nil && f.Arg >= 1 && max > f.Arg {
		k.fire(f, o.path)
		max = f.Arg
	}
	return copy(p[:max], o.ino.data[off:]), nil
}

func (k *kernel) Write(fd int, p []byte) (int, error) {
	if fd == 1 || fd == 2 {
		k.stdout += len(p)
		return len(p), nil
	}
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	off := o.off
	if o.flags&syscall.O_APPEND != 0 {
		off = int64(len(o.ino.data))
	}
	n, err := k.writeAt("write", o, p, off)
	if n > 0 {
		o.off = off + int64(n)
	}
	return n, err
}

func (k *kernel) Pwrite(fd int, p []byte, off int64) (int, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	return k.writeAt("pwrite", o, p, off)
}

func (k *kernel) writeAt(call string, o *ofd, p []byte, off int64) (int, error) {
	f := k.enter("write", o.path)
	if f != nil && f.Kind != "short" {
		k.fire(f, o.path)
		k.tracef("write %s off=%d len=%d = %s", o.path, off, len(p), f.Kind)
		return -1, errnos[f.Kind]
	}
	if o.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return -1, syscall.EBADF
	}
	if o.ino.kind == "fifo" {
		off = int64(len(o.ino.data))
	}
	n := len(p)
	if k.spec.WriteMax > 0 && n > k.spec.WriteMax {
		n = k.spec.WriteMax
		k.fired["write:short"]++
	}
	if f != nil && f.Arg >= 1 && n > f.Arg {
		n = f.Arg
		k.fire(f, o.path)
	}
	if k.spec.Capacity > 0 && n > 0 {
		grow := off + int64(n) - int64(len(o.ino.data))
		if grow > 0 && k.used+grow > k.spec.Capacity {
			n -= int(k.used + grow - k.spec.Capacity)
			k.fire(&Fault{Call: "write", Kind: "ENOSPC"}, o.path)
			if n <= 0 {
				k.tracef("write %s off=%d len=%d = ENOSPC", o.path, off, len(p))
				return -1, syscall.ENOSPC
			}
		}
	}
	b := append([]byte(nil), p[:n]...)
	before := len(o.ino.data)
	o.ino.put(off, b)
	k.used += int64(len(o.ino.data) - before)
	o.wrote = true
	k.log = append(k.log, mut{op: "write", path: o.path, ino: o.ino, off: off, data: b})
	k.tracef("write %s off=%d len=%d = %d", o.path, off, len(p), n)
	return n, nil
}

func (i *inode) put(off int64, b []byte) {
	end := off + int64(len(b))
	if int64(len(i.data)) < end {
		if int64(cap(i.data)) < end {
			d := make([]byte, end, end*2)
			copy(d, i.data)
			i.data = d
		} else {
			old := len(i.data)
			i.data = i.data[:end]
			for j := old; j < int(end); j++ {
				i.data[j] = 0
			}
		}
	}
	copy(i.data[off:], b)
}

func (k *kernel) Seek(fd int, off int64, whence int) (int64, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	f := k.enter("seek", o.path)
	if f != nil {
		k.fire(f, o.path)
		k.tracef("lseek %s = %s", o.path, f.Kind)
		return -1, errnos[f.Kind]
	}
	if o.ino.kind == "fifo" {
		k.fired["seek:fifo"]++
		return -1, syscall.ESPIPE
	}
	switch whence {
	case 1:
		off += o.off
	case 2:
		off += int64(len(o.ino.data))
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	o.off = off
	k.tracef("lseek %s = %d", o.path, off)
	return off, nil
}

func (k *kernel) truncTo(p string, ino *inode, n int64) {
	before := len(ino.data)
	if int64(len(ino.data)) > n {
		ino.data = ino.data[:n:n]
	} else if int64(len(ino.data)) < n {
		ino.put(n-1, []byte{0})
	}
	k.used += int64(len(ino.data) - before)
	k.log = append(k.log, mut{op: "trunc", path: p, ino: ino, n: n})
}

func (k *kernel) Ftruncate(fd int, n int64) error {
	o, err := k.get(fd)
	if err != nil {
		return err
	}
	if f := k.enter("ftruncate", o.path); f != nil {
		k.fire(f, o.path)
		return errnos[f.Kind]
	}
	if n < 0 || o.ino.kind == "fifo" {
		return syscall.EINVAL
	}
	k.truncTo(o.path, o.ino, n)
	o.wrote = true
	return nil
}

func (k *kernel) Truncate(name string, n int64) error {
	p := clean(name)
	if f := k.enter("ftruncate", p); f != nil {
		k.fire(f, p)
		return errnos[f.Kind]
	}
	ino := k.files[p]
	if ino == nil {
		return syscall.ENOENT
	}
	k.truncTo(p, ino, n)
	return nil
}

func (k *kernel) Fchmod(fd int, mode uint32) error {
	o, err := k.get(fd)
	if err != nil {
		return err
	}
	k.enter("fchmod", o.path)
	o.ino.mode = mode
	return nil
}

func (k *kernel) fillStat(ino *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Size = int64(len(ino.data))
	st.Nlink = 1
	st.Blksize = 4096
	st.Mode = ino.mode
	switch ino.kind {
	case "dir":
		st.Mode |= syscall.S_IFDIR
	case "fifo":
		st.Mode |= syscall.S_IFIFO
	default:
		st.Mode |= syscall.S_IFREG
	}
}

func (k *kernel) Fstat(fd int, st *syscall.Stat_t) error {
	o, err := k.get(fd)
	if err != nil {
		return err
	}
	k.enter("fstat", o.path)
	k.fillStat(o.ino, st)
	return nil
}

func (k *kernel) Fstatat(dirfd int, name string, st *syscall.Stat_t, flags int) error {
	p := clean(name)
	k.enter("stat", p)
	ino := k.files[p]
	if ino == nil {
		return syscall.ENOENT
	}
	k.fillStat(ino, st)
	return nil
}

func (k *kernel) Rename(from, to string) error {
	a, b := clean(from), clean(to)
	if f := k.enter("rename", b); f != nil {
		k.fire(f, b)
		return errnos[f.Kind]
	}
	ino := k.files[a]
	if ino == nil {
		return syscall.ENOENT
	}
	if t := k.files[b]; t != nil && t.kind == "dir" {
		return syscall.EISDIR
	}
	if t := k.files[b]; t != nil && t != ino {
		k.used -= int64(len(t.data))
	}
	delete(k.files, a)
	k.files[b] = ino
	k.log = append(k.log, mut{op: "rename", path: a, to: b, ino: ino})
	return nil
}

func (k *kernel) Link(from, to string) error {
	a, b := clean(from), clean(to)
	k.enter("link", b)
	ino := k.files[a]
	if ino == nil {
		return syscall.ENOENT
	}
	if k.files[b] != nil {
		return syscall.EEXIST
	}
	k.files[b] = ino
	k.log = append(k.log, mut{op: "link", path: b, ino: ino})
	return nil
}

func (k *kernel) Unlink(name string, flags int) error {
	p := clean(name)
	k.enter("unlink", p)
	ino := k.files[p]
	if ino == nil {
		return syscall.ENOENT
	}
	if (ino.kind == "dir") != (flags&0x200 != 0) {
		if ino.kind == "dir" {
			return syscall.EISDIR
		}
		return syscall.ENOTDIR
	}
	delete(k.files, p)
	k.used -= int64(len(ino.data))
	k.log = append(k.log, mut{op: "unlink", path: p, ino: ino})
	return nil
}

func (k *kernel) Mkdir(name string, mode uint32) error {
	p := clean(name)
	k.enter("mkdir", p)
	if k.files[p] != nil {
		return syscall.EEXIST
	}
	k.files[p] = &inode{kind: "dir", mode: mode & 0o777}
	return nil
}

// Meta serves the calls that concern only a file's metadata.
func (k *kernel) Meta(call, name string, fd int, arg uint32) error {
	var ino *inode
	if fd >= 0 {
		o, err := k.get(fd)
		if err != nil {
			return err
		}
		k.enter(call, o.path)
		ino = o.ino
	} else {
		p := clean(name)
		k.enter(call, p)
		if call == "symlink" {
			return syscall.EPERM // as on a file system without symbolic links
		}
		if ino = k.files[p]; ino == nil {
			return syscall.ENOENT
		}
	}
	switch call {
	case "chmod":
		ino.mode = arg & 0o7777
	case "access":
		if arg&2 != 0 && ino.kind == "rofile" {
			return syscall.EACCES
		}
	case "readlink":
		return syscall.EINVAL // nothing is a symbolic link
	case "sync_file_range":
		if ino.kind == "fifo" {
			return syscall.ESPIPE
		}
	}
	return nil
}

// Getdents lists a directory; the descriptor's offset counts the entries
// already returned.
func (k *kernel) Getdents(fd int, buf []byte) (int, error) {
	o, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	k.enter("getdents", o.path)
	if o.ino.kind != "dir" {
		return -1, syscall.ENOTDIR
	}
	var names []string
	for p := range k.files {
		if p != "/" && path.Dir(p) == o.path {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	n := 0
	for ; o.off < int64(len(names)); o.off++ {
		p := names[o.off]
		base := path.Base(p)
		size := (19 + len(base) + 1 + 7) &^ 7
		if n+size > len(buf) {
			if n == 0 {
				return -1, syscall.EINVAL
			}
			break
		}
		e := buf[n : n+size]
		for i := range e {
			e[i] = 0
		}
		binary.LittleEndian.PutUint64(e, uint64(o.off)+1)     // ino, must not be zero
		binary.LittleEndian.PutUint64(e[8:], uint64(o.off)+1) // off
		binary.LittleEndian.PutUint16(e[16:], uint16(size))
		e[18] = syscall.DT_REG
		switch k.files[p].kind {
		case "dir":
			e[18] = syscall.DT_DIR
		case "fifo":
			e[18] = syscall.DT_FIFO
		}
		copy(e[19:], base)
		n += size
	}
	return n, nil
}

func (k *kernel) Unsupported(name string) error {
	k.bad = append(k.bad, name)
	return syscall.ENOSYS
}

// content returns the bytes at path; ok is false when nothing is there.
func (k *kernel) content(p string) ([]byte, bool) {
	ino := k.files[p]
	if ino == nil || ino.kind == "dir" {
		return nil, false
	}
	return ino.data, true
}

// image is the set of files a crash leaves behind.
type image map[string][]byte

// crashImages calls visit for the state after every logged mutation (the
// process died right after system call i) and, for write i, for torn prefixes
// chosen by torn. It stops when visit returns false.
func (k *kernel) crashImages(torn func(i, n int) []int, visit func(i, tornAt int, get func(p string) ([]byte, bool)) bool) {
	names := map[string]*inode{}
	data := map[*inode][]byte{}
	for p, b := range k.initial {
		// The inode that held p at the start: recover it from the log or the
		// final state.
		ino := k.initialInode(p)
		names[p] = ino
		data[ino] = append([]byte(nil), b...)
	}
	get := func(p string) ([]byte, bool) {
		ino, ok := names[p]
		if !ok {
			return nil, false
		}
		return data[ino], true
	}
	if !visit(0, -1, get) {
		return
	}
	for i, m := range k.log {
		switch m.op {
		case "create":
			names[m.path] = m.ino
			data[m.ino] = nil
		case "link":
			names[m.path] = m.ino
		case "trunc":
			d := data[m.ino]
			if int64(len(d)) > m.n {
				d = append([]byte(nil), d[:m.n]...)
			} else if int64(len(d)) < m.n {
				d = append(append([]byte(nil), d...), make([]byte, m.n-int64(len(d)))...)
			}
			data[m.ino] = d
		case "write":
			old := data[m.ino]
			apply := func(n int) []byte {
				end := int(m.off) + n
				if n == 0 {
					return old
				}
				sz := len(old)
				if end > sz {
					sz = end
				}
				d := make([]byte, sz)
				copy(d, old)
				copy(d[m.off:], m.data[:n])
				return d
			}
			for _, n := range torn(i, len(m.data)) {
				if n > 0 && n < len(m.data) {
					data[m.ino] = apply(n)
					if !visit(i+1, n, get) {
						return
					}
				}
			}
			data[m.ino] = apply(len(m.data))
		case "unlink":
			delete(names, m.path)
		case "rename":
			delete(names, m.path)
			names[m.to] = m.ino
		}
		if !visit(i+1, -1, get) {
			return
		}
	}
}

func (k *kernel) initialInode(p string) *inode {
	for _, m := range k.log {
		switch {
		case m.op == "rename" && m.to == p:
			// p was replaced before being written in place: use a private inode.
			return &inode{}
		case m.path == p:
			return m.ino
		}
	}
	if ino := k.files[p]; ino != nil {
		return ino
	}
	return &inode{}
}
