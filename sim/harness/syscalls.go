//go:build go1.21

package main

import (
	"sync"
	"syscall"
)

// syscalls is the kernel as seen by the code under test: every call is a
// scheduling point and kernel state is accessed by one task at a time.
type syscalls struct {
	mu sync.Mutex
	k  *kernel
}

func (s *syscalls) Open(dirfd int, name string, flags int, mode uint32) (int, error) {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Open(dirfd, name, flags, mode)
}

func (s *syscalls) Close(fd int) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Close(fd)
}

func (s *syscalls) Fsync(fd int) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Fsync(fd)
}

func (s *syscalls) Read(fd int, p []byte) (int, error) {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Read(fd, p)
}

func (s *syscalls) Pread(fd int, p []byte, off int64) (int, error) {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Pread(fd, p, off)
}

func (s *syscalls) Write(fd int, p []byte) (int, error) {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Write(fd, p)
}

func (s *syscalls) Pwrite(fd int, p []byte, off int64) (int, error) {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Pwrite(fd, p, off)
}

func (s *syscalls) Seek(fd int, off int64, whence int) (int64, error) {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Seek(fd, off, whence)
}

func (s *syscalls) Ftruncate(fd int, n int64) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Ftruncate(fd, n)
}

func (s *syscalls) Truncate(name string, n int64) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Truncate(name, n)
}

func (s *syscalls) Fchmod(fd int, mode uint32) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Fchmod(fd, mode)
}

func (s *syscalls) Fstat(fd int, st *syscall.Stat_t) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Fstat(fd, st)
}

func (s *syscalls) Fstatat(dirfd int, name string, st *syscall.Stat_t, flags int) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Fstatat(dirfd, name, st, flags)
}

func (s *syscalls) Rename(from, to string) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Rename(from, to)
}

func (s *syscalls) Link(from, to string) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Link(from, to)
}

func (s *syscalls) Unlink(name string, flags int) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Unlink(name, flags)
}

func (s *syscalls) Mkdir(name string, mode uint32) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Mkdir(name, mode)
}

func (s *syscalls) Meta(call, name string, fd int, arg uint32) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Meta(call, name, fd, arg)
}

func (s *syscalls) Getdents(fd int, buf []byte) (int, error) {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Getdents(fd, buf)
}

func (s *syscalls) Unsupported(name string) error {
	simYield()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.k.Unsupported(name)
}

var _ syscall.SimKernel = (*syscalls)(nil)
