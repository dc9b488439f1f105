// The system calls the library does its file access with, as seen by a driver: scheduling points before each of them,
// transfers cut short, and errors at a chosen call. Only files below the scratch directory are affected.
#pragma once
#include "vd.h"
#include <sys/syscall.h>
#include <stdarg.h>
#include <atomic>

namespace vio {
enum Kind { READ, WRITE, TRUNC, OPEN, SEEK, STAT, CLOSE, NKIND };
inline const char * kind_name(int k) { static const char * n[] = {"read", "write", "truncate", "open", "seek", "stat", "close"}; return n[k]; }
struct St {
	std::string root;                   // affected files lie below this
	bool tracked[4096] = {};
	int shortPct = 0;                   // chance that a transfer is cut short
	uint64_t rng = 88172645463325252ull;
	long calls[NKIND] = {};             // calls of each kind since reset
	long allCalls = 0;
	int failMask = 0;                   // bit per Kind
	long failAt = -1;                   // 1-based index among the calls in failMask
	long failLen = 1;                   // that many calls fail
	int failErr = EIO;
	long matched = 0, failed = 0;
	std::atomic<long> failedR{0}, failedW{0};   // faults since the start: reading and opening; writing and truncating
	std::atomic<long> bytesR{0}, bytesW{0};     // bytes moved since the start
	bool exact = false;                 // only the file that is called root
	bool wholeHeader = false;           // transfers at the beginning of a file are not cut short
	bool nofd = false;                  // every open fails with EMFILE
	std::function<void()> hook;         // before every tracked call
};
inline St & st() { static St * x = new St(); return *x; }
inline uint64_t rnd() { uint64_t & x = st().rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
inline void root(const std::string & d) { st().root = d; }
inline void arm(int mask, long at, int err, long len = 1) { St & s = st(); s.failMask = mask; s.failAt = at; s.failErr = err; s.failLen = len; s.matched = 0; s.failed = 0; }
inline void disarm() { st().failMask = 0; st().failAt = -1; }
inline bool ours(int fd) { return fd >= 0 && fd < 4096 && st().tracked[fd]; }
// Before a call; true: it must fail.
inline bool before(Kind k) {
	St & s = st();
	if (s.hook) s.hook();
	++s.calls[k]; ++s.allCalls;
	if (!(s.failMask >> k & 1) || s.failAt < 0) return false;
	++s.matched;
	if (s.matched < s.failAt || s.matched >= s.failAt + s.failLen) return false;
	++s.failed;
	if (k == WRITE || k == TRUNC) ++s.failedW; else ++s.failedR;
	return true;
}
inline size_t cut(int fd, size_t n) {
	St & s = st();
	if (s.wholeHeader && s.shortPct && syscall(SYS_lseek, fd, 0, SEEK_CUR) == 0) return n;
	if (n < 2 || s.shortPct == 0 || (int)(rnd() % 100) >= s.shortPct) return n;
	switch (rnd() % 3) { case 0: return 1; case 1: return n - 1; default: return 1 + rnd() % (n - 1); }
}
inline bool installed = (vd::at_scratch() = [](const std::string & d) { root(d); }, true);
} // namespace vio

extern "C" {
ssize_t read(int fd, void * p, size_t n) {
	if (!vio::ours(fd)) return syscall(SYS_read, fd, p, n);
	if (vio::before(vio::READ)) { errno = vio::st().failErr; return -1; }
	ssize_t r = syscall(SYS_read, fd, p, vio::cut(fd, n));
	if (r > 0) vio::st().bytesR += r;
	return r;
}
ssize_t write(int fd, const void * p, size_t n) {
	if (!vio::ours(fd)) return syscall(SYS_write, fd, p, n);
	if (vio::before(vio::WRITE)) { errno = vio::st().failErr; return -1; }
	ssize_t r = syscall(SYS_write, fd, p, vio::cut(fd, n));
	if (r > 0) vio::st().bytesW += r;
	return r;
}
int vio_ftruncate(int fd, off64_t n) {
	if (vio::ours(fd) && vio::before(vio::TRUNC)) { errno = vio::st().failErr; return -1; }
	return (int)syscall(SYS_ftruncate, fd, n);
}
int vio_ftruncate_a(int, off64_t) __asm__("ftruncate"); int vio_ftruncate_a(int fd, off64_t n) { return vio_ftruncate(fd, n); }
int vio_ftruncate_b(int, off64_t) __asm__("ftruncate64"); int vio_ftruncate_b(int fd, off64_t n) { return vio_ftruncate(fd, n); }
off64_t vio_lseek(int fd, off64_t o, int w) {
	if (vio::ours(fd) && vio::before(vio::SEEK)) { errno = vio::st().failErr; return -1; }
	return syscall(SYS_lseek, fd, o, w);
}
off64_t vio_lseek_a(int, off64_t, int) __asm__("lseek"); off64_t vio_lseek_a(int fd, off64_t o, int w) { return vio_lseek(fd, o, w); }
off64_t vio_lseek_b(int, off64_t, int) __asm__("lseek64"); off64_t vio_lseek_b(int fd, off64_t o, int w) { return vio_lseek(fd, o, w); }
static int vio_open(const char * path, int flags, mode_t mode) {
	bool mine = !vio::st().root.empty() && !strncmp(path, vio::st().root.c_str(), vio::st().root.size()) && !(flags & O_DIRECTORY)
		&& (!vio::st().exact || vio::st().root == path);
	if (mine) {
		if (vio::st().nofd) { errno = EMFILE; return -1; }
		if (vio::before(vio::OPEN)) { errno = vio::st().failErr; return -1; }
	}
	int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
	if (mine && fd >= 0 && fd < 4096) vio::st().tracked[fd] = true;
	return fd;
}
int vio_open_a(const char *, int, ...) __asm__("open"); int vio_open_a(const char * path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = (flags & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); return vio_open(path, flags, m); }
int vio_open_b(const char *, int, ...) __asm__("open64"); int vio_open_b(const char * path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = (flags & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); return vio_open(path, flags, m); }
int close(int fd) {
	if (vio::ours(fd)) { vio::st().tracked[fd] = false; }
	return (int)syscall(SYS_close, fd);
}
}
