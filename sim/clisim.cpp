// Deterministic simulation of the command line program: its main(), the C++
// and C stream libraries and the hashers run for real in a forked child; every
// system call that touches files, descriptors or time is trapped (seccomp ->
// SIGSYS) and answered by a simulated kernel whose behaviour - delivery of the
// input, errors, interruptions, what standard output accepts - is laid down in
// a plan drawn from one seed.  malloc is the simulated heap.
#include "rng.h"
#include "../ref/ref.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <map>
#include <poll.h>
#include <sstream>
#include <string>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

extern "C" int hash_main(int argc, const char **argv);
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

using ref::Bytes;

// ------------------------------------------------------------------ plan
struct Line { std::string k; std::map<std::string, uint64_t> v; uint64_t get(const char *n, uint64_t d = 0) const { auto i = v.find(n); return i == v.end() ? d : i->second; } };
struct Plan
{
	std::string profile;
	std::vector<Line> lines;
	std::string text() const
	{
		std::ostringstream o;
		o << "clisim 1\nprofile " << profile << "\n";
		for (const Line &l : lines) { o << l.k; for (auto &p : l.v) o << " " << p.first << "=" << p.second; o << "\n"; }
		return o.str();
	}
	static Plan parse(std::istream &in)
	{
		Plan p;
		std::string line;
		while (std::getline(in, line))
		{
			std::istringstream s(line);
			std::string w;
			if (!(s >> w) || w[0] == '#' || w == "clisim") continue;
			if (w == "profile") { s >> p.profile; continue; }
			Line l; l.k = w;
			std::string kv;
			while (s >> kv) { const size_t e = kv.find('='); if (e != std::string::npos) l.v[kv.substr(0, e)] = strtoull(kv.c_str() + e + 1, nullptr, 10); }
			p.lines.push_back(l);
		}
		return p;
	}
	Line &add(const char *k, std::initializer_list<std::pair<const char *, uint64_t>> kv)
	{
		Line l; l.k = k;
		for (auto &p : kv) l.v[p.first] = p.second;
		lines.push_back(l);
		return lines.back();
	}
};

// ------------------------------------------------------------------ shared with the child
enum Fault { F_SHORT_READ, F_ONE_BYTE_READ, F_DELAY, F_EINTR_FILE, F_EINTR_STDIN, F_OPEN_ERR, F_READ_ERR, F_READ_ERR_AFTER_DATA, F_STDIN_CLOSED, F_DIRECTORY, F_SHORT_WRITE, F_WRITE_ERR, F_WRITE_EINTR, F_SIGPIPE, F_STDOUT_CLOSED, F_ALLOC, F_SIZE_LIES, F_COUNT };
static const char *FN[F_COUNT] = {"short_read", "one_byte_read", "delayed_read", "eintr_on_file", "eintr_on_stdin", "open_error", "read_error", "read_error_after_all_data", "stdin_closed", "input_is_directory", "short_write", "write_error", "write_eintr", "sigpipe", "stdout_closed", "allocation_failure", "size_unknown_or_wrong"};
enum Sys { Y_READ, Y_WRITE, Y_OPEN, Y_CLOSE, Y_STAT, Y_SEEK, Y_MMAP, Y_IOCTL, Y_POLL, Y_OTHER, Y_COUNT };
static const char *YN[Y_COUNT] = {"read", "write", "open", "close", "stat", "seek", "mmap", "ioctl", "poll", "other"};
static const size_t OUTMAX = 1 << 23;
static const uint64_t MAPBITS = 1u << 22;
struct Shared
{
	// one run
	volatile int hang, retv, returned;
	uint64_t log, calls, simNs, allocs, delivered;
	uint64_t got[F_COUNT];
	size_t outLen, errLen; bool outOverflow;
	uint8_t out[OUTMAX], err[4096];
	// totals
	uint64_t faults[F_COUNT], sys[Y_COUNT], sources[9], outcomes[4], algos[64], bytesRead, simNsTotal, callsTotal, allocsTotal;
	uint8_t map[MAPBITS / 8];
};
static Shared *S;
static void logv(uint64_t v) { S->log = mix64(S->log ^ v); }
static void bit(uint64_t key) { key = mix64(key) % MAPBITS; S->map[key / 8] |= uint8_t(1 << (key % 8)); }

// ------------------------------------------------------------------ decoded plan (static storage, read by the simulated kernel)
enum InKind { IN_REG, IN_FIFO, IN_CHR, IN_ZEROSIZE, IN_GROWN, IN_TTY, IN_SOCK, IN_OVERSIZE, IN_KINDS };
struct Sim
{
	int algo = 0, dlen = 0, src = 0, inKind = 0, outKind = 0;
	uint64_t fill = 0;
	std::string custom, fname;
	Bytes data;
	uint64_t total = 0;                      // length of the input: `data` again and again
	uint64_t base = 0;                       // where standard input stands when the program starts
	std::vector<uint32_t> rdLen; std::vector<uint64_t> rdDelay;
	std::map<uint64_t, int> eintr;           // read call number
	bool hasErr = false; uint64_t errAt = 0; int errNo = EIO; bool errSticky = true;
	int openErr = 0; bool stdinClosed = false, stdoutClosed = false, directory = false;
	std::vector<uint32_t> wrLen;
	bool hasWErr = false; uint64_t wErrAt = 0; int wErrNo = ENOSPC; bool wSticky = true, sigpipe = false;
	std::map<uint64_t, int> wEintr;
	std::vector<std::pair<long, int>> alloc;
	bool noArgs = false, argsGiven = false, reject = false, lenient = false, anything = false;   // the argument list is the plan's own; it must / may be refused
	std::string argv0 = "hash";
	std::vector<std::string> args;
} sim;
static volatile bool g_on = false;     // inside the program under test
static uint64_t inSize() { return sim.base + sim.total; }
// bytes [off, off + n) of the file; what lies before the starting position is not part of the input
static void inCopy(uint8_t *to, uint64_t off, uint64_t n)
{
	for (; n && off < sim.base; --n, ++off) *to++ = uint8_t(0xb5 ^ off);
	if (!n) return;
	off -= sim.base;
	while (n)
	{
		const uint64_t o = off % sim.data.size(), m = std::min<uint64_t>(n, sim.data.size() - o);
		memcpy(to, sim.data.data() + o, m);
		to += m; off += m; n -= m;
	}
}

// ------------------------------------------------------------------ simulated heap
static bool allocFails(size_t n)
{
	if (!g_on) return false;
	S->allocs++;
	for (auto &a : sim.alloc)
	{
		const long k = long(S->allocs);
		if ((a.second == 0 && k == a.first) || (a.second == 1 && k >= a.first) || (a.second == 2 && a.first < 40 && n >= (size_t(1) << a.first)))
		{
			S->got[F_ALLOC]++;
			logv(0xa110c0000 + S->allocs);
			return true;
		}
	}
	return false;
}
static void *dirtyBlock(void *p, size_t n) { if (p && g_on && n < (1u << 17)) memset(p, int(sim.fill), n); return p; }
extern "C" void *malloc(size_t n) { if (allocFails(n)) { errno = ENOMEM; return nullptr; } return dirtyBlock(__libc_malloc(n), n); }
extern "C" void free(void *p) { __libc_free(p); }
extern "C" void *calloc(size_t a, size_t b) { if (allocFails(a * b)) { errno = ENOMEM; return nullptr; } return __libc_calloc(a, b); }
extern "C" void *realloc(void *p, size_t n) { if (allocFails(n)) { errno = ENOMEM; return nullptr; } return __libc_realloc(p, n); }
extern "C" void *memalign(size_t a, size_t n) { if (allocFails(n)) { errno = ENOMEM; return nullptr; } return __libc_memalign(a, n); }
extern "C" void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void **p, size_t a, size_t n) { void *r = memalign(a, n); if (!r) return ENOMEM; *p = r; return 0; }

// ------------------------------------------------------------------ simulated kernel
enum FdType { FD_NONE, FD_IN, FD_OUT, FD_ERR, FD_NULL };
struct Desc { int type = FD_NONE; uint64_t off = 0; bool dir = false; bool isStdin = false; bool append = false; int refs = 0; };
static Desc g_desc[64];
static int g_fd[64];          // -> description index, -1: closed
static uint64_t g_reads, g_writes, g_accepted;
static bool g_errDone, g_wErrDone;

static void kinit()
{
	for (auto &d : g_desc) d = Desc();
	for (auto &f : g_fd) f = -1;
	g_desc[0].type = FD_IN; g_desc[0].isStdin = true; g_desc[0].off = sim.base; g_desc[1].type = FD_OUT; g_desc[2].type = FD_ERR;
	for (int i = 0; i < 3; ++i) { g_desc[i].refs = 1; g_fd[i] = i; }
	if (sim.src == 0) g_desc[0].type = FD_NULL;
	if (sim.stdinClosed) { g_fd[0] = -1; g_desc[0].refs = 0; }
	if (sim.stdoutClosed) { g_fd[1] = -1; g_desc[1].refs = 0; }
	if (sim.src == 1 && sim.directory) g_desc[0].dir = true;
	g_reads = g_writes = g_accepted = 0;
	g_errDone = g_wErrDone = false;
}
static Desc *D(long fd) { return (fd < 0 || fd >= 64 || g_fd[fd] < 0) ? nullptr : &g_desc[g_fd[fd]]; }
static long newFd(int from = 0)
{
	for (int i = from; i < 64; ++i) if (g_fd[i] < 0) return i;
	return -EMFILE;
}
static bool sameName(const char *p)
{
	return sim.fname == p;
}
static long kopen(const char *p, int flags)
{
	S->sys[Y_OPEN]++;
	if ((flags & O_ACCMODE) != O_RDONLY && !sameName(p)) return -EACCES;
	if (!strcmp(p, "/dev/stdin") || !strcmp(p, "/proc/self/fd/0")) { if (!D(0)) return -ENOENT; const long n = newFd(); if (n >= 0) { g_fd[n] = g_fd[0]; g_desc[g_fd[0]].refs++; } return n; }
	if (!sameName(p) || sim.src != 0) return -ENOENT;
	if (sim.openErr) { S->got[F_OPEN_ERR]++; return -sim.openErr; }
	if ((flags & O_ACCMODE) != O_RDONLY && sim.directory) return -EISDIR;
	const long n = newFd();
	if (n < 0) return n;
	for (int d = 3; d < 64; ++d) if (g_desc[d].refs == 0)
	{
		g_desc[d] = Desc(); g_desc[d].type = FD_IN; g_desc[d].refs = 1; g_desc[d].dir = sim.directory;
		g_fd[n] = d;
		return n;
	}
	return -EMFILE;
}
static bool seekable(const Desc &d)
{
	if (d.type == FD_IN) return sim.inKind == IN_REG || sim.inKind == IN_ZEROSIZE || sim.inKind == IN_GROWN || sim.inKind == IN_OVERSIZE;
	if (d.type == FD_OUT) return sim.outKind == 0;
	return false;
}
// one read request against the input; `off` is advanced by the caller
static long kinput(Desc &d, uint64_t off, uint8_t *to, size_t want)
{
	const uint64_t call = ++g_reads;
	if (d.dir) { S->got[F_DIRECTORY]++; return -EISDIR; }
	if (want == 0) return 0;
	const uint64_t c = call - 1;
	if (sim.eintr.count(c)) { S->got[d.isStdin ? F_EINTR_STDIN : F_EINTR_FILE]++; return -EINTR; }
	if (c < sim.rdDelay.size() && sim.rdDelay[c]) { S->got[F_DELAY]++; S->simNs += sim.rdDelay[c]; }
	uint64_t end = inSize();
	if (sim.hasErr && (sim.errSticky || !g_errDone))
	{
		const uint64_t at = std::min<uint64_t>(sim.base + sim.errAt, end);
		if (off >= at) { g_errDone = true; S->got[at == end ? F_READ_ERR_AFTER_DATA : F_READ_ERR]++; return -sim.errNo; }
		end = at;
	}
	if (off >= end) return 0;
	size_t n = size_t(std::min<uint64_t>(want, end - off));
	if (c < sim.rdLen.size() && sim.rdLen[c] && sim.rdLen[c] < n) { n = sim.rdLen[c]; S->got[n == 1 ? F_ONE_BYTE_READ : F_SHORT_READ]++; }
	inCopy(to, off, n);
	S->delivered += n; S->bytesRead += n;
	return long(n);
}
static long kread(Desc &d, uint8_t *to, size_t want, int64_t at = -1)
{
	S->sys[Y_READ]++;
	if (d.type == FD_NULL) return 0;
	if (d.type != FD_IN) return -EBADF;
	if (at >= 0 && !seekable(d)) return -ESPIPE;
	const long r = kinput(d, at >= 0 ? uint64_t(at) : d.off, to, want);
	if (r > 0 && at < 0) d.off += uint64_t(r);
	return r;
}
static long kwrite(Desc &d, const uint8_t *from, size_t n)
{
	S->sys[Y_WRITE]++;
	if (d.type == FD_NULL) return long(n);
	if (d.type == FD_ERR)
	{
		const size_t m = std::min(n, sizeof(S->err) - S->errLen);
		memcpy(S->err + S->errLen, from, m); S->errLen += m;
		return long(n);
	}
	if (d.type != FD_OUT) return -EBADF;
	const uint64_t c = g_writes++;
	if (n == 0) return 0;
	if (sim.wEintr.count(c)) { S->got[F_WRITE_EINTR]++; return -EINTR; }
	size_t m = n;
	if (c < sim.wrLen.size() && sim.wrLen[c] && sim.wrLen[c] < m) m = sim.wrLen[c];
	if (sim.hasWErr && (sim.wSticky || !g_wErrDone))
	{
		if (g_accepted >= sim.wErrAt)
		{
			g_wErrDone = true;
			S->got[F_WRITE_ERR]++;
			if (sim.wErrNo == EPIPE && sim.sigpipe) { S->got[F_SIGPIPE]++; logv(0x51611); raise(SIGPIPE); }
			return -sim.wErrNo;
		}
		m = size_t(std::min<uint64_t>(m, sim.wErrAt - g_accepted));
	}
	if (m < n) S->got[F_SHORT_WRITE]++;
	if (S->outLen + m > OUTMAX) { S->outOverflow = true; return long(m); }
	memcpy(S->out + S->outLen, from, m);
	S->outLen += m; g_accepted += m;
	return long(m);
}
static uint64_t reportedSize()
{
	if (sim.inKind == IN_REG) return inSize();
	if (sim.inKind == IN_GROWN) { S->got[F_SIZE_LIES]++; return sim.base + sim.total / 2; }
	if (sim.inKind == IN_OVERSIZE) { S->got[F_SIZE_LIES]++; return sim.base + (sim.total < 4096 ? 4096 : sim.total + 4096); }   // like the files of sysfs
	if (sim.inKind == IN_ZEROSIZE) S->got[F_SIZE_LIES]++;
	return 0;
}
static void inStat(bool dir, unsigned &mode, uint64_t &size)
{
	static const unsigned m[] = {S_IFREG | 0644, S_IFIFO | 0600, S_IFCHR | 0666, S_IFREG | 0444, S_IFREG | 0644, S_IFCHR | 0620, S_IFSOCK | 0777, S_IFREG | 0444};
	if (dir) { mode = S_IFDIR | 0755; size = 4096; return; }
	mode = m[sim.inKind]; size = reportedSize();
}
static void outStat(unsigned &mode, uint64_t &size)
{
	static const unsigned m[] = {S_IFREG | 0644, S_IFIFO | 0600, S_IFCHR | 0620, S_IFCHR | 0666};
	mode = m[sim.outKind & 3]; size = 0;
}
static long statOf(Desc *d, const char *path, unsigned &mode, uint64_t &size, uint64_t &rdev, uint64_t &ino)
{
	S->sys[Y_STAT]++;
	rdev = 0; ino = 1;
	if (path && *path)
	{
		if (!sameName(path) || sim.src != 0) return -ENOENT;
		if (sim.openErr && sim.openErr != EACCES && sim.openErr != EMFILE && sim.openErr != EISDIR) return -sim.openErr;
		inStat(sim.directory, mode, size); ino = 77;
		return 0;
	}
	if (!d) return -EBADF;
	if (d->type == FD_IN) { inStat(d->dir, mode, size); ino = 77; rdev = sim.inKind == IN_TTY ? 0x8801 : sim.inKind == IN_CHR ? 0x103 : 0; }
	else if (d->type == FD_OUT) { outStat(mode, size); ino = 78; rdev = sim.outKind == 2 ? 0x8801 : 0x103; }
	else if (d->type == FD_ERR) { mode = S_IFIFO | 0600; size = 0; ino = 79; }
	else { mode = S_IFCHR | 0666; size = 0; rdev = 0x103; }
	return 0;
}
static long kstat(Desc *d, const char *path, struct stat *st)
{
	unsigned mode; uint64_t size, rdev, ino;
	const long r = statOf(d, path, mode, size, rdev, ino);
	if (r < 0) return r;
	memset(st, 0, sizeof(*st));
	st->st_mode = mode; st->st_size = long(size); st->st_blksize = 4096; st->st_nlink = 1; st->st_ino = ino; st->st_dev = 9; st->st_rdev = rdev; st->st_blocks = long((size + 511) / 512);
	return 0;
}
static long kstatx(Desc *d, const char *path, struct statx *st)
{
	unsigned mode; uint64_t size, rdev, ino;
	const long r = statOf(d, path, mode, size, rdev, ino);
	if (r < 0) return r;
	memset(st, 0, sizeof(*st));
	st->stx_mask = STATX_BASIC_STATS; st->stx_mode = uint16_t(mode); st->stx_size = size; st->stx_blksize = 4096; st->stx_nlink = 1; st->stx_ino = ino; st->stx_rdev_major = uint32_t(rdev >> 8); st->stx_rdev_minor = uint32_t(rdev & 0xff);
	return 0;
}
static long kseek(Desc *d, long off, int whence)
{
	S->sys[Y_SEEK]++;
	if (!d) return -EBADF;
	if (!seekable(*d)) return -ESPIPE;
	const long size = d->type == FD_IN ? long(reportedSize()) : long(g_accepted);
	const long cur = d->type == FD_IN ? long(d->off) : long(g_accepted);
	const long to = whence == SEEK_SET ? off : whence == SEEK_CUR ? cur + off : whence == SEEK_END ? size + off : -1;
	if (to < 0) return -EINVAL;
	if (d->type == FD_IN) d->off = uint64_t(to);
	return to;
}
static long kclose(long fd)
{
	S->sys[Y_CLOSE]++;
	Desc *d = D(fd);
	if (!d) return -EBADF;
	d->refs--; g_fd[fd] = -1;
	return 0;
}
static long kdup(long fd, int from)
{
	Desc *d = D(fd);
	if (!d) return -EBADF;
	const long n = newFd(from);
	if (n >= 0) { g_fd[n] = g_fd[fd]; d->refs++; }
	return n;
}
static long kdup2(long a, long b)
{
	if (!D(a) || b < 0 || b >= 64) return -EBADF;
	if (a == b) return b;
	if (D(b)) kclose(b);
	g_fd[b] = g_fd[a]; D(a)->refs++;
	return b;
}
static long kpoll(pollfd *p, size_t n)
{
	S->sys[Y_POLL]++;
	long c = 0;
	for (size_t i = 0; i < n; ++i)
	{
		Desc *d = D(p[i].fd);
		p[i].revents = p[i].fd < 0 ? 0 : !d ? POLLNVAL : short(p[i].events & (POLLIN | POLLOUT));
		if (p[i].revents) ++c;
	}
	return c;
}
static long kvec(Desc &d, const iovec *v, int n, bool wr, int64_t at = -1)
{
	long total = 0;
	for (int i = 0; i < n; ++i)
	{
		if (v[i].iov_len == 0) continue;
		const long r = wr ? kwrite(d, (const uint8_t *)v[i].iov_base, v[i].iov_len) : kread(d, (uint8_t *)v[i].iov_base, v[i].iov_len, at >= 0 ? at + total : -1);
		if (r < 0) return total ? total : r;
		total += r;
		if (size_t(r) < v[i].iov_len) break;
	}
	return total;
}
static long dispatch(long nr, const long *a)
{
	switch (nr)
	{
		case SYS_read: { Desc *d = D(a[0]); if (!d) { if (a[0] == 0 && sim.stdinClosed) S->got[F_STDIN_CLOSED]++; return -EBADF; } return kread(*d, (uint8_t *)a[1], size_t(a[2])); }
		case SYS_pread64: { Desc *d = D(a[0]); return d ? kread(*d, (uint8_t *)a[1], size_t(a[2]), a[3]) : -EBADF; }
		case SYS_readv: { Desc *d = D(a[0]); if (!d) { if (a[0] == 0 && sim.stdinClosed) S->got[F_STDIN_CLOSED]++; return -EBADF; } return kvec(*d, (const iovec *)a[1], int(a[2]), false); }
		case SYS_preadv: case SYS_preadv2: { Desc *d = D(a[0]); return d ? kvec(*d, (const iovec *)a[1], int(a[2]), false, a[3]) : -EBADF; }
		case SYS_write: { Desc *d = D(a[0]); if (!d) { if (a[0] == 1 && sim.stdoutClosed) S->got[F_STDOUT_CLOSED]++; return -EBADF; } if (a[0] == 1 && sim.stdoutClosed) S->got[F_STDOUT_CLOSED]++; return kwrite(*d, (const uint8_t *)a[1], size_t(a[2])); }
		case SYS_writev: { Desc *d = D(a[0]); if (!d || (a[0] == 1 && sim.stdoutClosed)) { if (a[0] == 1 && sim.stdoutClosed) S->got[F_STDOUT_CLOSED]++; } return d ? kvec(*d, (const iovec *)a[1], int(a[2]), true) : -EBADF; }
		case SYS_pwrite64: { Desc *d = D(a[0]); return d ? (seekable(*d) ? kwrite(*d, (const uint8_t *)a[1], size_t(a[2])) : -ESPIPE) : -EBADF; }
		case SYS_open: return kopen((const char *)a[0], int(a[1]));
		case SYS_openat: return kopen((const char *)a[1], int(a[2]));
		case SYS_openat2: return -ENOSYS;
		case SYS_creat: return -EACCES;
		case SYS_close: return kclose(a[0]);
		case SYS_close_range: return -ENOSYS;
		case SYS_stat: case SYS_lstat: return kstat(nullptr, (const char *)a[0], (struct stat *)a[1]);
		case SYS_fstat: return kstat(D(a[0]), nullptr, (struct stat *)a[1]);
		case SYS_newfstatat: return kstat(D(a[0]), (const char *)a[1], (struct stat *)a[2]);
		case SYS_statx: return kstatx(D(a[0]), (const char *)a[1], (struct statx *)a[4]);
		case SYS_access: return sameName((const char *)a[0]) && sim.src == 0 && !sim.openErr ? 0 : -ENOENT;
		case SYS_faccessat: case SYS_faccessat2: return sameName((const char *)a[1]) && sim.src == 0 && !sim.openErr ? 0 : -ENOENT;
		case SYS_lseek: return kseek(D(a[0]), a[1], int(a[2]));
		case SYS_ioctl:
		{
			S->sys[Y_IOCTL]++;
			Desc *d = D(a[0]);
			if (!d) return -EBADF;
			const bool tty = (d->type == FD_IN && sim.inKind == IN_TTY) || (d->type == FD_OUT && sim.outKind == 2);
			if (a[1] == TCGETS) { if (tty) { memset((void *)a[2], 0, 36); return 0; } return -ENOTTY; }
			if (a[1] == FIONREAD && d->type == FD_IN && !d->dir) { const uint64_t n = inSize() > d->off ? inSize() - d->off : 0; *(int *)a[2] = int(n ? 1 : 0); return 0; }
			return -ENOTTY;
		}
		case SYS_poll: case SYS_ppoll: return kpoll((pollfd *)a[0], size_t(a[1]));
		case SYS_select: case SYS_pselect6: { S->sys[Y_POLL]++; long c = 0; for (int s = 1; s <= 2; ++s) if (a[s]) { const uint8_t *b = (const uint8_t *)a[s]; for (int i = 0; i < a[0]; ++i) c += b[i / 8] >> (i % 8) & 1; } return c; }
		case SYS_dup: return kdup(a[0], 0);
		case SYS_dup2: case SYS_dup3: return kdup2(a[0], a[1]);
		case SYS_fcntl:
		{
			S->sys[Y_OTHER]++;
			Desc *d = D(a[0]);
			if (!d) return -EBADF;
			if (a[1] == F_DUPFD || a[1] == F_DUPFD_CLOEXEC) return kdup(a[0], int(a[2]));
			if (a[1] == F_GETFL) return d->type == FD_IN ? O_RDONLY : O_WRONLY;
			return 0;
		}
		case SYS_mmap:
		{
			S->sys[Y_MMAP]++;
			if (int(a[3]) & MAP_ANONYMOUS) { void *m = mmap((void *)a[0], size_t(a[1]), int(a[2]), int(a[3]), -1, 0); return m == MAP_FAILED ? -errno : long(m); }
			Desc *d = D(a[4]);
			if (!d) return -EBADF;
			if (d->type != FD_IN || !seekable(*d)) return -ENODEV;
			if (sim.inKind == IN_OVERSIZE) return -ENODEV;
			if (sim.hasErr || d->dir) { S->got[F_READ_ERR]++; return -EIO; }
			void *m = mmap((void *)a[0], size_t(a[1]), PROT_READ | PROT_WRITE, (int(a[3]) & MAP_FIXED) | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			if (m == MAP_FAILED) return -errno;
			const uint64_t off = uint64_t(a[5]);
			if (off < inSize()) inCopy((uint8_t *)m, off, std::min<uint64_t>(uint64_t(a[1]), inSize() - off));
			return long(m);
		}
		case SYS_nanosleep: { const timespec *t = (const timespec *)a[0]; S->simNs += uint64_t(t->tv_sec) * 1000000000u + uint64_t(t->tv_nsec); return 0; }
		case SYS_clock_nanosleep: { const timespec *t = (const timespec *)a[2]; if (!(a[1] & TIMER_ABSTIME)) S->simNs += uint64_t(t->tv_sec) * 1000000000u + uint64_t(t->tv_nsec); return 0; }
		case SYS_fsync: case SYS_fdatasync: { Desc *d = D(a[0]); return d ? (seekable(*d) ? 0 : -EINVAL) : -EBADF; }
		case SYS_fadvise64: case SYS_readahead: return D(a[0]) ? 0 : -EBADF;
		default: S->sys[Y_OTHER]++; return -ENOSYS;
	}
}
static void onSys(int, siginfo_t *si, void *uc)
{
	ucontext_t *u = (ucontext_t *)uc;
	greg_t *g = u->uc_mcontext.gregs;
	const bool on = g_on;
	g_on = false;
	const long nr = si->si_syscall;
	const long a[6] = {long(g[REG_RDI]), long(g[REG_RSI]), long(g[REG_RDX]), long(g[REG_R10]), long(g[REG_R8]), long(g[REG_R9])};
	const int e = errno;
	S->simNs += 1000;
	const long r = dispatch(nr, a);
	if (++S->calls > 400000 + 2 * sim.total) { S->hang = 1; _exit(99); }
	logv(uint64_t(nr) << 40 ^ uint64_t(nr == SYS_mmap ? 0 : r));
	errno = e;
	g[REG_RAX] = r;
	g_on = on;
}
static void installFilter()
{
	static const int trap[] = {SYS_read, SYS_write, SYS_open, SYS_close, SYS_stat, SYS_fstat, SYS_lstat, SYS_poll, SYS_lseek, SYS_ioctl, SYS_pread64, SYS_pwrite64, SYS_readv, SYS_writev, SYS_access, SYS_select, SYS_dup, SYS_dup2, SYS_nanosleep,
		SYS_sendfile, SYS_fcntl, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_creat, SYS_clock_nanosleep, SYS_openat, SYS_newfstatat, SYS_pselect6, SYS_ppoll, SYS_faccessat, SYS_splice, SYS_dup3, SYS_preadv, SYS_pwritev, SYS_preadv2, SYS_pwritev2,
		SYS_copy_file_range, SYS_statx, SYS_faccessat2, SYS_openat2, SYS_fadvise64, SYS_readahead, SYS_close_range, SYS_io_uring_setup, SYS_epoll_create1, SYS_epoll_create, SYS_readlink, SYS_readlinkat,
		SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_truncate, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_chown, SYS_execve, SYS_execveat, SYS_socket, SYS_vmsplice, SYS_tee, SYS_getdents64, SYS_getdents};
	std::vector<sock_filter> f;
	f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
	for (int t : trap)
	{
		f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, unsigned(t), 0, 1));
		f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
	}
	f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 3));
	f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, args) + 4 * 8));
	f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0xffffffffu, 1, 0));
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
	sock_fprog p {(unsigned short)f.size(), f.data()};
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = onSys; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGSYS, &sa, nullptr);
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) != 0) { S->hang = 77; _exit(97); }
}

// ------------------------------------------------------------------ decoding a plan
static std::vector<int> g_options;   // algorithms the program offers
static std::string nameFor(uint64_t kind)
{
	if (kind >= 12)
	{
		const uint64_t k = kind / 20;
		auto text = [k](uint64_t n, bool path)
		{
			std::string t;
			for (uint64_t i = 0; i < n; ++i)
			{
				const uint64_t x = mix64(k * 7919 + i);
				char c = x % 3 ? "abcXYZ019._-+=% "[x / 3 % 16] : char(1 + x / 3 % 255);
				if (c == '/' && !path) c = '_';
				t += path && i % 200 == 199 ? '/' : c;
			}
			return t;
		};
		switch (kind % 20)
		{
			case 0: return "two\nlines";
			case 1: return " leading";
			case 2: return "trailing ";
			case 3: { return std::string("-") + ref::algoName(g_options[k % g_options.size()]); }
			case 4: return std::to_string(k);
			case 5: return "d/" + text(k % 250, false) + "/-";
			case 6: return "archive." + std::string(k % 4 == 0 ? "gz" : k % 4 == 1 ? "txt" : k % 4 == 2 ? "sha1" : "TUPLE");
			case 7: return "/" + text(k % 3900, true);
			case 8: return "stdin";
			case 9: return std::string(1, char(1 + k % 255) == '/' || char(1 + k % 255) == '-' ? 'x' : char(1 + k % 255));
			default: { const std::string t = text(1 + k % 250, false); return t == "-" ? "x" : t; }
		}
	}
	switch (kind % 12)
	{
		case 0: return "input.bin";
		case 1: return "./some dir/in put";
		case 2: return "/abs/p%s%n%d";
		case 3: return "--";
		case 4: return "-x";
		case 5: return "a";
		case 6: { std::string s; for (int i = 0; i < 1900; ++i) s += "./"; return s + "deep"; }
		case 7: return std::string("\xc3\xa9t\xc3\xa9");
		case 8: return "./-";
		case 9: return "tab\tname";
		case 10: return std::string(250, 'n');
		default: return "quote\"'\\$name";
	}
}
static std::string argOf(uint64_t k, uint64_t v, uint64_t w);
static void readArgs();
// what the program is called by
static std::string argv0Of(uint64_t k, uint64_t n)
{
	n %= 4000;
	switch (k % 8)
	{
		case 1: return "";
		case 2: return "/usr/local/bin/hash";
		case 3: return std::string(n, 'h');
		case 4: { std::string s = "./"; for (uint64_t i = 0; i < n; ++i) s += "%s%n%d%99999s%"[i % 14]; return s; }
		case 5: { std::string s; for (uint64_t i = 0; i < n; ++i) s += char(128 + mix64(i) % 128); return s; }
		case 6: return "-";
		case 7: { std::string s; while (s.size() < n) s += "../dir with blanks/\t"; return s + "hash"; }
		default: return "hash";
	}
}
static void decode(const Plan &p)
{
	sim = Sim();
	bool cfg = false;
	uint64_t total = 0;
	for (const Line &l : p.lines)
	{
		if (l.k == "cfg")
		{
			cfg = true;
			sim.algo = g_options[l.get("algo") % g_options.size()];
			sim.dlen = int(std::max<uint64_t>(1, l.get("dlen") % 100000));
			sim.src = int(l.get("src") & 1);
			sim.inKind = int(l.get("in") % IN_KINDS);
			sim.outKind = int(l.get("out") & 3);
			sim.fill = l.get("fill");
			if (sim.src && sim.inKind == IN_REG) sim.base = l.get("base") % 3000000;
			const uint64_t n = l.get("custom") % 20000;
			for (uint64_t i = 0; i < n; ++i) sim.custom += char(1 + mix64(l.get("cseed") + i) % 255);
			sim.fname = sim.src ? "-" : nameFor(l.get("name"));
		}
		else if (l.k == "data") { const size_t o = sim.data.size(); size_t n = std::min<uint64_t>(l.get("n"), 6u << 20); sim.data.resize(o + n); fillContent(sim.data.data() + o, n, l.get("seed")); }
		else if (l.k == "total") total = l.get("n") % (9ull << 30);
		else if (l.k == "rd") { for (uint64_t i = 0; i < std::min<uint64_t>(l.get("rep", 1), 200000); ++i) { sim.rdLen.push_back(uint32_t(l.get("len"))); sim.rdDelay.push_back(l.get("ns")); } }
		else if (l.k == "rdint") sim.eintr[l.get("call")] = 1;
		else if (l.k == "rderr") { sim.hasErr = true; sim.errAt = l.get("at"); sim.errNo = int(l.get("err", EIO)); if (sim.errNo <= 0 || sim.errNo == EINTR) sim.errNo = EIO; sim.errSticky = l.get("sticky"); }
		else if (l.k == "openerr") { sim.openErr = int(l.get("err", ENOENT)); if (sim.openErr <= 0 || sim.openErr == EINTR) sim.openErr = ENOENT; }
		else if (l.k == "isdir") sim.directory = l.get("on");
		else if (l.k == "closed") { if (l.get("fd") == 0) sim.stdinClosed = true; else sim.stdoutClosed = true; }
		else if (l.k == "wr") sim.wrLen.push_back(uint32_t(l.get("len")));
		else if (l.k == "wrint") sim.wEintr[l.get("call")] = 1;
		else if (l.k == "wrerr") { sim.hasWErr = true; sim.wErrAt = l.get("at"); sim.wErrNo = int(l.get("err", ENOSPC)); if (sim.wErrNo <= 0 || sim.wErrNo == EINTR) sim.wErrNo = ENOSPC; sim.wSticky = l.get("sticky"); sim.sigpipe = l.get("sigpipe"); }
		else if (l.k == "arg") { sim.argsGiven = true; if (sim.args.size() < 50) sim.args.push_back(argOf(l.get("kind"), l.get("v"), l.get("w"))); }
		else if (l.k == "args") sim.argsGiven = true;
		else if (l.k == "noargs") sim.argsGiven = sim.noArgs = true;
		else if (l.k == "argv0") sim.argv0 = argv0Of(l.get("kind"), l.get("n"));
		else if (l.k == "alloc") sim.alloc.emplace_back(long(l.get("at")), int(l.get("mode") % 3));
		else { fprintf(stderr, "bad plan line: %s\n", l.k.c_str()); exit(3); }
	}
	if (!cfg) { sim.algo = g_options[0]; sim.dlen = 1; sim.fname = nameFor(0); }
	if (sim.noArgs) sim.args.clear();
	if (sim.argsGiven) readArgs();
	sim.total = total && !sim.data.empty() ? total : sim.data.size();
}

// One argument of a plan.  0: name of an algorithm, 1: number, 2: the input file, 3: "-", 4: random bytes, 5: a mangled name of an algorithm, 6: odd text
static std::string argOf(uint64_t k, uint64_t v, uint64_t w)
{
	static const char *odd[] = {"", " ", "-", "--", "--help", "-h", "sha1", "-SHA1", "-sha", "12abc", "0x10", " 7", "+5", "-1", "-0", "00", "1e3", "1.5", "99999999999", "-99999999999", "2147483648", "-2147483648", "-2147483649", "18446744073709551616",
		"4294967297", "9223372036854775808", "\t8", "8 ", "\xff\xfe", "\xd9\xa3", "%s%n", "/", "./", "..", "/dev/stdin", "no such file", "NaN", "inf", "1,000", "'8'", "-8", "- 8", "--8", "-x", "$(id)", "\n", "010", "0032", "08", "00000000000000000000000000000000000000016", "1e2", "8e0", "16.0", "32L"};
	switch (k % 7)
	{
		case 0: return std::string("-") + ref::algoName(g_options[v % g_options.size()]);
		case 1: return std::to_string(v % 2500);
		case 2: return nameFor(w);
		case 3: return "-";
		case 4: { std::string s; for (uint64_t i = 0; i < v % 131000; ++i) s += char(1 + mix64(w + i) % 255); return s; }
		case 5:
		{
			std::string s = std::string("-") + ref::algoName(g_options[v % g_options.size()]);
			switch (w % 8)
			{
				case 0: return s.substr(1);
				case 1: s.pop_back(); return s;
				case 2: return s + char(33 + (w >> 8) % 90);
				case 3: return "-" + s;
				case 4: for (char &c : s) if (c >= 'a' && c <= 'z') c = char(c - 32); return s;
				case 5: s[(w >> 8) % s.size()] = char(33 + (w >> 16) % 90); return s;
				case 6: s.erase((w >> 8) % s.size(), 1); return s;
				default: return s + " ";
			}
		}
		default: return odd[v % (sizeof(odd) / sizeof(*odd))];
	}
}
// what the arguments ask for
static void readArgs()
{
	sim.reject = sim.lenient = false;
	int algo = -1;
	if (!sim.args.empty())
		for (int o : g_options) if (sim.args[0] == std::string("-") + ref::algoName(o)) algo = o;
	if (algo < 0) { sim.reject = true; return; }
	sim.algo = algo;
	if (sim.args.size() != size_t(2 + ref::hasLen(algo) + ref::hasCustom(algo))) { sim.reject = true; return; }
	sim.dlen = 0; sim.custom.clear();
	if (ref::hasLen(algo))
	{
		// a number that fits: taken.  Decorated (sign, blanks, trailing text, zero): taken or refused.  Anything else: refused.
		const std::string &t = sim.args[1];
		size_t i = 0;
		while (i < t.size() && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) ++i;
		const bool neg = i < t.size() && t[i] == '-';
		if (neg || (i < t.size() && t[i] == '+')) ++i;
		unsigned long long v = 0;
		const size_t digits = i;
		bool big = false;
		while (i < t.size() && t[i] >= '0' && t[i] <= '9') { v = v * 10 + (unsigned long long)(t[i] - '0'); if (v > 2147483647) big = true; v = std::min(v, 1ull << 40); ++i; }
		if (i == digits || big || (neg && v != 0)) { sim.reject = true; return; }
		sim.dlen = int(v);
		if (std::to_string(v) != t || v == 0) sim.lenient = true;
		if (t.find("0x") == 0) sim.lenient = true;
	}
	if (ref::hasCustom(algo)) sim.custom = sim.args[2];
	const std::string file = sim.args.back();
	if (file == "-") { sim.src = 1; sim.fname = "-"; }
	else if (file != sim.fname || sim.src) { sim.src = 0; sim.fname = file; sim.openErr = ENOENT; }
	if (file == "/dev/stdin" || file == "/proc/self/fd/0") { sim.reject = sim.lenient = false; sim.anything = true; }   // depends on what standard input is
}

// ------------------------------------------------------------------ one run
static void child()
{
	const rlim_t cpuS = 20 + sim.total / 10000000; rlimit cpu {cpuS, cpuS}, core {0, 0};
	setrlimit(RLIMIT_CPU, &cpu); setrlimit(RLIMIT_CORE, &core);
	signal(SIGPIPE, sim.sigpipe ? SIG_DFL : SIG_IGN);
	std::vector<std::string> args {sim.argv0, std::string("-") + ref::algoName(sim.algo)};
	if (ref::hasLen(sim.algo)) args.push_back(std::to_string(sim.dlen));
	if (ref::hasCustom(sim.algo)) args.push_back(sim.custom);
	args.push_back(sim.fname);
	if (sim.argsGiven) { args.resize(1); args.insert(args.end(), sim.args.begin(), sim.args.end()); }
	if (sim.noArgs) args.clear();
	std::vector<const char *> argv;
	for (auto &s : args) argv.push_back(s.c_str());
	argv.push_back(nullptr);
	kinit();
	installFilter();
	g_on = true;
	const int r = hash_main(int(args.size()), argv.data());
	S->retv = r; S->returned = 1;
	exit(r);
}
static std::string expectedLine()
{
	ref::Spec sp;
	sp.algo = sim.algo;
	sp.digestLen = ref::hasLen(sim.algo) ? sim.dlen : 0;
	if (ref::hasCustom(sim.algo)) sp.custom.assign(sim.custom.begin(), sim.custom.end());
	if (sim.algo == ref::SIPHASH) sp.key = Bytes(16, 0);
	const bool longTuple = ref::isTuple(sim.algo) && sim.total > sim.data.size();   // one element, fed in parts
	auto encode = [](uint64_t v, bool left) { Bytes b; for (; v; v >>= 8) b.insert(b.begin(), uint8_t(v)); if (b.empty()) b.push_back(0); b.insert(left ? b.begin() : b.end(), uint8_t(b.size())); return b; };
	if (longTuple) { sp.algo = sim.algo == ref::TUPLE128 ? ref::CSHAKE128 : ref::CSHAKE256; const char *n = "TupleHash"; sp.name.assign(n, n + 9); }
	auto m = ref::make(sp);
	if (longTuple) m->update(encode(sim.total * 8, true));
	if (ref::isTuple(sim.algo) && !longTuple) m->update(sim.data.data(), sim.data.size());
	else for (uint64_t at = 0; at < sim.total; at += sim.data.size()) m->update(sim.data.data(), size_t(std::min<uint64_t>(sim.data.size(), sim.total - at)));
	if (longTuple) m->update(encode(uint64_t(sp.digestLen) * 8, false));
	return ref::hex(m->digest()) + "  " + sim.fname + "\n";
}
static bool looksLikeDigest(const std::string &o)
{
	size_t i = 0;
	while (i < o.size())
	{
		size_t e = o.find('\n', i);
		if (e == std::string::npos) e = o.size();
		size_t h = i;
		while (h < e && ((o[h] >= '0' && o[h] <= '9') || (o[h] >= 'a' && o[h] <= 'f'))) ++h;
		if (h > i && h + 1 < e && o[h] == ' ' && o[h + 1] == ' ') return true;
		if (h > i + 7 && h == e) return true;
		i = e + 1;
	}
	return false;
}
static std::string show(const std::string &s)
{
	std::string r = s.substr(0, 120);
	if (s.size() > 120) r += "...(" + std::to_string(s.size()) + " bytes)";
	return "\"" + r + "\"";
}
static bool runPlan(const Plan &p, std::string &cls, std::string &detail, uint64_t &log)
{
	decode(p);
	memset(S->got, 0, sizeof(S->got));
	S->hang = 0; S->returned = 0; S->log = 0; S->calls = 0; S->simNs = 0; S->allocs = 0; S->delivered = 0; S->outLen = S->errLen = 0; S->outOverflow = false;
	const pid_t c = fork();
	if (c < 0) { perror("fork"); exit(3); }
	if (c == 0) { child(); _exit(98); }
	int st = 0;
	while (waitpid(c, &st, 0) < 0) {}
	if (S->hang == 77) { fprintf(stderr, "harness error: system call filter not available\n"); exit(3); }
	for (int i = 0; i < F_COUNT; ++i) S->faults[i] += S->got[i];
	S->simNsTotal += S->simNs; S->callsTotal += S->calls; S->allocsTotal += S->allocs;
	S->sources[sim.src ? 8 : sim.inKind]++; S->algos[sim.algo]++;
	const std::string out((const char *)S->out, S->outLen), err((const char *)S->err, S->errLen);
	const bool exited = WIFEXITED(st), ok = exited && WEXITSTATUS(st) == 0;
	const int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
	S->outcomes[ok ? 0 : exited ? 1 : sig == SIGABRT ? 2 : 3]++;
	logv(uint64_t(st)); logv(S->outLen); for (uint8_t ch : out) logv(ch);
	log = S->log;
	const std::string want = expectedLine();
	const bool readFault = S->got[F_OPEN_ERR] || S->got[F_READ_ERR] || S->got[F_READ_ERR_AFTER_DATA] || S->got[F_STDIN_CLOSED] || S->got[F_DIRECTORY];
	const bool writeFault = S->got[F_WRITE_ERR] || S->got[F_STDOUT_CLOSED];
	const bool interrupted = S->got[F_EINTR_STDIN] || S->got[F_WRITE_EINTR];
	const bool allocFault = S->got[F_ALLOC] != 0;
	bit(uint64_t(sim.algo) | uint64_t(sim.src) << 8 | uint64_t(sim.inKind) << 10 | uint64_t(sim.outKind) << 14 | uint64_t(readFault) << 16 | uint64_t(writeFault) << 17 | uint64_t(interrupted) << 18 | uint64_t(allocFault) << 19 | uint64_t(ok) << 20
		| std::min<uint64_t>(S->calls, 255) << 24 | (S->got[F_OPEN_ERR] ? uint64_t(sim.openErr) : 0) << 32 | uint64_t(63 - __builtin_clzll(S->delivered | 1)) << 40 | (S->allocs & 63) * allocFault << 46 | std::min<uint64_t>(S->outLen >> 6, 63) << 54);
	std::string given;
	if (sim.argsGiven) for (const std::string &x : sim.args) given += " " + show(x);
	const std::string head = sim.noArgs ? "an empty argument vector (argc 0)" : sim.argsGiven ? sim.argv0.substr(0, 40) + given : "hash -" + std::string(ref::algoName(sim.algo)) + (sim.src ? " on standard input" : " on a file") + " of " + std::to_string(sim.total) + " bytes";
	const std::string how = ok ? "exited with success" : exited ? "exited with status " + std::to_string(WEXITSTATUS(st)) : "died of signal " + std::to_string(sig);
	auto bad = [&](const char *k, const std::string &d) { cls = k; detail = head + ": " + d + "; it " + how + ", standard output " + show(out) + (err.empty() ? "" : ", standard error " + show(err)); return false; };
	if (S->hang || sig == SIGXCPU || sig == SIGKILL) return bad("hang", "the program did not end");
	if (sig && sig != SIGABRT && !(sig == SIGPIPE && S->got[F_SIGPIPE]) && !allocFault) return bad("crash", "the program crashed");
	if (sig == SIGABRT && !readFault && !writeFault && !interrupted && !allocFault) return bad("crash", "the program aborted");
	if (sim.anything) return true;
	if (sim.reject || (sim.lenient && (out.empty() || want.compare(0, out.size(), out) != 0)))
	{
		if (sig && !allocFault && !(sig == SIGPIPE && S->got[F_SIGPIPE])) return bad("crash", "the arguments are not valid, and the program died");
		const bool emptyDigest = ok && sim.args.size() > 2 && out == "  " + sim.args.back() + "\n";      // of length 0
		if (looksLikeDigest(out) || emptyDigest) return bad("digest-for-bad-arguments", "the arguments are not valid, but a digest was printed");
		if (out.empty() && err.empty() && !writeFault && !allocFault && !interrupted) return bad("silent-rejection", "the arguments are not valid, and neither usage nor an error was shown");
		return true;
	}
	if (ok)
	{
		if (readFault) return bad("unread-input-success", "the input could not be fully read");
		if (S->outOverflow || out != want)
		{
			if (writeFault || S->got[F_WRITE_EINTR]) return bad("lost-output-success", "the result was not written completely, expected " + show(want));
			return bad("wrong-output", "expected " + show(want));
		}
		return true;
	}
	if (readFault && looksLikeDigest(out)) return bad("digest-of-unread-input", "a digest was printed although the input could not be fully read");
	if (!readFault && !writeFault && !interrupted && !allocFault) return bad("spurious-failure", "nothing went wrong, expected " + show(want));
	if (!writeFault && !allocFault && !readFault && interrupted && looksLikeDigest(out) && want.compare(0, out.size(), out) != 0) return bad("wrong-output", "an interruption led to a wrong digest, expected " + show(want));
	return true;
}

// ------------------------------------------------------------------ plan generation
static uint64_t optionOf(int algo)
{
	for (uint64_t i = 0; i < g_options.size(); ++i) if (g_options[i] == algo) return i;
	return 0;
}
static Plan gen(const std::string &prof, uint64_t seed, uint64_t idx)
{
	Rng r(seed);
	if (prof == "C11big")     // inputs of more than 4 GiB; the algorithms that collect their input get more than 512 MiB
	{
		static const int first[] = {ref::CRC32, ref::SHA1, ref::TUPLE128, ref::MD5, ref::TUPLE256, ref::MD4, ref::FNV64_1A, ref::BLAKE2B, ref::TIGER2_192, ref::RMD128, ref::SHA2_512, ref::SHAKE128};
		Plan p;
		p.profile = prof;
		idx %= 1000000000;
		uint64_t ai = idx < 12 ? optionOf(first[idx]) : r.below(g_options.size());
		if (g_options[ai] == ref::MD2) ai = optionOf(ref::CRC32);
		const int algo = g_options[ai];
		const bool src = r.chance(50);
		static const int in[] = {IN_REG, IN_FIFO, IN_CHR, IN_GROWN, IN_ZEROSIZE};
		p.add("cfg", {{"algo", ai}, {"dlen", ref::hasLen(algo) ? 32 : 0}, {"custom", ref::hasCustom(algo) ? r.below(30) : 0}, {"cseed", r.below(1000)}, {"src", src}, {"in", uint64_t(in[r.below(src ? 3 : 5)])}, {"out", r.below(4)}, {"fill", r.below(256)}, {"name", r.chance(65) ? r.below(12) : 12 + r.below(2000000)}});
		p.add("data", {{"n", 5000011}, {"seed", r.next() % 100000}});
		const uint64_t at = ref::isTuple(algo) ? 1ull << 29 : 1ull << 32;
		p.add("total", {{"n", r.chance(50) ? at + r.below(8 << 20) : at - 2 + r.below(5)}});
		if (r.chance(60)) { const uint64_t k = r.range(1, 40); for (uint64_t i = 0; i < k; ++i) p.add("rd", {{"len", 1 + r.below(r.chance(50) ? 100 : 65536)}, {"rep", 1}, {"ns", r.below(1000000000)}}); }
		if (r.chance(30)) p.add("rd", {{"len", 65536}, {"rep", 100000}, {"ns", 1000}});
		return p;
	}
	Plan p;
	p.profile = prof;
	uint64_t ai = r.below(g_options.size());
	if (r.chance(10)) ai = optionOf(r.chance(50) ? ref::TUPLE128 : ref::TUPLE256);     // the only ones that collect their input
	const int algo = g_options[ai];
	const bool tuple = algo == ref::TUPLE128 || algo == ref::TUPLE256;
	const bool src = r.chance(45);
	uint64_t in;
	if (src) { static const int k[] = {IN_REG, IN_REG, IN_FIFO, IN_FIFO, IN_TTY, IN_SOCK, IN_CHR}; in = uint64_t(k[r.below(7)]); }
	else { static const int k[] = {IN_REG, IN_REG, IN_REG, IN_FIFO, IN_CHR, IN_ZEROSIZE, IN_GROWN, IN_OVERSIZE}; in = uint64_t(k[r.below(8)]); }
	static const uint64_t lens[] = {1, 16, 20, 32, 64, 65, 168, 136, 500, 2040, 2048, 8200};
	p.add("cfg", {{"algo", ai}, {"dlen", ref::hasLen(algo) ? (r.chance(60) ? lens[r.below(12)] : r.chance(90) ? r.range(1, 400) : r.chance(95) ? r.range(1, 70000) : r.range(1, 3500000)) : 0}, {"custom", ref::hasCustom(algo) ? (r.chance(40) ? 0 : r.chance(90) ? r.range(1, 40) : r.chance(80) ? r.range(100, 400) : r.range(8180, 8200)) : 0}, {"cseed", r.below(1000)},
		{"src", src}, {"in", in}, {"out", r.below(4)}, {"fill", r.below(256)}, {"name", r.chance(65) ? r.below(12) : 12 + r.below(2000000)}, {"base", src && in == IN_REG && r.chance(50) ? (r.chance(80) ? r.range(1, 5000) : r.below(2500000)) : 0}});
	// contents
	uint64_t n;
	const uint64_t B = uint64_t(std::max(1, ref::blockSize(algo)));
	const uint64_t M = 1u << 20;
	if (algo != ref::MD2 && r.permille(tuple ? 80 : 12))
	{
		n = r.chance(70) ? M * r.range(1, 3) - 2 + r.below(5) : r.chance(80) ? r.range(M, 6 * M) : r.range(6 * M, 40 * M);
	}
	else switch (r.below(10))
	{
		case 0: n = 0; break;
		case 1: n = 1 + r.below(3); break;
		case 2: case 3: n = r.below(3 * B + 3); break;
		case 4: { static const uint64_t e[] = {4095, 4096, 4097, 8190, 8191, 8192, 8193, 16382, 65536}; n = e[r.below(9)]; break; }
		case 5: n = r.below(40000); break;
		case 6: n = r.below(9000); break;
		default: n = r.below(1200); break;
	}
	if (r.chance(15) && n > 1 && n <= 5000011) { const uint64_t a = r.below(n); p.add("data", {{"n", a}, {"seed", r.next() % 100000}}); p.add("data", {{"n", n - a}, {"seed", r.next() % 100000}}); }
	else if (n) p.add("data", {{"n", std::min<uint64_t>(n, 5000011)}, {"seed", r.next() % 100000}});
	if (n > 5000011) p.add("total", {{"n", n}});
	if (prof == "C18")
	{
		const bool len = ref::hasLen(algo), cust = ref::hasCustom(algo);
		struct A { uint64_t k, v, w; };
		std::vector<A> args {{0, ai, 0}};
		const uint64_t name = p.lines[0].get("name");
		if (len) args.push_back({1, p.lines[0].get("dlen"), 0});
		if (cust) args.push_back({4, r.below(20), r.next() % 100000});
		args.push_back(src ? A {3, 0, 0} : A {2, 0, name});
		for (uint64_t m = r.below(4); m; --m)
		{
			const size_t at = args.empty() ? 0 : size_t(r.below(args.size()));
			const A odd = r.chance(50) ? A {6, r.below(54), 0} : r.chance(40) ? A {4, r.chance(10) ? r.chance(5) ? r.below(131000) : r.below(5000) : r.below(30), r.next() % 100000} : r.chance(40) ? A {5, r.below(g_options.size()), r.next() % 10000000} : r.chance(50) ? A {1, r.below(2500), 0} : A {r.chance(50) ? 0u : r.chance(50) ? 3u : 2u, r.below(g_options.size()), r.below(12)};
			switch (r.below(8))
			{
				case 0: if (!args.empty()) args.erase(args.begin() + long(at)); break;
				case 1: args.insert(args.begin() + long(at), odd); break;
				case 2: if (!args.empty()) args.push_back(args[at]); break;
				case 3: if (args.size() > 1) std::swap(args[at], args[r.below(args.size())]); break;
				case 4: if (!args.empty()) args[0] = {5, r.below(g_options.size()), r.next() % 10000000}; break;
				case 5: if (len && args.size() > 1) args[1] = {6, r.chance(70) ? 9 + r.below(20) : 46 + r.below(8), 0}; break;
				case 6: args.resize(r.below(args.size() + 1)); break;
				default: if (!args.empty()) args[at] = odd; break;
			}
		}
		p.add("args", {{"n", args.size()}});
		if (r.permille(10)) p.add("noargs", {});
		if (r.chance(30)) p.add("argv0", {{"kind", r.below(8)}, {"n", r.chance(60) ? r.below(60) : r.below(4000)}});
		for (const A &x : args) p.add("arg", {{"kind", x.k}, {"v", x.v}, {"w", x.w}});
		if (r.chance(15)) p.add("alloc", {{"at", r.range(1, 16)}, {"mode", r.below(2)}});
		if (r.chance(10)) p.add("closed", {{"fd", r.below(2)}});
		if (r.chance(15)) p.add("wrerr", {{"at", r.below(60)}, {"err", r.chance(50) ? uint64_t(ENOSPC) : uint64_t(EPIPE)}, {"sticky", 1}, {"sigpipe", r.below(2)}});
		else if (r.chance(20)) p.add("wr", {{"len", 1 + r.below(200)}});
		if (r.chance(10)) p.add("rderr", {{"at", r.below(n + 1)}, {"err", uint64_t(EIO)}, {"sticky", 1}});
	}
	// delivery
	const bool calm = r.chance(prof == "C11" ? 5 : 50);
	if (!calm)
	{
		const uint64_t style = r.below(6);
		if (style == 0 && n < 20000) p.add("rd", {{"len", 1}, {"rep", n + 1}, {"ns", 0}});
		else if (style == 1) p.add("rd", {{"len", r.range(2, 64)}, {"rep", std::min<uint64_t>(n + 1, 20000)}, {"ns", 0}});
		else if (style == 2) { const uint64_t k = r.range(1, 30); for (uint64_t i = 0; i < k; ++i) p.add("rd", {{"len", r.chance(20) ? 0 : 1 + r.below(n / 3 + 2)}, {"rep", 1}, {"ns", r.chance(20) ? r.below(5000000000ull) : 0}}); }
		else if (style == 3) p.add("rd", {{"len", 4096}, {"rep", n / 4096 + 1}, {"ns", r.below(1000000)}});
		else if (style == 4) p.add("rd", {{"len", B - r.below(2)}, {"rep", std::min<uint64_t>(n / B + 1, 20000)}, {"ns", 0}});
		else { const uint64_t k = r.range(1, 60); for (uint64_t i = 0; i < k; ++i) p.add("rd", {{"len", 1 + r.below(200)}, {"rep", 1}, {"ns", 0}}); }
		if (r.chance(prof == "C11" ? 40 : 10)) { const uint64_t k = r.range(1, 4); for (uint64_t i = 0; i < k; ++i) p.add("rdint", {{"call", r.chance(70) ? r.below(6) : r.below(40)}}); }
	}
	if (prof == "C11") { if (r.chance(25)) { const uint64_t k = r.range(1, 6); for (uint64_t i = 0; i < k; ++i) p.add("wr", {{"len", 1 + r.below(80)}}); } }
	else if (prof == "C12")
	{
		switch (r.below(10))
		{
			case 0: { static const uint64_t e[] = {ENOENT, EACCES, EMFILE, ENFILE, ELOOP, ENAMETOOLONG, ENOMEM, EIO, ENOTDIR, EPERM}; if (src) p.add("closed", {{"fd", 0}}); else p.add("openerr", {{"err", e[r.below(10)]}}); break; }
			case 1: p.add("isdir", {{"on", 1}}); break;
			case 2: if (src) { p.add("closed", {{"fd", 0}}); break; } // fall through
			default:
			{
				static const uint64_t e[] = {EIO, EIO, EIO, ENXIO, ESTALE, ENOMEM, ETIMEDOUT, ECONNRESET, EAGAIN, EOVERFLOW};
				uint64_t err = e[r.below(10)];
				uint64_t at;
				switch (r.below(6)) { case 0: at = 0; break; case 1: at = n; break; case 2: at = n ? n - 1 : 0; break; case 3: { static const uint64_t b[] = {4096, 8191, 8192, 1u << 20, 16382}; at = b[r.below(5)]; if (at > n) at = n / 2; break; } default: at = r.below(n + 1); }
				p.add("rderr", {{"at", at}, {"err", err}, {"sticky", err == EAGAIN ? 1 : r.below(2)}});
			}
		}
		if (r.chance(5)) p.add("closed", {{"fd", 1}});
	}
	else if (prof == "C13")
	{
		ref::Spec sp; sp.algo = algo;
		const uint64_t line = uint64_t(ref::hasLen(algo) ? std::max<uint64_t>(1, p.lines[0].get("dlen")) : uint64_t(ref::digestSize(sp))) * 2 + 3 + (src ? 1 : nameFor(p.lines[0].get("name")).size());
		switch (r.below(8))
		{
			case 0: p.add("closed", {{"fd", 1}}); break;
			case 1: { const uint64_t k = r.range(1, 8); for (uint64_t i = 0; i < k; ++i) p.add("wr", {{"len", 1 + r.below(line)}}); break; }
			case 2: { const uint64_t k = r.range(1, 3); for (uint64_t i = 0; i < k; ++i) p.add("wrint", {{"call", r.below(3)}}); if (r.chance(50)) p.add("wr", {{"len", 1 + r.below(line)}}); break; }
			default:
			{
				static const uint64_t e[] = {ENOSPC, ENOSPC, EIO, EPIPE, EPIPE, EFBIG, EDQUOT, EBADF, EAGAIN};
				const uint64_t err = e[r.below(9)];
				uint64_t at;
				switch (r.below(5)) { case 0: at = 0; break; case 1: at = line - 1; break; case 2: at = line > 4096 ? 4096 : r.below(line); break; default: at = r.below(line); }
				p.add("wrerr", {{"at", at}, {"err", err}, {"sticky", r.chance(70) || err == EAGAIN}, {"sigpipe", err == EPIPE ? r.below(2) : 0}});
				if (r.chance(40)) { const uint64_t k = r.range(1, 5); for (uint64_t i = 0; i < k; ++i) p.add("wr", {{"len", 1 + r.below(line)}}); }
			}
		}
	}
	else if (prof == "C14")
	{
		const uint64_t k = r.chance(80) ? 1 : 2;
		for (uint64_t i = 0; i < k; ++i)
		{
			const uint64_t mode = r.chance(45) ? 0 : r.chance(70) ? 1 : 2;
			p.add("alloc", {{"at", mode == 2 ? r.range(6, 24) : r.chance(90) ? r.range(1, 16) : r.range(1, 40)}, {"mode", mode}});
		}
	}
	return p;
}

// ------------------------------------------------------------------ driver
static FILE *g_outf;
static std::string jsonEsc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r;
}
static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

int main(int argc, char **argv)
{
	if (!getenv("SIM_NOASLR"))
	{
		setenv("SIM_NOASLR", "1", 1);
		const int pers = personality(0xffffffff);
		if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	g_outf = fdopen(dup(1), "w");   // the real standard streams stay untouched: they belong to the program under test
	std::map<std::string, std::string> a;
	for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
	S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int i = 0; i < ref::ALGO_COUNT; ++i)
		if (i != ref::FNV32_0 && i != ref::FNV32_1 && i != ref::FNV64_0 && i != ref::FNV64_1) g_options.push_back(i);
	std::string cls, detail;
	uint64_t log = 0;
	if (a.count("--replay"))
	{
		std::ifstream f(a["--replay"]);
		if (!f) { fprintf(stderr, "cannot open plan\n"); return 3; }
		const Plan p = Plan::parse(f);
		const bool ok = runPlan(p, cls, detail, log);
		fprintf(g_outf, "{\"ok\": %s, \"class\": \"%s\", \"detail\": \"%s\", \"log\": \"%016llx\", \"op\": 0}\n", ok ? "true" : "false", jsonEsc(cls).c_str(), jsonEsc(detail).c_str(), (unsigned long long)log);
		fflush(g_outf);
		_exit(ok ? 0 : 1);
	}
	const std::string prof = a["--profile"];
	const uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
	const uint64_t from = strtoull(a["--from"].c_str(), nullptr, 10), to = strtoull(a["--to"].c_str(), nullptr, 10);
	const uint64_t step = a.count("--step") ? strtoull(a["--step"].c_str(), nullptr, 10) : 1;
	const double limit = a.count("--seconds") ? atof(a["--seconds"].c_str()) : 1e9;
	if (a.count("--gen")) { fputs(gen(prof, runSeed(seed, prof.c_str(), from), from).text().c_str(), g_outf); fflush(g_outf); _exit(0); }
	const double t0 = nowS();
	uint64_t runs = 0, nontrivial = 0, logAll = 0;
	std::vector<uint64_t> sigs;
	for (uint64_t i = from; i < to; i += step)
	{
		if ((runs & 15) == 0 && nowS() - t0 > limit) break;
		const Plan p = gen(prof, runSeed(seed, prof.c_str(), i), i);
		const bool ok = runPlan(p, cls, detail, log);
		++runs;
		bool fault = false;
		for (int f = 0; f < F_COUNT; ++f) if (S->got[f]) fault = true;
		uint64_t sig = 0;
		for (char c : p.text()) sig = mix64(sig ^ uint8_t(c));
		if (fault) { ++nontrivial; sigs.push_back(sig); }
		logAll ^= mix64(log ^ mix64(i));
		if (!ok)
		{
			fprintf(g_outf, "FAIL {\"idx\": %llu, \"class\": \"%s\", \"detail\": \"%s\", \"log\": \"%016llx\"}\n", (unsigned long long)i, jsonEsc(cls).c_str(), jsonEsc(detail).c_str(), (unsigned long long)log);
			break;
		}
	}
	std::sort(sigs.begin(), sigs.end());
	sigs.erase(std::unique(sigs.begin(), sigs.end()), sigs.end());
	std::ostringstream o;
	o << "STATS {\"runs\": " << runs << ", \"nontrivial\": " << nontrivial << ", \"distinct\": " << sigs.size() << ", \"seconds\": " << nowS() - t0 << ", \"log_all\": \"" << std::hex << logAll << std::dec << "\"";
	auto dict = [&](const char *n, const uint64_t *v, int c, const char *const *names) { o << ", \"" << n << "\": {"; for (int i = 0; i < c; ++i) o << (i ? ", " : "") << "\"" << names[i] << "\": " << v[i]; o << "}"; };
	static const char *SRC[9] = {"file", "fifo", "chardev", "zero_size_file", "grown_file", "tty", "socket", "oversize_file", "stdin"};
	static const char *OC[4] = {"success", "failure_status", "aborted", "other_signal"};
	dict("faults", S->faults, F_COUNT, FN); dict("syscalls", S->sys, Y_COUNT, YN); dict("sources", S->sources, 9, SRC); dict("outcomes", S->outcomes, 4, OC);
	std::vector<const char *> an; for (int i = 0; i < ref::ALGO_COUNT; ++i) an.push_back(ref::algoName(i));
	dict("algos", S->algos, ref::ALGO_COUNT, an.data());
	o << ", \"bytes_read\": " << S->bytesRead << ", \"sim_ms\": " << S->simNsTotal / 1000000 << ", \"system_calls\": " << S->callsTotal << ", \"allocations\": " << S->allocsTotal << "}";
	fprintf(g_outf, "%s\n", o.str().c_str());
	fflush(g_outf);
	if (a.count("--sigs")) { FILE *f = fopen(a["--sigs"].c_str(), "wb"); if (f) { fwrite(sigs.data(), 8, sigs.size(), f); fclose(f); } }
	if (a.count("--map")) { FILE *f = fopen(a["--map"].c_str(), "wb"); if (f) { fwrite(S->map, 1, sizeof(S->map), f); fclose(f); } }
	_exit(0);
}
