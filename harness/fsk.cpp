#include "fsk.h"
#include "../sim/simrt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <initializer_list>
using sim::choose; using sim::FAULT; using sim::PROG; using sim::SCHED;
namespace fsk {
enum Kind { REG, DIR_, MISSING, NOPERM };
struct Inode { Kind kind; uint64_t size; uint32_t fill; bool huge; };
constexpr int kInodes = 64, kFds = 24, kMaps = 64, kOps = 128;
static Inode ino[kInodes]; static int nino;
static int file_ino[kFiles]; static char names[kFiles][24];
struct Fd { bool open; int ino; int owner; uint64_t pos; int flags; };
static Fd fds[kFds];
struct Map { uint64_t addr, len; int ino; int owner; bool live; };
static Map maps[kMaps]; static int nmaps;
static int op_of[sim::kMaxThreads];
struct Op { bool used; int file; bool active; Report r; int seen[8]; int nseen; };
static Op ops[kOps];
static int rate;
static uint64_t bump;
constexpr uint64_t kBase = 0x300000000000ull, kSpan = 1ull << 40;
constexpr const char* P = "F01,F02";

static Op* cur() { int o = op_of[sim::self()]; return o ? &ops[o] : nullptr; }
static int owner() { return op_of[sim::self()]; }
static void fail(const char* call, int e, bool own = false) { errno = e; if (Op* o = cur()) { if (o->r.nerr < 16) { o->r.errs[o->r.nerr] = e; o->r.own[o->r.nerr] = own; o->r.calls[o->r.nerr++] = call; } } sim::note("  kernel: %s fails with errno %d", call, e); sim::rec(50, e); }
static bool inject(uint32_t weight) // one decision per system call
{
    if (!rate || !owner()) return false;
    static const uint32_t den[] = {0, 24, 8, 3};
    return choose(FAULT, den[rate] * 4 / weight) == 1 ? true : false;
}
static int pick_err(const int* e, int n) { return e[choose(FAULT, n)]; }
static unsigned char byte_at(const Inode& i, uint64_t pos)
{
    if (i.huge) { uint64_t pg = pos >> 12; uint64_t last = (i.size - 1) >> 12; if (pg != 0 && pg != last && pg != last / 2) return 0; }
    uint64_t h = pos * 0x9e3779b97f4a7c15ull + i.fill * 0xff51afd7ed558ccdull; return (unsigned char)(h >> 56);
}
static int new_inode()
{
    static const uint32_t sizes[] = {0, 1, 4095, 4096, 4097, 8192, 12288, 65536};
    if (nino >= kInodes) return -1;
    Inode& i = ino[nino]; i = Inode{REG, 0, (uint32_t)nino * 7919 + choose(PROG, 1000), false};
    uint32_t k = choose(PROG, 16);
    if (k < 8) i.size = sizes[k];
    else if (k < 13) i.size = 1 + choose(PROG, 20000);
    else { static const uint64_t h[] = {1ull << 31, 1ull << 32, 5ull << 30}; i.size = h[choose(PROG, 3)] + choose(PROG, 3) * 4096 + choose(PROG, 5000); i.huge = true; }
    return nino++;
}
const char* path(int f) { return names[f]; }
void init(int free_low, int r)
{
    rate = r; bump = 0; nino = nmaps = 0;
    memset(fds, 0, sizeof fds); memset(ops, 0, sizeof ops); memset(op_of, 0, sizeof op_of);
    for (int i = free_low; i < 3; ++i) fds[i].open = true; // stdin, stdout, stderr unless the process was started without them
    for (int f = 0; f < kFiles; ++f) {
        snprintf(names[f], sizeof names[f], "/simulated/file%d", f);
        file_ino[f] = new_inode();
        if (f == 5) ino[file_ino[f]].kind = DIR_, ino[file_ino[f]].size = 4096, ino[file_ino[f]].huge = false;
        if (f == 6) ino[file_ino[f]].kind = MISSING;
        if (f == 7) ino[file_ino[f]].kind = NOPERM;
    }
}
static void see(int f) { for (int o = 1; o < kOps; ++o) if (ops[o].active && ops[o].file == f && ops[o].nseen < 8) ops[o].seen[ops[o].nseen++] = file_ino[f]; }
void replace_file(int f)
{
    if (ino[file_ino[f]].kind != REG) return;
    int n = new_inode(); if (n < 0) return;
    file_ino[f] = n; see(f); sim::fault_fired("file-replaced"); sim::note("another process replaces file%d (now %llu bytes)", f, (unsigned long long)ino[n].size);
}
void begin_op(int o, int file) { op_of[sim::self()] = o; if (o && file >= 0) { ops[o] = Op{}; ops[o].used = ops[o].active = true; ops[o].file = file; ops[o].seen[0] = file_ino[file]; ops[o].nseen = 1; } }
Report end_op()
{
    int o = owner(); op_of[sim::self()] = 0; ops[o].active = false; Report r = ops[o].r; r.leaked_fd = -1; r.maps_made = 0;
    for (int i = 0; i < kFds; ++i) if (fds[i].open && fds[i].owner == o && o) r.leaked_fd = i;
    for (int i = 0; i < nmaps; ++i) if (maps[i].owner == o && maps[i].live) r.maps_made++;
    return r;
}
static int alloc_fd(int in, int flags)
{
    for (int i = 0; i < kFds; ++i) if (!fds[i].open) { fds[i] = Fd{true, in, owner(), 0, flags}; return i; }
    return -1;
}
int app_open() { int fd = alloc_fd(0, O_RDONLY); if (fd >= 0) fds[fd].owner = 0; return fd; }
bool app_fd_intact(int fd) { return fds[fd].open && fds[fd].owner == 0; }
void app_close(int fd) { fds[fd].open = false; }

static uint64_t pages(uint64_t n) { return (n + 4095) & ~4095ull; }
static const char* compare(const Inode& i, const void* p, size_t n)
{
    const unsigned char* b = (const unsigned char*)p; static char why[160];
    if (n != i.size) return "the size is not the file's";
    auto chk = [&](uint64_t from, uint64_t to) { for (uint64_t k = from; k < to; ++k) if (b[k] != byte_at(i, k)) { snprintf(why, sizeof why, "byte %llu differs from the file's", (unsigned long long)k); return false; } return true; };
    if (!i.huge) return chk(0, n) ? nullptr : why;
    uint64_t last = (n - 1) & ~4095ull, mid = (((n - 1) >> 12) / 2) << 12;
    return chk(0, 4096) && chk(mid, mid + 4096) && chk(last, n) ? nullptr : why;
}
const char* still_good(int o, const void* p, size_t n)
{
    if (!n) return nullptr;
    uint64_t a = (uint64_t)p;
    if (a - kBase < kSpan) {
        for (int i = 0; i < nmaps; ++i) if (maps[i].live && a >= maps[i].addr && a + n <= maps[i].addr + pages(maps[i].len)) return maps[i].owner == o ? nullptr : "it refers to a mapping of another view";
        return "it refers to memory that is not mapped";
    }
    if (a < 4096 || a > 0x7fffffffffffull - n) return "it refers to an invalid address";
    return sim::addressable(p, n) ? nullptr : "it refers to released memory";
}
const char* judge(int o, int file, const void* p, size_t n)
{
    Op& op = ops[o]; const char* why = nullptr;
    if (const char* g = still_good(o, p, n)) return g;
    for (int k = op.nseen - 1; k >= 0; --k) { const Inode& i = ino[op.seen[k]]; if (i.kind == MISSING || i.kind == NOPERM || i.kind == DIR_) { why = "the file cannot be read at all"; continue; } const char* w = compare(i, p, n); if (!w) return nullptr; if (!why) why = w; }
    (void)file; return why;
}
int live_mappings() { int n = 0; for (int i = 0; i < nmaps; ++i) n += maps[i].live; return n; }
int open_fds_of_views() { int n = 0; for (int i = 0; i < kFds; ++i) n += fds[i].open && fds[i].owner; return n; }
void expect_mappings(int o, int n, const char* when)
{
    int k = 0; for (int i = 0; i < nmaps; ++i) k += maps[i].live && maps[i].owner == o;
    if (k != n) sim::violation("F02", k > n ? "mapping-leaked" : "mapping-gone", "%s: %d mapping(s) of the view exist, expected %d", when, k, n);
}
void set_owner_of_mappings(int a, int b) { for (int i = 0; i < nmaps; ++i) if (maps[i].live && maps[i].owner == a) maps[i].owner = b; }

// ---- system calls
static int sys_open(const char* p, int flags)
{
    sim::yield_point(1);
    sim::HarnessScope hs;
    static const int E[] = {EINTR, EMFILE, ENFILE, EACCES, ENOMEM, EIO};
    if (owner() && choose(SCHED, 12) == 11) { Op* o = cur(); if (o->active) replace_file(o->file); }
    if (inject(2)) { int e = pick_err(E, 6); sim::fault_fired("open-fails"); fail("open", e); return -1; }
    for (int f = 0; f < kFiles; ++f) if (!strcmp(p, names[f])) {
        const Inode& i = ino[file_ino[f]];
        if (i.kind == MISSING) { fail("open", ENOENT); return -1; }
        if (i.kind == NOPERM || (flags & O_ACCMODE) != O_RDONLY) { fail("open", i.kind == DIR_ ? EISDIR : EACCES, i.kind == REG); return -1; } // files may be read, not written
        if (flags & (O_TRUNC | O_CREAT | O_APPEND)) sim::violation(P, "file-modified", "the file is opened with flags that can modify it");
        int fd = alloc_fd(file_ino[f], flags);
        if (fd < 0) { fail("open", EMFILE); return -1; }
        sim::note("  kernel: open file%d -> descriptor %d", f, fd); sim::rec(40, f, fd); return fd;
    }
    fail("open", ENOENT, true); return -1;
}
static bool bad_fd(int fd, const char* call)
{
    if (fd < 0 || fd >= kFds || !fds[fd].open) { fail(call, EBADF, true); return true; }
    if (owner() && fds[fd].owner != owner()) sim::violation(P, "foreign-descriptor", "%s uses descriptor %d, which belongs to somebody else", call, fd);
    return false;
}
static int fill_stat(int in, struct stat* st)
{
    memset(st, 0, sizeof *st); st->st_mode = ino[in].kind == DIR_ ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = (off_t)ino[in].size; st->st_blksize = 4096; st->st_blocks = (blkcnt_t)((ino[in].size + 511) / 512); st->st_ino = (ino_t)in + 1; st->st_nlink = 1; return 0;
}
static int sys_fstat(int fd, struct stat* st)
{
    sim::yield_point(2); sim::HarnessScope hs;
    if (bad_fd(fd, "fstat")) return -1;
    static const int E[] = {EIO, ENOMEM, EOVERFLOW};
    if (inject(2)) { int e = pick_err(E, 3); sim::fault_fired("fstat-fails"); fail("fstat", e); return -1; }
    if (owner() && choose(SCHED, 12) == 11) { Op* o = cur(); if (o->active) replace_file(o->file); }
    return fill_stat(fds[fd].ino, st);
}
static int sys_stat(const char* p, struct stat* st)
{
    sim::yield_point(2); sim::HarnessScope hs;
    static const int E[] = {EIO, ENOMEM, EOVERFLOW};
    if (inject(2)) { int e = pick_err(E, 3); sim::fault_fired("stat-fails"); fail("stat", e); return -1; }
    if (owner() && choose(SCHED, 12) == 11) { Op* o = cur(); if (o->active) replace_file(o->file); }
    for (int f = 0; f < kFiles; ++f) if (!strcmp(p, names[f]) && ino[file_ino[f]].kind != MISSING) return fill_stat(file_ino[f], st);
    fail("stat", ENOENT); return -1;
}
static void* sys_mmap(void* hint, size_t len, int prot, int flags, int fd, off_t off)
{
    (void)hint;
    sim::yield_point(3); sim::HarnessScope hs;
    if (flags & MAP_ANONYMOUS) { void* r = (void*)syscall(SYS_mmap, nullptr, len, prot, flags, -1, 0); return r; }
    if (bad_fd(fd, "mmap")) return MAP_FAILED;
    static const int E[] = {ENOMEM, EAGAIN, ENFILE, EACCES, ENODEV};
    if (inject(4)) { int e = pick_err(E, 5); sim::fault_fired("mmap-fails"); fail("mmap", e); return MAP_FAILED; }
    const Inode& i = ino[fds[fd].ino];
    if (i.kind == DIR_) { fail("mmap", ENODEV); return MAP_FAILED; }
    if (!len || (off & 4095) || !(flags & (MAP_PRIVATE | MAP_SHARED))) { fail("mmap", EINVAL, true); return MAP_FAILED; }
    if ((flags & MAP_SHARED) && (prot & PROT_WRITE)) { fail("mmap", EACCES, true); return MAP_FAILED; }
    if (nmaps >= kMaps) { fail("mmap", ENOMEM); return MAP_FAILED; }
    uint64_t a = kBase + bump + 4096, total = pages(len);
    bump += total + 8192; // unmapped guard pages on both sides
    uint64_t in_file = (uint64_t)off < i.size ? i.size - (uint64_t)off : 0, n = len < in_file ? len : in_file;
    uint64_t backed = pages(in_file) < total ? pages(in_file) : total; // pages beyond the end of the file fault
    if (backed) {
        void* r = (void*)syscall(SYS_mmap, (void*)a, backed, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (r != (void*)a) { fprintf(stderr, "simulated mmap: no address space\n"); _exit(3); }
        unsigned char* b = (unsigned char*)a;
        auto put = [&](uint64_t from, uint64_t to) { for (uint64_t k = from; k < to && k < n; ++k) b[k] = byte_at(i, k + (uint64_t)off); };
        if (!i.huge) put(0, n);
        else { uint64_t last = (i.size - 1) & ~4095ull, mid = (((i.size - 1) >> 12) / 2) << 12; for (uint64_t pg : {(uint64_t)0, mid, last}) if (pg >= (uint64_t)off) put(pg - (uint64_t)off, pg - (uint64_t)off + 4096); }
        mprotect((void*)a, backed, prot & (PROT_READ | PROT_WRITE));
    }
    maps[nmaps++] = Map{a, len, fds[fd].ino, owner(), true};
    sim::note("  kernel: mmap descriptor %d, %llu bytes -> mapping %d", fd, (unsigned long long)len, nmaps - 1); sim::rec(41, fd, (int)(len & 0x7fffffff), nmaps - 1);
    return (void*)a;
}
static int sys_munmap(void* p, size_t len)
{
    sim::yield_point(4); sim::HarnessScope hs;
    uint64_t a = (uint64_t)p;
    if (a - kBase >= kSpan) { if (a & 4095 || !len) { sim::violation("F02", "bad-unmap", "munmap of an address that is not a mapping"); } 
        sim::violation("F02", "bad-unmap", "munmap of memory that no view mapped"); }
    for (int i = 0; i < nmaps; ++i) if (maps[i].addr == a) {
        if (!maps[i].live) sim::violation("F02", "unmapped-twice", "mapping %d is unmapped a second time", i);
        if (pages(len) != pages(maps[i].len)) sim::violation("F02", "bad-unmap", "mapping %d of %llu bytes is unmapped with length %llu", i, (unsigned long long)maps[i].len, (unsigned long long)len);
        if (maps[i].owner != owner()) sim::violation("F02", "unmapped-early", "mapping %d is unmapped while the view that owns it lives", i);
        maps[i].live = false; sim::note("  kernel: munmap mapping %d", i); sim::rec(42, i);
        syscall(SYS_munmap, p, pages(maps[i].len));
        return 0;
    }
    sim::violation("F02", "bad-unmap", "munmap of an address that is not the start of a mapping");
}
static int sys_close(int fd)
{
    sim::yield_point(5); sim::HarnessScope hs;
    sim::rec(43, fd);
    if (fd < 0 || fd >= kFds || !fds[fd].open) sim::violation("F02", "bad-close", "close of descriptor %d, which is not open", fd);
    if (fds[fd].owner != owner()) sim::violation("F02", "foreign-close", "close of descriptor %d, which belongs to somebody else", fd);
    fds[fd].open = false; sim::note("  kernel: close descriptor %d", fd);
    if (rate && owner() && choose(FAULT, 12) == 1) { int e = choose(FAULT, 2) ? EINTR : EIO; sim::fault_fired("close-fails"); errno = e; sim::note("  kernel: close reports errno %d", e); return -1; }
    return 0;
}
static ssize_t sys_pread(int fd, void* b, size_t n, off_t off)
{
    sim::yield_point(6); sim::HarnessScope hs;
    if (bad_fd(fd, "read")) return -1;
    const Inode& i = ino[fds[fd].ino];
    if (i.kind == DIR_) { fail("read", EISDIR); return -1; }
    if (inject(2)) { int e = choose(FAULT, 2) ? EINTR : EIO; sim::fault_fired("read-fails"); fail("read", e); return -1; }
    if ((uint64_t)off >= i.size) return 0;
    if (n > i.size - (uint64_t)off) n = i.size - (uint64_t)off;
    if (n > 1 && inject(2)) { sim::fault_fired("short-read"); n = 1 + choose(FAULT, (uint32_t)(n - 1 < 100000 ? n - 1 : 100000)); }
    for (size_t k = 0; k < n; ++k) ((unsigned char*)b)[k] = byte_at(i, (uint64_t)off + k);
    return (ssize_t)n;
}
} // namespace fsk
using namespace fsk;
extern "C" {
int simk_open(const char* p, int flags, ...) { return sys_open(p, flags); }
int simk_openat(int, const char* p, int flags, ...) { return sys_open(p, flags); }
int simk_fstat(int fd, struct stat* st) { return sys_fstat(fd, st); }
int simk_stat(const char* p, struct stat* st) { return sys_stat(p, st); }
int simk_fstatat(int fd, const char* p, struct stat* st, int) { return *p ? sys_stat(p, st) : sys_fstat(fd, st); }
void* simk_mmap(void* a, size_t n, int prot, int fl, int fd, off_t o) { return sys_mmap(a, n, prot, fl, fd, o); }
int simk_munmap(void* p, size_t n) { return sys_munmap(p, n); }
int simk_close(int fd) { return sys_close(fd); }
ssize_t simk_pread(int fd, void* b, size_t n, off_t o) { return sys_pread(fd, b, n, o); }
ssize_t simk_read(int fd, void* b, size_t n) { ssize_t r = sys_pread(fd, b, n, fd >= 0 && fd < kFds ? (off_t)fds[fd].pos : 0); if (r > 0) fds[fd].pos += (uint64_t)r; return r; }
off_t simk_lseek(int fd, off_t o, int wh) { sim::HarnessScope hs; if (bad_fd(fd, "lseek")) return -1; uint64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? fds[fd].pos : ino[fds[fd].ino].size; fds[fd].pos = b + (uint64_t)o; return (off_t)fds[fd].pos; }
int simk_advise(void*, size_t, int) { return 0; }
int simk_fadvise(int, off_t, off_t, int) { return 0; }
int simk_dup(int fd) { sim::HarnessScope hs; if (bad_fd(fd, "dup")) return -1; int n = alloc_fd(fds[fd].ino, fds[fd].flags); if (n < 0) { fail("dup", EMFILE); return -1; } return n; }
int simk_fcntl(int fd, int cmd, ...) { sim::HarnessScope hs; if (bad_fd(fd, "fcntl")) return -1; if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return simk_dup(fd); return 0; }
int simk___open64_2(const char*, int, ...) __attribute__((alias("simk_open")));
int simk___open_2(const char*, int, ...) __attribute__((alias("simk_open")));
int simk_fcntl64(int, int, ...) __attribute__((alias("simk_fcntl")));
int simk_fstat64(int, struct stat*) __attribute__((alias("simk_fstat")));
int simk_fstatat64(int, const char*, struct stat*, int) __attribute__((alias("simk_fstatat")));
off_t simk_lseek64(int, off_t, int) __attribute__((alias("simk_lseek")));
int simk_lstat(const char*, struct stat*) __attribute__((alias("simk_stat")));
int simk_lstat64(const char*, struct stat*) __attribute__((alias("simk_stat")));
int simk_madvise(void*, size_t, int) __attribute__((alias("simk_advise")));
void* simk_mmap64(void*, size_t, int, int, int, off_t) __attribute__((alias("simk_mmap")));
int simk_open64(const char*, int, ...) __attribute__((alias("simk_open")));
int simk_openat64(int, const char*, int, ...) __attribute__((alias("simk_openat")));
int simk_posix_fadvise(int, off_t, off_t, int) __attribute__((alias("simk_fadvise")));
int simk_posix_fadvise64(int, off_t, off_t, int) __attribute__((alias("simk_fadvise")));
int simk_posix_madvise(void*, size_t, int) __attribute__((alias("simk_advise")));
ssize_t simk_pread64(int, void*, size_t, off_t) __attribute__((alias("simk_pread")));
int simk_stat64(const char*, struct stat*) __attribute__((alias("simk_stat")));
}
