// In-memory file system behind the POSIX calls, with exhaustively chosen system answers.
//
// Paths below "/mcfake/" and descriptors from fakefs::base on belong to the fake file
// system; every other call goes to the kernel. The answers of the system (full transfer,
// short transfer, interruption, error) are choices of the running execution.
#pragma once
#include "mc.hpp"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <map>
#include <memory>
#include <string>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <termios.h>
#include <unistd.h>
#include <vector>

namespace fakefs {

constexpr int base = 1000000;

struct Inode {
    std::string data;
    bool dir = false;
    bool tty = false;
    int touched = 0;
};
struct Desc {
    std::shared_ptr<Inode> ino;
    std::size_t pos = 0;
    int flags = 0;
    bool open = false;
    int closed = 0;
    int lock = 0; // 0: none, 1: shared, 2: exclusive
};

struct FS {
    std::map<std::string, std::shared_ptr<Inode>> files;
    std::vector<Desc> descs;
    // What the system did since last reset
    int err = 0;           // last injected or real error (other than EINTR)
    int num_err = 0;
    int eintr = 0;
    std::size_t got = 0;   // bytes read
    std::size_t put = 0;   // bytes written
    int calls = 0;
    bool foreign_lock = false; // somebody else holds exclusive lock
    bool deadlock = false;
    std::vector<int> std_closed;
    // Which faults to offer
    bool faults = false;       // read, write
    bool meta_faults = false;  // open, fstat, lseek, futimens, flock
    int tty_err = 0;
    int cols = 80, rows = 25;

    void reset() { err = 0; num_err = 0; eintr = 0; got = put = 0; calls = 0; }
    int open_count() const { int n = 0; for (auto& d : descs) n += d.open; return n; }
    std::shared_ptr<Inode> add(const std::string& path, std::string data = "")
    {
        auto p = std::make_shared<Inode>();
        p->data = std::move(data);
        files["/mcfake/" + path] = p;
        return p;
    }
};
inline FS* fs = nullptr;

inline int fail(int e) { fs->err = e; ++fs->num_err; errno = e; return -1; }

inline Desc* get(int fd)
{
    std::size_t i = std::size_t(fd - base);
    if (i >= fs->descs.size()) return nullptr;
    return &fs->descs[i];
}

// Choose how many of n bytes to transfer: >= 0, or -1 (error set)
inline long transfer(std::size_t n, int error)
{
    if (!fs->faults) return long(n);
    // alternatives: full, EINTR, error, short 1, short n-1, short n/2
    int shorts = (n > 3 ? 3 : n > 2 ? 2 : n > 1 ? 1 : 0);
    int c = mc::current()->deviate(3 + shorts);
    switch (c) {
        case 0: return long(n);
        case 1: ++fs->eintr; errno = EINTR; return -1;
        case 2: return fail(error);
        case 3: return 1;
        case 4: return long(n - 1);
        default: return long(n / 2);
    }
}

} // namespace fakefs

extern "C" {

int open(const char* path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & O_CREAT) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (!fakefs::fs || std::string_view(path).substr(0, 8) != "/mcfake/")
        return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    auto& fs = *fakefs::fs;
    ++fs.calls;
    if (fs.meta_faults && mc::current()->deviate(2)) return fakefs::fail(EACCES);
    auto i = fs.files.find(path);
    std::shared_ptr<fakefs::Inode> ino;
    if (i == fs.files.end()) {
        if (!(flags & O_CREAT)) return fakefs::fail(ENOENT);
        ino = std::make_shared<fakefs::Inode>();
        fs.files[path] = ino;
    }
    else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return fakefs::fail(EEXIST);
        ino = i->second;
        if (ino->dir && (flags & O_ACCMODE) != O_RDONLY) return fakefs::fail(EISDIR);
        if (flags & O_TRUNC) ino->data.clear();
    }
    fakefs::Desc d;
    d.ino = ino;
    d.flags = flags;
    d.open = true;
    fs.descs.push_back(d);
    return fakefs::base + int(fs.descs.size()) - 1;
}

int close(int fd)
{
    if (fakefs::fs && fd >= 0 && fd <= 2) { fakefs::fs->std_closed.push_back(fd); return 0; }
    if (fd < fakefs::base || !fakefs::fs) return int(syscall(SYS_close, fd));
    auto d = fakefs::get(fd);
    MC_CHECK(*mc::current(), d, "close of foreign descriptor ", fd);
    ++d->closed;
    MC_CHECK(*mc::current(), d->open, "descriptor closed twice");
    d->open = false;
    d->lock = 0;
    return 0;
}

ssize_t read(int fd, void* buf, size_t n)
{
    if (fd < fakefs::base || !fakefs::fs) return syscall(SYS_read, fd, buf, n);
    auto d = fakefs::get(fd);
    MC_CHECK(*mc::current(), d && d->open, "read from closed descriptor");
    ++fakefs::fs->calls;
    MC_CHECK(*mc::current(), fakefs::fs->calls < 10000, "too many system calls");
    if (d->ino->dir) return fakefs::fail(EISDIR);
    std::size_t avail = d->pos < d->ino->data.size() ? d->ino->data.size() - d->pos : 0;
    std::size_t k = std::min(n, avail);
    long r = fakefs::transfer(k, EIO);
    if (r <= 0) return r;
    std::memcpy(buf, d->ino->data.data() + d->pos, std::size_t(r));
    d->pos += std::size_t(r);
    fakefs::fs->got += std::size_t(r);
    return r;
}

ssize_t write(int fd, const void* buf, size_t n)
{
    if (fd < fakefs::base || !fakefs::fs) return syscall(SYS_write, fd, buf, n);
    auto d = fakefs::get(fd);
    MC_CHECK(*mc::current(), d && d->open, "write to closed descriptor");
    ++fakefs::fs->calls;
    MC_CHECK(*mc::current(), fakefs::fs->calls < 10000, "too many system calls");
    if ((d->flags & O_ACCMODE) == O_RDONLY) return fakefs::fail(EBADF);
    long r = fakefs::transfer(n, ENOSPC);
    if (r <= 0) return r;
    if (d->flags & O_APPEND) d->pos = d->ino->data.size();
    if (d->ino->data.size() < d->pos + std::size_t(r)) d->ino->data.resize(d->pos + std::size_t(r));
    std::memcpy(d->ino->data.data() + d->pos, buf, std::size_t(r));
    d->pos += std::size_t(r);
    fakefs::fs->put += std::size_t(r);
    return r;
}

off_t lseek(int fd, off_t off, int whence) noexcept
{
    if (fd < fakefs::base || !fakefs::fs) return off_t(syscall(SYS_lseek, fd, off, whence));
    auto d = fakefs::get(fd);
    MC_CHECK(*mc::current(), d && d->open, "seek on closed descriptor");
    if (fakefs::fs->meta_faults && mc::current()->deviate(2)) return fakefs::fail(ESPIPE);
    off_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? off_t(d->pos) : off_t(d->ino->data.size());
    if (b + off < 0) return fakefs::fail(EINVAL);
    d->pos = std::size_t(b + off);
    return off_t(d->pos);
}

int fstat(int fd, struct stat* st) noexcept
{
    if (fd < fakefs::base || !fakefs::fs) return int(syscall(SYS_fstat, fd, st));
    auto d = fakefs::get(fd);
    MC_CHECK(*mc::current(), d && d->open, "fstat on closed descriptor");
    if (fakefs::fs->meta_faults && mc::current()->deviate(2)) return fakefs::fail(EIO);
    std::memset(st, 0, sizeof *st);
    st->st_mode = d->ino->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = off_t(d->ino->data.size());
    return 0;
}

int futimens(int fd, const struct timespec*) noexcept
{
    auto d = fakefs::get(fd);
    MC_CHECK(*mc::current(), d && d->open, "futimens on closed descriptor");
    if (fakefs::fs->meta_faults && mc::current()->deviate(2)) return fakefs::fail(EPERM);
    ++d->ino->touched;
    return 0;
}

int flock(int fd, int op) noexcept
{
    if (fd < fakefs::base || !fakefs::fs) return int(syscall(SYS_flock, fd, op));
    auto d = fakefs::get(fd);
    MC_CHECK(*mc::current(), d && d->open, "flock on closed descriptor");
    auto& fs = *fakefs::fs;
    if (fs.meta_faults) {
        int c = mc::current()->deviate((op & ~LOCK_NB) == LOCK_UN ? 2 : 3);
        if (c == 1) { ++fs.eintr; errno = EINTR; return -1; }
        if (c == 2) return fakefs::fail(ENOLCK);
    }
    if ((op & ~LOCK_NB) == LOCK_UN) { d->lock = 0; return 0; }
    bool ex = (op & ~LOCK_NB) == LOCK_EX;
    MC_CHECK(*mc::current(), ex || (op & ~LOCK_NB) == LOCK_SH, "bad operation");
    bool conflict = fs.foreign_lock;
    for (auto& o : fs.descs)
        if (&o != d && o.ino == d->ino && o.lock && (ex || o.lock == 2)) conflict = true;
    if (conflict) {
        if (op & LOCK_NB) { errno = EWOULDBLOCK; return -1; }
        if (!fs.foreign_lock) { fs.deadlock = true; return fakefs::fail(EDEADLK); } // would block forever
        fs.foreign_lock = false; // Wait until released
        for (auto& o : fs.descs)
            if (&o != d && o.ino == d->ino && o.lock && (ex || o.lock == 2)) { fs.deadlock = true; return fakefs::fail(EDEADLK); }
    }
    d->lock = ex ? 2 : 1;
    return 0;
}

int isatty(int fd) noexcept
{
    if (!fakefs::fs || fd < fakefs::base) {
        struct termios t;
        return syscall(SYS_ioctl, fd, TCGETS, &t) == 0;
    }
    auto d = fakefs::get(fd);
    MC_CHECK(*mc::current(), d && d->open, "isatty on closed descriptor");
    if (d->ino->tty) return 1;
    errno = ENOTTY;
    return 0;
}

int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void* p = va_arg(ap, void*);
    va_end(ap);
    if (!fakefs::fs || fd < fakefs::base) return int(syscall(SYS_ioctl, fd, req, p));
    auto d = fakefs::get(fd);
    MC_CHECK(*mc::current(), d && d->open, "ioctl on closed descriptor");
    if (fakefs::fs->tty_err) { errno = fakefs::fs->tty_err; return -1; }
    auto w = static_cast<struct winsize*>(p);
    w->ws_col = static_cast<unsigned short>(fakefs::fs->cols);
    w->ws_row = static_cast<unsigned short>(fakefs::fs->rows);
    return 0;
}

} // extern "C"
