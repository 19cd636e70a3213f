#include "simos.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <stdio.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim
{
SimOS os;
struct OpenFile { std::shared_ptr<Inode> ino; int64_t off; int flags; int pid; };
static std::map<int, std::shared_ptr<OpenFile>> fds;
struct MapRec { std::shared_ptr<Inode> ino; };
static std::map<uint8_t*, MapRec> maps;
static std::map<std::string, int> pids;
static int next_ino = 0;

std::string norm_path(const char* p)
{
    std::string o;
    for (const char* c = p; *c; ++c) {
        if (*c == '/' && !o.empty() && o.back() == '/') continue;
        o.push_back(*c);
        if (o.size() >= 2 && o.substr(o.size() - 2) == "./" && (o.size() == 2 || o[o.size() - 3] == '/')) o.resize(o.size() - 2);
    }
    return o;
}
static std::string parent(const std::string& p)
{
    auto i = p.rfind('/');
    if (i == std::string::npos) return ".";
    if (i == 0) return "/";
    return p.substr(0, i);
}
int SimOS::path_id(const std::string& p)
{
    auto it = pids.find(p);
    if (it != pids.end()) return it->second;
    int n = (int)pids.size();
    pids[p] = n;
    return n;
}
void SimOS::shutdown()
{
    active = false;
    for (auto& m : maps)
        for (auto& mm : m.second.ino->maps) if (mm.addr == m.first) syscall(SYS_munmap, mm.addr, mm.reserve);
    maps.clear();
    for (auto& f : fds) syscall(SYS_close, f.first);
    fds.clear();
    files.clear();
}
void SimOS::reset(const Plan& p)
{
    shutdown();
    pids.clear();
    next_ino = 0;
    faults = p.faults;
    short_rate = p.get("short"); eintr_rate = p.get("eintr");
    capacity = p.get("capacity", -1);
    noise = Rng(mix2(77, p.get("noiseseed")));
    trace.clear(); seq = 0; total_calls = 0; clock_ns = 1000000000ULL * 1000; images.clear();
    errors_fired = 0; last_errno = 0; last_fault.clear(); sticky_write = sticky_read = false; bad_unmap = false;
    dirs = {".", "/", "/d", "/d/sub", "/tmp", "/proc", "/proc/sys/vm"};
    inject = false;
    active = true;
}
static void pull(Inode& i)   // mappings -> data
{
    for (auto& m : i.maps) if (m.writable) {
        size_t n = std::min(m.len, i.data.size());
        memcpy(&i.data[0], m.addr, n);
    }
}
static void push(Inode& i)   // data -> mappings
{
    for (auto& m : i.maps) {
        size_t n = std::min(m.len, i.data.size());
        if (!m.writable) syscall(SYS_mprotect, m.addr, m.reserve - 4096, PROT_READ | PROT_WRITE);
        memcpy(m.addr, i.data.data(), n);
        if (!m.writable) syscall(SYS_mprotect, m.addr, m.reserve - 4096, PROT_READ);
    }
}
Image SimOS::image()
{
    Image im;
    for (auto& f : files) { pull(*f.second); im[f.first] = f.second->data; }
    return im;
}
void SimOS::restore(const Image& im)
{
    files.clear();
    for (auto& f : im) put(f.first, f.second);
}
bool SimOS::exists(const std::string& path) { return files.count(norm_path(path.c_str())) != 0; }
std::string* SimOS::content(const std::string& path)
{
    auto it = files.find(norm_path(path.c_str()));
    if (it == files.end()) return nullptr;
    pull(*it->second);
    return &it->second->data;
}
void SimOS::put(const std::string& path, const std::string& data)
{
    auto& f = files[norm_path(path.c_str())];
    if (!f) { f = std::make_shared<Inode>(); f->id = next_ino++; }
    f->data = data;
    push(*f);
}
int SimOS::open_fds() { return (int)fds.size(); }
int SimOS::open_maps() { return (int)maps.size(); }

// One simulated system call of type t.  Returns the fault to apply, if any.
static const Fault* step(char t)
{
    if (g_io_point) g_io_point();
    os.clock_ns += 2000 + os.noise(150000);
    if (++os.total_calls > os.max_calls) {
        static const char m[] = "SIM-HANG: too many file operations\n";
        syscall(SYS_write, 2, m, sizeof m - 1);
        _exit(77);
    }
    if (!os.inject) return nullptr;
    int64_t n = os.seq++;
    if (os.trace.size() < 400000) os.trace.push_back(t);
    for (auto& f : os.faults) {
        if (f.at != n) continue;
        if (f.kind == "crash") { os.images.emplace_back(n, os.image()); cur->hit("crash_image"); cur->ev("crash-image at %lld", (long long)n); continue; }
        return &f;
    }
    return nullptr;
}
static int err(const char* what, int e)
{
    os.errors_fired++;
    os.last_errno = e;
    os.last_fault = what;
    cur->hit(std::string("fault_") + what);
    cur->nontrivial = true;
    cur->ev("FAULT %s errno=%d", what, e);
    errno = e;
    return -1;
}
static OpenFile* sim_fd(int fd)
{
    if (!os.active) return nullptr;
    auto it = fds.find(fd);
    return it == fds.end() ? nullptr : it->second.get();
}
static int64_t used() { int64_t u = 0; for (auto& f : os.files) u += f.second->data.size(); return u; }

static int do_open(const char* cpath, int flags)
{
    std::string path = norm_path(cpath);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    const Fault* f = step(wr ? 'o' : 'i');
    int pid = os.path_id(path);
    if (f && f->kind == "open_fail") return err("open_fail", f->arg ? (int)f->arg : EACCES);
    auto it = os.files.find(path);
    int e = 0;
    if (os.dirs.count(path)) e = wr ? EISDIR : 0;
    if (it == os.files.end()) {
        if (!(flags & O_CREAT)) e = ENOENT;
        else if (!os.dirs.count(parent(path))) e = ENOENT;
    } else {
        if (wr && it->second->unwritable) e = EACCES;
        if ((flags & O_ACCMODE) != O_WRONLY && it->second->unreadable) e = EACCES;
    }
    if (os.dirs.count(path) && !e) e = EISDIR;
    if (e) { cur->ev("open p%d fl=%x -> errno %d", pid, flags & 0x3ff, e); errno = e; return -1; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
    if (fd < 0) return -1;
    std::shared_ptr<Inode> ino;
    if (it == os.files.end()) { ino = std::make_shared<Inode>(); ino->id = next_ino++; os.files[path] = ino; }
    else ino = it->second;
    if ((flags & O_TRUNC) && wr) { ino->data.clear(); push(*ino); }
    auto of = std::make_shared<OpenFile>();
    of->ino = ino; of->off = 0; of->flags = flags; of->pid = pid;
    fds[fd] = of;
    cur->ev("open p%d fl=%x -> ok size %zu", pid, flags & 0x3ff, ino->data.size());
    return fd;
}
static int drop_fd(int fd) { fds.erase(fd); return (int)syscall(SYS_close, fd); }

static ssize_t do_read(OpenFile* o, void* buf, size_t n)
{
    const Fault* f = step('r');
    if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (os.sticky_read && os.inject) return err("read_eio_sticky", EIO);
    if (f && f->kind == "read_eio") return err("read_eio", EIO);
    if (f && f->kind == "read_eio_sticky") { os.sticky_read = true; return err("read_eio_sticky", EIO); }
    if (os.inject && os.eintr_rate && os.noise(1000) < os.eintr_rate) { cur->hit("noise_eintr"); cur->nontrivial = true; errno = EINTR; return -1; }
    pull(*o->ino);
    auto& d = o->ino->data;
    size_t avail = o->off < (int64_t)d.size() ? d.size() - o->off : 0;
    size_t k = std::min(n, avail);
    if (f && f->kind == "short_read" && k > 1) { k = 1 + (uint64_t)f->arg % (k - 1); cur->hit("fault_short_read"); cur->nontrivial = true; }
    if (os.inject && k > 1 && os.short_rate && os.noise(1000) < os.short_rate) {
        k = os.noise(3) == 0 ? 1 : 1 + os.noise(k);
        cur->hit("noise_short_read"); cur->nontrivial = true;
    }
    memcpy(buf, d.data() + o->off, k);
    o->off += k;
    cur->ev("read p%d n=%zu -> %zu off=%lld", o->pid, n, k, (long long)o->off);
    return k;
}
static ssize_t do_write(OpenFile* o, const void* buf, size_t n)
{
    const Fault* f = step('w');
    if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (os.sticky_write && os.inject) return err("write_enospc_sticky", ENOSPC);
    if (f && f->kind == "write_eio") return err("write_eio", EIO);
    if (f && f->kind == "write_enospc") return err("write_enospc", ENOSPC);
    if (f && f->kind == "write_enospc_sticky") { os.sticky_write = true; return err("write_enospc_sticky", ENOSPC); }
    bool torn = f && f->kind == "write_torn";
    if (os.inject && !torn && os.eintr_rate && os.noise(1000) < os.eintr_rate) { cur->hit("noise_eintr"); cur->nontrivial = true; errno = EINTR; return -1; }
    size_t k = n;
    if (torn) { k = n > 1 ? 1 + (uint64_t)f->arg % (n - 1) : n; os.sticky_write = true; cur->hit("fault_write_torn"); cur->ev("FAULT torn"); os.last_fault = "write_torn"; }
    else if (os.inject && k > 1 && os.short_rate && os.noise(1000) < os.short_rate) {
        k = os.noise(3) == 0 ? 1 : 1 + os.noise(k);
        cur->hit("noise_short_write"); cur->nontrivial = true;
    }
    pull(*o->ino);
    auto& d = o->ino->data;
    if (o->flags & O_APPEND) o->off = d.size();
    if (os.capacity >= 0 && os.inject) {
        int64_t grow = std::max<int64_t>(0, o->off + (int64_t)k - (int64_t)d.size());
        int64_t left = os.capacity - used();
        if (grow > left) {
            int64_t ok = (int64_t)k - (grow - std::max<int64_t>(0, left));
            if (ok <= 0) return err("disk_full", ENOSPC);
            k = ok;
        }
    }
    if ((int64_t)d.size() < o->off) d.resize(o->off, '\0');
    if (d.size() < o->off + k) d.resize(o->off + k);
    memcpy(&d[o->off], buf, k);
    push(*o->ino);
    o->off += k;
    cur->ev("write p%d n=%zu -> %zu off=%lld", o->pid, n, k, (long long)o->off);
    return k;
}
static int64_t do_seek(OpenFile* o, int64_t off, int wh)
{
    const Fault* f = step('s');
    if (f && f->kind == "seek_fail") return err("seek_fail", EIO);
    pull(*o->ino);
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->off : (int64_t)o->ino->data.size();
    if (b + off < 0) { errno = EINVAL; return -1; }
    o->off = b + off;
    cur->ev("seek p%d %lld/%d -> %lld", o->pid, (long long)off, wh, (long long)o->off);
    return o->off;
}
static void fill_stat(struct stat* st, Inode& i)
{
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_ino = i.id + 100; st->st_dev = 7;
    st->st_size = i.data.size(); st->st_blksize = 4096; st->st_blocks = (i.data.size() + 511) / 512;
}
static int do_stat(const char* cpath, struct stat* st)
{
    std::string path = norm_path(cpath);
    const Fault* f = step('f');
    if (f && f->kind == "stat_fail") return err("stat_fail", EIO);
    if (os.dirs.count(path)) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; st->st_size = 4096; return 0; }
    auto it = os.files.find(path);
    cur->ev("stat p%d -> %d", os.path_id(path), it == os.files.end() ? -1 : (int)it->second->data.size());
    if (it == os.files.end()) { errno = ENOENT; return -1; }
    fill_stat(st, *it->second);
    return 0;
}
static int do_truncate(OpenFile* o, int64_t len)
{
    const Fault* f = step('t');
    if (f && f->kind == "truncate_fail") return err("truncate_fail", f->arg ? (int)f->arg : ENOSPC);
    if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
    if (os.capacity >= 0 && os.inject && len > (int64_t)o->ino->data.size() && len - (int64_t)o->ino->data.size() > os.capacity - used()) return err("disk_full", ENOSPC);
    pull(*o->ino);
    o->ino->data.resize(len, '\0');
    for (auto& m : o->ino->maps) {  // pages beyond the end of file fault
        size_t whole = m.reserve - 4096;
        size_t keep = std::min(((size_t)len + 4095) / 4096 * 4096, whole);
        if (keep) syscall(SYS_mprotect, m.addr, keep, m.writable ? PROT_READ | PROT_WRITE : PROT_READ);
        if (keep < whole) syscall(SYS_mprotect, m.addr + keep, whole - keep, PROT_NONE);
    }
    push(*o->ino);
    cur->ev("truncate p%d %lld", o->pid, (long long)len);
    return 0;
}
static void* do_mmap(OpenFile* o, size_t len, int prot, int flags, int64_t off)
{
    const Fault* f = step('m');
    if (f && f->kind == "mmap_fail") { err("mmap_fail", f->arg ? (int)f->arg : ENOMEM); return MAP_FAILED; }
    if (len == 0 || off != 0) { errno = EINVAL; return MAP_FAILED; }
    bool wr = prot & PROT_WRITE;
    if (wr && (flags & MAP_SHARED) && (o->flags & O_ACCMODE) != O_RDWR) { errno = EACCES; return MAP_FAILED; }
    size_t pages = (len + 4095) / 4096 * 4096;
    uint8_t* a = (uint8_t*)syscall(SYS_mmap, nullptr, pages + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (a == (uint8_t*)MAP_FAILED) return MAP_FAILED;
    pull(*o->ino);
    // pages wholly beyond the end of the file stay inaccessible (SIGBUS on a real system)
    size_t acc = std::min(pages, (o->ino->data.size() + 4095) / 4096 * 4096);
    if (acc) syscall(SYS_mprotect, a, acc, PROT_READ | PROT_WRITE);
    memcpy(a, o->ino->data.data(), std::min(len, o->ino->data.size()));
    if (acc && !wr) syscall(SYS_mprotect, a, acc, PROT_READ);
    o->ino->maps.push_back({a, len, pages + 4096, wr && (flags & MAP_SHARED)});
    maps[a] = MapRec{o->ino};
    cur->ev("mmap p%d len=%zu prot=%d", o->pid, len, prot);
    return a;
}
static int do_munmap(uint8_t* a, size_t len)
{
    auto it = maps.find(a);
    const Fault* f = step('u');
    (void)f;
    auto ino = it->second.ino;
    for (size_t i = 0; i < ino->maps.size(); ++i) if (ino->maps[i].addr == a) {
        pull(*ino);
        auto m = ino->maps[i];
        if ((len + 4095) / 4096 != (m.len + 4095) / 4096) { os.bad_unmap = true; cur->ev("munmap wrong length"); }
        ino->maps.erase(ino->maps.begin() + i);
        syscall(SYS_munmap, a, m.reserve);
        break;
    }
    maps.erase(it);
    cur->ev("munmap len=%zu", len);
    return 0;
}
template<class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}

using namespace sim;

extern "C" {

static FILE* sim_fopen(const char* path, const char* mode, const char* sym)
{   SimScope scope_;
    if (!os.active) { auto r = real<FILE* (*)(const char*, const char*)>(sym); return r(path, mode); }
    int fl = 0;
    bool plus = strchr(mode, '+') != nullptr;
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    int fd = do_open(path, fl);
    if (fd < 0) return nullptr;
    bool act = os.active;
    os.active = false;
    FILE* f = fdopen(fd, "r+");
    os.active = act;
    return f;
}
FILE* fopen(const char* p, const char* m) { SimScope scope_; return sim_fopen(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { SimScope scope_; return sim_fopen(p, m, "fopen64"); }
int fclose(FILE* f)
{   SimScope scope_;
    static auto r = real<int (*)(FILE*)>("fclose");
    int fd = fileno(f);
    OpenFile* o = sim_fd(fd);
    if (!o) return r(f);
    const Fault* ft = step('x');
    bool bad = ft && (ft->kind == "close_fail");
    cur->ev("fclose p%d", o->pid);
    fds.erase(fd);
    bool act = os.active;
    os.active = false;
    r(f);
    os.active = act;
    if (bad) { err("close_fail", EIO); return EOF; }
    return 0;
}
int open(const char* path, int flags, ...)
{   SimScope scope_;
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    if (os.active) return do_open(path, flags);
    return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char* path, int flags, ...)
{   SimScope scope_;
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    return open(path, flags, mode);
}
int mkstemps(char* tmpl, int suffix)
{   SimScope scope_;
    if (!os.active) { static auto r = real<int (*)(char*, int)>("mkstemps"); return r(tmpl, suffix); }
    size_t n = strlen(tmpl);
    if (n < 6 + (size_t)suffix) { errno = EINVAL; return -1; }
    static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    for (int t = 0; t < 100; ++t) {
        for (int i = 0; i < 6; ++i) tmpl[n - suffix - 6 + i] = A[os.noise(62)];
        if (!os.files.count(norm_path(tmpl))) return do_open(tmpl, O_RDWR | O_CREAT | O_EXCL);
    }
    errno = EEXIST;
    return -1;
}
int mkstemp(char* tmpl) { SimScope scope_; return mkstemps(tmpl, 0); }
int close(int fd)
{   SimScope scope_;
    OpenFile* o = sim_fd(fd);
    if (!o) return (int)syscall(SYS_close, fd);
    const Fault* ft = step('x');
    bool bad = ft && ft->kind == "close_fail";
    cur->ev("close p%d", o->pid);
    drop_fd(fd);
    if (bad) return err("close_fail", EIO);
    return 0;
}
ssize_t read(int fd, void* b, size_t n) { SimScope scope_; auto o = sim_fd(fd); return o ? do_read(o, b, n) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { SimScope scope_; auto o = sim_fd(fd); return o ? do_write(o, b, n) : syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c)
{   SimScope scope_;
    auto o = sim_fd(fd);
    if (!o) return syscall(SYS_writev, fd, v, c);
    std::string s;
    for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
    return do_write(o, s.data(), s.size());
}
ssize_t readv(int fd, const struct iovec* v, int c)
{   SimScope scope_;
    auto o = sim_fd(fd);
    if (!o) return syscall(SYS_readv, fd, v, c);
    return c ? do_read(o, v[0].iov_base, v[0].iov_len) : 0;
}
off_t lseek(int fd, off_t off, int wh) { SimScope scope_; auto o = sim_fd(fd); return o ? do_seek(o, off, wh) : syscall(SYS_lseek, fd, off, wh); }
off64_t lseek64(int fd, off64_t off, int wh) { SimScope scope_; return lseek(fd, off, wh); }
int stat(const char* p, struct stat* st)
{   SimScope scope_;
    if (os.active) return do_stat(p, st);
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int stat64(const char* p, struct stat64* st) { SimScope scope_; return stat(p, (struct stat*)st); }
int fstat(int fd, struct stat* st)
{   SimScope scope_;
    auto o = sim_fd(fd);
    if (!o) return (int)syscall(SYS_fstat, fd, st);
    const Fault* f = step('f');
    if (f && f->kind == "stat_fail") return err("stat_fail", EIO);
    pull(*o->ino);
    fill_stat(st, *o->ino);
    return 0;
}
int fstat64(int fd, struct stat64* st) { SimScope scope_; return fstat(fd, (struct stat*)st); }
int access(const char* p, int m)
{   SimScope scope_;
    if (!os.active) return (int)syscall(SYS_access, p, m);
    struct stat st;
    return do_stat(p, &st);
}
int unlink(const char* cp)
{   SimScope scope_;
    if (!os.active) return (int)syscall(SYS_unlink, cp);
    std::string p = norm_path(cp);
    const Fault* f = step('d');
    if (f && f->kind == "unlink_fail") return err("unlink_fail", EACCES);
    cur->ev("unlink p%d %d", os.path_id(p), (int)os.files.count(p));
    if (!os.files.erase(p)) { errno = ENOENT; return -1; }
    return 0;
}
int remove(const char* cp)
{   SimScope scope_;
    if (!os.active) { static auto r = real<int (*)(const char*)>("remove"); return r(cp); }
    return unlink(cp);
}
int rename(const char* ca, const char* cb)
{   SimScope scope_;
    if (!os.active) { static auto r = real<int (*)(const char*, const char*)>("rename"); return r(ca, cb); }
    std::string a = norm_path(ca), b = norm_path(cb);
    const Fault* f = step('n');
    if (f && f->kind == "rename_fail") return err("rename_fail", EACCES);
    cur->ev("rename p%d p%d", os.path_id(a), os.path_id(b));
    auto it = os.files.find(a);
    if (it == os.files.end() || !os.dirs.count(parent(b))) { errno = ENOENT; return -1; }
    if (a == b) return 0;
    auto ino = it->second;
    os.files.erase(it);
    os.files[b] = ino;
    return 0;
}
int ftruncate(int fd, off_t len) { SimScope scope_; auto o = sim_fd(fd); return o ? do_truncate(o, len) : (int)syscall(SYS_ftruncate, fd, len); }
int ftruncate64(int fd, off64_t len) { SimScope scope_; return ftruncate(fd, len); }
int ioctl(int fd, unsigned long req, ...)
{   SimScope scope_;
    va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
    auto o = sim_fd(fd);
    if (!o) return (int)syscall(SYS_ioctl, fd, req, arg);
    if (req == FIONREAD) { int64_t n = (int64_t)o->ino->data.size() - o->off; *(int*)arg = n > 0 ? (int)n : 0; return 0; }
    errno = ENOTTY;
    return -1;
}
int (*sim_mmap_hook)(void* addr, size_t len, int prot, int flags, void** out) = nullptr;
void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off)
{   SimScope scope_;
    if (os.active && sim_mmap_hook) { void* r; if (sim_mmap_hook(addr, len, prot, flags, &r)) return r; }
    auto o = (flags & MAP_ANONYMOUS) ? nullptr : sim_fd(fd);
    if (!o) return (void*)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
    return do_mmap(o, len, prot, flags, off);
}
void* mmap64(void* addr, size_t len, int prot, int flags, int fd, off64_t off) { SimScope scope_; return mmap(addr, len, prot, flags, fd, off); }
int munmap(void* a, size_t len)
{   SimScope scope_;
    if (os.active && maps.count((uint8_t*)a)) return do_munmap((uint8_t*)a, len);
    return (int)syscall(SYS_munmap, a, len);
}
int fsync(int fd) { SimScope scope_; return sim_fd(fd) ? (step('y'), 0) : (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { SimScope scope_; return sim_fd(fd) ? (step('y'), 0) : (int)syscall(SYS_fdatasync, fd); }
int msync(void* a, size_t l, int f) { SimScope scope_; if (os.active && maps.count((uint8_t*)a)) return 0; return (int)syscall(SYS_msync, a, l, f); }
pid_t getpid() { return os.active ? 4242 : (pid_t)syscall(SYS_getpid); }
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (os.active && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) { ts->tv_sec = os.clock_ns / 1000000000ULL; ts->tv_nsec = os.clock_ns % 1000000000ULL; return 0; }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
}
