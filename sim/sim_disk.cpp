#include "sim_disk.hpp"
#include "sim_internal.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <set>
#include <stdexcept>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace simdisk {
void (*before_op)() = nullptr;
namespace {
struct Inode { std::string data; bool console = false; };
struct Handle { std::shared_ptr<Inode> ino; std::string name; uint64_t pos = 0; bool append = false, rd = false, wr = false; FILE* f = nullptr; int fd = -1; };
struct State {
  bool on = false; Config c; std::map<std::string, std::shared_ptr<Inode>> files; std::set<std::string> dirs;
  std::map<int, std::shared_ptr<Handle>> fds; std::map<FILE*, std::shared_ptr<Handle>> files_open; int next_fd = 1 << 20; uint64_t ops = 0, failed = 0; int quiet = 0, open_fails = 0, rename_row = 0; bool full = false;
  std::map<std::string, FILE*> streams;
};
State* S = new State;                 // lives as long as the process
struct Here { sim::NoPreempt np; };
bool ours(const char* p) { return S->on && p && p[0] != '/' && p[0] != 0; }
std::string norm(std::string p) { while (p.compare(0, 2, "./") == 0) p.erase(0, 2); while (p.size() > 1 && p.back() == '/') p.pop_back(); return p; }
bool hit(const char* kind, uint32_t num) { return S->on && !S->quiet && S->c.den && num && sim::fault(kind, num, S->c.den); }
void op() { ++S->ops; if (before_op && S->on) before_op(); }
// the device is busy: other tasks may run
void slow() { if (sim::in_task() && hit("disk-slow", S->c.slow)) sim::sleep_for(1000 + sim::draw(sim::FAULT, 5000000)); }

long do_write(Handle& h, const char* p, size_t n) {
  if (h.ino->console) { Here a; h.ino->data.append(p, n); return long(n); }
  slow(); Here here; op();
  auto put = [&](const char* q, size_t k) {
    auto& d = h.ino->data;
    if (h.append) h.pos = d.size();
    if (h.pos > d.size()) d.resize(h.pos, 0);
    if (h.pos == d.size()) d.append(q, k); else { if (h.pos + k > d.size()) d.resize(h.pos + k); memcpy(&d[h.pos], q, k); }
    h.pos += k;
  };
  if (!h.wr) { errno = EBADF; return -1; }
  if (S->full && !(S->quiet) ) { if (hit("disk-full-ends", 1 + S->c.full)) S->full = false; else { sim::fault_count("disk-full"); ++S->failed; errno = ENOSPC; return -1; } }
  if (hit("disk-full", S->c.full)) { size_t k = n ? sim::draw(sim::FAULT, uint32_t(n)) : 0; sim::note(0xd15c, n, k); sim::trace("disk full: %zu of %zu bytes written to %s", k, n, h.name.c_str()); put(p, k); S->full = true; ++S->failed; if (k == 0) { errno = ENOSPC; return -1; } return long(k); }
  if (hit("write-error", S->c.write)) { ++S->failed; sim::trace("write of %zu bytes to %s fails", n, h.name.c_str()); errno = EIO; return -1; }
  if (n > 1 && hit("short-write", S->c.split)) { size_t k = 1 + sim::draw(sim::FAULT, uint32_t(n - 1)); sim::trace("short write: %zu of %zu bytes to %s", k, n, h.name.c_str()); put(p, k); return long(k); }
  put(p, n);
  return long(n);
}
long do_read(Handle& h, char* p, size_t n) {
  slow(); Here here; op();
  if (!h.rd) { errno = EBADF; return -1; }
  if (hit("read-error", S->c.read)) { ++S->failed; errno = EIO; return -1; }
  const auto& d = h.ino->data; size_t k = h.pos >= d.size() ? 0 : std::min(n, d.size() - size_t(h.pos));
  if (k > 1 && hit("short-read", S->c.split)) k = 1 + sim::draw(sim::FAULT, uint32_t(k - 1));
  memcpy(p, d.data() + h.pos, k); h.pos += k;
  return long(k);
}
// stdio on top: the kernel's short writes are retried as the C library does for files
ssize_t c_write(void* c, const char* p, size_t n) {
  Handle& h = *(Handle*)c; size_t done = 0;
  while (done < n) { long k = do_write(h, p + done, n - done); if (k < 0) break; done += size_t(k); }
  return ssize_t(done);
}
ssize_t c_read(void* c, char* p, size_t n) { return do_read(*(Handle*)c, p, n); }
long seek(Handle& h, long off, int whence) {
  long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? long(h.pos) : long(h.ino->data.size());
  if (base + off < 0) { errno = EINVAL; return -1; }
  h.pos = uint64_t(base + off); return long(h.pos);
}
int c_seek(void* c, off64_t* o, int w) { long r = seek(*(Handle*)c, long(*o), w); if (r < 0) return -1; *o = r; return 0; }
int c_close(void* c) {
  Here a; Handle* h = (Handle*)c; int r = 0;
  if (!h->ino->console) { op(); if (hit("close-error", S->c.close)) {
    ++S->failed; errno = EIO; r = -1; auto& d = h->ino->data;
    if (S->c.close_loses && h->wr && !d.empty() && sim::draw(sim::FAULT, 2)) { d.resize(d.size() - 1 - sim::draw(sim::FAULT, uint32_t(std::min<size_t>(d.size(), 4096)))); sim::fault_count("lost-at-close"); }
  } }
  S->fds.erase(h->fd); if (h->f) S->files_open.erase(h->f);
  return r;
}
FILE* do_open(const char* path, const char* mode) {
  slow(); Here here; op();
  std::string n = norm(path);
  if (S->open_fails < S->c.max_open_failures && hit("open-error", S->c.open)) { ++S->open_fails; ++S->failed; static const int e[] = {EMFILE, EACCES, ENOSPC, EIO}; errno = e[sim::draw(sim::FAULT, 4)]; sim::trace("open of %s fails", path); return nullptr; }
  const bool plus = strchr(mode, '+'), w = mode[0] == 'w', ap = mode[0] == 'a';
  if (S->dirs.count(n)) { errno = EISDIR; return nullptr; }
  auto slash = n.rfind('/');
  if (slash != std::string::npos && !S->dirs.count(n.substr(0, slash))) { errno = ENOENT; return nullptr; }
  auto it = S->files.find(n);
  if (it == S->files.end()) { if (!w && !ap) { errno = ENOENT; return nullptr; } it = S->files.emplace(n, std::make_shared<Inode>()).first; }
  if (w) it->second->data.clear();
  auto h = std::make_shared<Handle>(); h->ino = it->second; h->name = n; h->append = ap; h->rd = mode[0] == 'r' || plus; h->wr = w || ap || plus; h->fd = S->next_fd++;
  cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
  h->f = fopencookie(h.get(), mode, io);
  if (!h->f) return nullptr;
  S->fds[h->fd] = h; S->files_open[h->f] = h;
  return h->f;
}
void fill(struct stat* st, const Inode* i) { memset(st, 0, sizeof *st); if (i) { st->st_mode = S_IFREG | 0644; st->st_size = off_t(i->data.size()); } else st->st_mode = S_IFDIR | 0755; st->st_blksize = 4096; st->st_nlink = 1; }
std::shared_ptr<Handle> of(int fd) { if (fd < (1 << 20)) return nullptr; auto i = S->fds.find(fd); return i == S->fds.end() ? nullptr : i->second; }
template <class F> F* next(const char* n) { return (F*)dlsym(RTLD_NEXT, n); }
}
void begin(const Config& c) {
  State* old = S; S = new State; S->c = c; S->on = true; (void)old;   // old streams may still be referenced
  before_op = nullptr;
}
void end() { S->on = false; before_op = nullptr; }
void heal() { S->c = Config(); S->full = false; }
void set(const Config& c) { S->c = c; S->full = false; }
bool exists(const std::string& n) { return S->files.count(n); }
std::string content(const std::string& n) { auto i = S->files.find(n); return i == S->files.end() ? std::string() : i->second->data; }
void put(const std::string& n, const std::string& d) { auto& f = S->files[n]; if (!f) f = std::make_shared<Inode>(); f->data = d; }
std::vector<std::string> list() { std::vector<std::string> v; for (auto& f : S->files) if (!f.second->console) v.push_back(f.first); return v; }
const std::string& data(const std::string& n) { static const std::string none; auto i = S->files.find(n); return i == S->files.end() ? none : i->second->data; }
uint64_t size(const std::string& n) { return data(n).size(); }
uint64_t ops() { return S->ops; }
uint64_t failed() { return S->failed; }
bool any_open() { for (auto& h : S->fds) if (!h.second->ino->console) return true; return false; }
FILE* stream(const std::string& n) {
  auto& i = S->files[n]; if (!i) { i = std::make_shared<Inode>(); i->console = true; }
  auto& f = S->streams[n]; if (f) return f;
  auto h = std::make_shared<Handle>(); h->ino = i; h->name = n; h->append = h->wr = true; h->fd = S->next_fd++;
  cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
  h->f = f = fopencookie(h.get(), "a", io); S->fds[h->fd] = h; S->files_open[f] = h;
  return f;
}
NoFaults::NoFaults() { ++S->quiet; }
NoFaults::~NoFaults() { --S->quiet; }
}

using namespace simdisk;
extern "C" {
FILE* fopen(const char* p, const char* m) { if (ours(p)) return do_open(p, m); static auto f = next<FILE*(const char*, const char*)>("fopen"); return f(p, m); }
FILE* fopen64(const char* p, const char* m) { if (ours(p)) return do_open(p, m); static auto f = next<FILE*(const char*, const char*)>("fopen64"); return f(p, m); }
int fileno(FILE* f) { if (S->on) { auto i = S->files_open.find(f); if (i != S->files_open.end()) return i->second->fd; } static auto g = next<int(FILE*)>("fileno"); return g(f); }
ssize_t write(int fd, const void* p, size_t n) { if (fd >= (1 << 20)) { auto h = of(fd); if (!h) { errno = EBADF; return -1; } return do_write(*h, (const char*)p, n); } static auto f = next<ssize_t(int, const void*, size_t)>("write"); return f(fd, p, n); }
ssize_t writev(int fd, const struct iovec* v, int k) {
  if (fd >= (1 << 20)) { auto h = of(fd); if (!h) { errno = EBADF; return -1; } std::string s; { Here a; for (int i = 0; i < k; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); } return do_write(*h, s.data(), s.size()); }
  static auto f = next<ssize_t(int, const struct iovec*, int)>("writev"); return f(fd, v, k);
}
ssize_t read(int fd, void* p, size_t n) { if (fd >= (1 << 20)) { auto h = of(fd); if (!h) { errno = EBADF; return -1; } return do_read(*h, (char*)p, n); } static auto f = next<ssize_t(int, void*, size_t)>("read"); return f(fd, p, n); }
off_t lseek(int fd, off_t o, int w) { if (fd >= (1 << 20)) { auto h = of(fd); if (!h) { errno = EBADF; return -1; } return seek(*h, o, w); } static auto f = next<off_t(int, off_t, int)>("lseek"); return f(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { if (fd >= (1 << 20)) { auto h = of(fd); if (!h) { errno = EBADF; return -1; } return seek(*h, o, w); } static auto f = next<off64_t(int, off64_t, int)>("lseek64"); return f(fd, o, w); }
int fstat(int fd, struct stat* st) noexcept { if (fd >= (1 << 20)) { auto h = of(fd); if (!h) { errno = EBADF; return -1; } fill(st, h->ino.get()); return 0; } static auto f = next<int(int, struct stat*)>("fstat"); return f(fd, st); }
int fstat64(int fd, struct stat64* st) noexcept { if (fd >= (1 << 20)) return fstat(fd, (struct stat*)st); static auto f = next<int(int, struct stat64*)>("fstat64"); return f(fd, st); }
int stat(const char* p, struct stat* st) noexcept {
  if (ours(p)) { std::string n = norm(p); auto i = S->files.find(n); if (i != S->files.end()) { fill(st, i->second.get()); return 0; } if (n == "." || S->dirs.count(n)) { fill(st, nullptr); return 0; } errno = ENOENT; return -1; }
  static auto f = next<int(const char*, struct stat*)>("stat"); return f(p, st);
}
int stat64(const char* p, struct stat64* st) noexcept { if (ours(p)) return stat(p, (struct stat*)st); static auto f = next<int(const char*, struct stat64*)>("stat64"); return f(p, st); }
int access(const char* p, int m) noexcept { if (ours(p)) { struct stat st; return stat(p, &st); } static auto f = next<int(const char*, int)>("access"); return f(p, m); }
int mkdir(const char* p, mode_t m) noexcept { if (ours(p)) { Here a; std::string n = norm(p); if (S->dirs.count(n) || S->files.count(n)) { errno = EEXIST; return -1; } S->dirs.insert(n); return 0; } static auto f = next<int(const char*, mode_t)>("mkdir"); return f(p, m); }
int unlink(const char* p) noexcept {
  if (ours(p)) { Here a; op(); if (hit("remove-error", S->c.remove)) { ++S->failed; errno = EIO; return -1; } if (S->files.erase(norm(p))) return 0; errno = ENOENT; return -1; }
  static auto f = next<int(const char*)>("unlink"); return f(p);
}
int remove(const char* p) noexcept { if (ours(p)) return unlink(p); static auto f = next<int(const char*)>("remove"); return f(p); }
int rename(const char* a, const char* b) noexcept {
  if (ours(a) && ours(b)) {
    Here x; op(); if (S->rename_row < S->c.max_rename_failures && hit("rename-error", S->c.rename)) { ++S->rename_row; ++S->failed; errno = EACCES; return -1; }
    S->rename_row = 0;
    auto i = S->files.find(norm(a)); if (i == S->files.end()) { errno = ENOENT; return -1; }
    auto n = i->second; S->files.erase(i); S->files[norm(b)] = n; return 0;
  }
  static auto f = next<int(const char*, const char*)>("rename"); return f(a, b);
}
int isatty(int fd) noexcept { if (fd >= (1 << 20)) { errno = ENOTTY; return 0; } static auto f = next<int(int)>("isatty"); return f(fd); }
int fsync(int fd) { if (fd >= (1 << 20)) return of(fd) ? 0 : -1; static auto f = next<int(int)>("fsync"); return f(fd); }
int ioctl(int fd, unsigned long r, ...) noexcept {
  va_list ap; va_start(ap, r); void* arg = va_arg(ap, void*); va_end(ap);
  if (fd >= (1 << 20)) { auto h = of(fd); if (!h) { errno = EBADF; return -1; } if (r == FIONREAD) { *(int*)arg = int(h->ino->data.size() - std::min<uint64_t>(h->pos, h->ino->data.size())); return 0; } errno = ENOTTY; return -1; }
  static auto f = next<int(int, unsigned long, void*)>("ioctl"); return f(fd, r, arg);
}
}
