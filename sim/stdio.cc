// stdio, simulated files, syslog.
#include "env.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <syslog.h>
#include <unistd.h>
#include <algorithm>

namespace sim {
std::map<std::string, FNode*> fs;
std::vector<SysLine> sysl;
bool syslog_opened = false;
std::string cwd = "/home/op";
int file_objs = 0;
std::function<void(FNode*, const char*, size_t)> file_written;
std::function<void(int fd, Obj*, const char*, size_t)> raw_write_hook;
int stdout_mode = 0;

struct FileObj : Obj {
  FNode* node = nullptr;
  size_t pos = 0;
  bool rd = false, wr = false, app = false;
  FileObj() { kind = 2; }
};
FNode* fs_put(const std::string& p, const std::string& d) {
  FNode*& n = fs[p];
  if (!n) n = new FNode;
  n->data = d;
  return n;
}
FNode* fs_get(const std::string& p) { auto i = fs.find(p); return i == fs.end() ? nullptr : i->second; }
static std::string abspath(const char* p) { return p[0] == '/' ? p : cwd == "/" ? std::string("/") + p : cwd + "/" + p; }

static int do_open(const char* path, bool rd, bool wr, bool app, bool creat, bool trunc, bool excl) {
  uint64_t f = fault_val(K_FOPEN, 4);
  if (f) { static const int es[] = {EMFILE, ENOMEM, EACCES, ENFILE}; errno = es[f - 1]; return -1; }
  std::string p = abspath(path);
  FNode* n = fs_get(p);
  if (n && n->err) { errno = n->err; return -1; }
  if (n && n->dir) { errno = wr ? EISDIR : 0; if (wr) return -1; }
  if (!n) {
    if (!creat) { errno = ENOENT; return -1; }
    std::string dir = p.substr(0, p.rfind('/'));
    if (dir.find("/missing") != std::string::npos) { errno = ENOENT; return -1; }
    n = fs_put(p, "");
  } else if (excl && creat) { errno = EEXIST; return -1; }
  FileObj* o = new FileObj;
  o->node = n;
  o->rd = rd; o->wr = wr; o->app = app;
  int fd = fd_install(o);
  if (fd < 0) { delete o; return -1; }
  if (trunc) n->data.clear();
  return fd;
}
static ssize_t file_read(FileObj* o, char* b, size_t n) {
  if (!o->rd) { errno = EBADF; return -1; }
  if (o->node->dir) { errno = EISDIR; return -1; }
  if (fault(K_FREAD)) { errno = EIO; return -1; }
  if (o->node->special) { memset(b, 0, n); return 0; }
  size_t left = o->pos < o->node->data.size() ? o->node->data.size() - o->pos : 0;
  size_t k = std::min(n, left);
  if (k > 1) { uint64_t f = fault_val(K_FSHORT, k - 1); if (f) k = f; }
  memcpy(b, o->node->data.data() + o->pos, k);
  o->pos += k;
  return (ssize_t)k;
}
static ssize_t file_write(FileObj* o, const char* b, size_t n) {
  if (!o->wr) { errno = EBADF; return -1; }
  uint64_t f = n ? fault_val(K_FWRITE, 3) : 0;
  if (f == 1) { errno = ENOSPC; return -1; }
  if (f == 2) { errno = EIO; return -1; }
  if (f == 3 && n > 1) n = 1 + pick(K_RANDV, n - 1);
  if (o->node->special) return (ssize_t)n;
  if (o->app) o->pos = o->node->data.size();
  if (o->node->data.size() < o->pos + n) o->node->data.resize(o->pos + n);
  o->node->data.replace(o->pos, n, b, n);
  o->pos += n;
  o->node->writes++;
  if (file_written) file_written(o->node, b, n);
  return (ssize_t)n;
}
}  // namespace sim
using namespace sim;

// ---- FILE ------------------------------------------------------------------------------------------------------
struct SFILE {
  uint32_t mag;
  int fd;
  int lockn;
  Fiber* owner;
  WaitQ* q;
  std::string* out;
  std::string* in;
  size_t inpos;
  int unget;
  bool rd, wr, eof, err, heap;
  int mode;  // 0 line, 1 full, 2 none
};
static const uint32_t FMAG = 0xf11e0b1e;
static SFILE std_files[3];
extern "C" {
SFILE* sim_stdin = &std_files[0];
SFILE* sim_stdout = &std_files[1];
SFILE* sim_stderr = &std_files[2];
}
static void sf_init(SFILE* f, int fd) {
  f->mag = FMAG;
  f->fd = fd;
  f->q = new WaitQ;
  f->out = new std::string;
  f->in = new std::string;
  f->unget = -1;
}
static std::vector<SFILE*> open_files;
namespace sim {
void stdio_init() {
  for (int i = 0; i < 3; i++) { sf_init(&std_files[i], i); std_files[i].rd = i == 0; std_files[i].wr = i != 0; }
  std_files[1].mode = stdout_mode;
  std_files[2].mode = 2;
}
}
static SFILE* chk(SFILE* f, const char* what) {
  if ((uint64_t)f < 65536) fatal_violation("*:memory", "%s on a null stream", what);
  bool ok = f >= std_files && f < std_files + 3;
  if (!ok) {
    if (!heap_is_live(f) || f->mag != FMAG) fatal_violation("*:memory", "%s on a stream that is closed or invalid", what);
  }
  return f;
}
struct FLock {
  SFILE* f;
  FLock(SFILE* x, const char* what) : f(x) {
    if (!cur) return;
    point(what);
    chk(f, what);
    while (f->owner && f->owner != cur) { wait_on(*f->q, NEVER, "stream lock"); chk(f, what); }
    f->owner = cur;
    f->lockn++;
  }
  ~FLock() {
    if (!cur) return;
    if (--f->lockn == 0) { f->owner = nullptr; wake_one(*f->q); }
  }
};
extern "C" ssize_t sim_fd_write(int fd, Obj* o, const void* b, size_t n);
static int flush(SFILE* f) {
  while (!f->out->empty()) {
    if (cur) point("write");
    if (f->out->empty()) break;  // a re-entrant flush (signal handler) has written it
    Obj* o = fd_get(f->fd, "write of a stream");
    ssize_t r = -1;
    if (o) {
      std::string d = *f->out;
      if (o->kind == 1) {
        char* tmp = (char*)heap_alloc(d.size(), false);
        memcpy(tmp, d.data(), d.size());
        r = sim_fd_write(f->fd, o, tmp, d.size());
        int e = errno;
        heap_free(tmp, "stdio");
        errno = e;
      } else r = sim_fd_write(f->fd, o, d.data(), d.size());
    }
    if (r < 0) { f->err = true; f->out->clear(); return -1; }
    f->out->erase(0, (size_t)r);
  }
  return 0;
}
static int put(SFILE* f, const std::string& s) {
  if (!f->wr) { f->err = true; errno = EBADF; return -1; }
  *f->out += s;
  if (f->mode == 2 || f->out->size() >= 4096 || (f->mode == 0 && s.find('\n') != std::string::npos)) return flush(f);
  return 0;
}
namespace sim {
void stdio_fork() {
  for (int i = 1; i < 3; i++) console[i] += *std_files[i].out;
  for (auto f : open_files)
    if (f->wr) { Obj* o = fd_get(f->fd, "flush"); if (o && o->kind == 2) ((FileObj*)o)->node->data += *f->out; }
}
void stdio_exit_flush() {
  for (int i = 1; i < 3; i++) flush(&std_files[i]);
  for (auto f : open_files) if (f->wr) flush(f);
}
}
extern "C" {
ssize_t sim_send(int fd, const void* b, size_t n, int fl);
ssize_t sim_fd_write(int fd, Obj* o, const void* b, size_t n) {
  if (raw_write_hook) raw_write_hook(fd, o, (const char*)b, n);
  if (o->kind == 1) return sim_send(fd, b, n, 0x4000);
  if (o->kind == 2) return file_write((FileObj*)o, (const char*)b, n);
  console[((Console*)o)->which].append((const char*)b, n);
  if (verbose) tlog("console: %.*s", (int)std::min<size_t>(n, 200), (const char*)b);
  return (ssize_t)n;
}
ssize_t sim_fd_read(int, Obj* o, void* b, size_t n) {
  if (o->kind == 2) return file_read((FileObj*)o, (char*)b, n);
  return 0;
}
SFILE* sim_fopen(const char* path, const char* mode) {
  point("fopen");
  checked_strlen(path, "fopen");
  checked_strlen(mode, "fopen");
  if (fault(K_ALLOC)) { errno = ENOMEM; return nullptr; }
  bool plus = strchr(mode, '+') != nullptr;
  int fd = mode[0] == 'r' ? do_open(path, true, plus, false, false, false, false)
         : mode[0] == 'w' ? do_open(path, plus, true, false, true, true, strchr(mode, 'x') != nullptr)
         : mode[0] == 'a' ? do_open(path, plus, true, true, true, false, false) : (errno = EINVAL, -1);
  if (fd < 0) return nullptr;
  SFILE* f = (SFILE*)heap_alloc(sizeof(SFILE), true);
  sf_init(f, fd);
  f->heap = true;
  f->rd = mode[0] == 'r' || plus;
  f->wr = mode[0] != 'r' || plus;
  f->mode = 1;
  file_objs++;
  open_files.push_back(f);
  return f;
}
SFILE* sim_fdopen(int fd, const char* mode) {
  Obj* o = fd_get(fd, "fdopen");
  if (!o) return nullptr;
  SFILE* f = (SFILE*)heap_alloc(sizeof(SFILE), true);
  sf_init(f, fd);
  f->heap = true;
  f->rd = mode[0] == 'r' || strchr(mode, '+');
  f->wr = mode[0] != 'r' || strchr(mode, '+');
  f->mode = 1;
  file_objs++;
  open_files.push_back(f);
  return f;
}
int sim_fclose(SFILE* f) {
  int r = 0;
  {
    FLock l(f, "fclose");
    if (f->wr) r = flush(f);
  }
  int fd = f->fd;
  if (f->owner) fatal_violation("*:memory", "a stream is closed while another thread uses it");
  point("fclose2");
  chk(f, "fclose");
  if (fd_close(fd) < 0) r = -1;
  if (f->heap) {
    file_objs--;
    open_files.erase(std::remove(open_files.begin(), open_files.end(), f), open_files.end());
    f->mag = 0;
    int e = errno;
    heap_free(f, "fclose");
    errno = e;
  } else { f->wr = f->rd = false; }
  return r < 0 ? EOF : 0;
}
SFILE* sim_freopen(const char* path, const char* mode, SFILE* f) {
  FLock l(f, "freopen");
  flush(f);
  int old = f->fd;
  fd_close(old);
  int fd = mode[0] == 'r' ? do_open(path, true, false, false, false, false, false) : do_open(path, false, true, mode[0] == 'a', true, mode[0] == 'w', false);
  if (fd < 0) return nullptr;
  f->fd = fd;
  f->wr = mode[0] != 'r';
  f->rd = !f->wr;
  return f;
}
int sim_fflush(SFILE* f) {
  if (!f) { stdio_exit_flush(); return 0; }
  FLock l(f, "fflush");
  return flush(f);
}
static int fillbuf(SFILE* f) {
  if (f->eof) { /* glibc retries only regular reads; keep EOF sticky */ return EOF; }
  if (!f->rd) { f->err = true; errno = EBADF; return EOF; }
  Obj* o = fd_get(f->fd, "read of a stream");
  if (!o) { f->err = true; return EOF; }
  char b[1024];
  ssize_t r = sim_fd_read(f->fd, o, b, sizeof b);
  if (r < 0) { f->err = true; return EOF; }
  if (r == 0) { f->eof = true; return EOF; }
  f->in->assign(b, (size_t)r);
  f->inpos = 0;
  return 0;
}
static int getch(SFILE* f) {
  if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
  if (f->inpos >= f->in->size() && fillbuf(f) == EOF) return EOF;
  return (unsigned char)(*f->in)[f->inpos++];
}
int sim_fgetc(SFILE* f) { chk(f, "fgetc"); if (f->inpos < f->in->size() && f->unget < 0) return (unsigned char)(*f->in)[f->inpos++]; FLock l(f, "fgetc"); return getch(f); }
int sim_getc(SFILE* f) { return sim_fgetc(f); }
int sim_getc_unlocked(SFILE* f) { return sim_fgetc(f); }
int sim_fgetc_unlocked(SFILE* f) { return sim_fgetc(f); }
int sim_ungetc(int c, SFILE* f) { chk(f, "ungetc"); f->unget = c & 255; f->eof = false; return c; }
char* sim_fgets(char* s, int n, SFILE* f) {
  FLock l(f, "fgets");
  if (n <= 0) return nullptr;
  int i = 0;
  while (i < n - 1) {
    int c = getch(f);
    if (c == EOF) break;
    check_range(s + i, 2, true, "fgets");
    s[i++] = (char)c;
    if (c == '\n') break;
  }
  if (i == 0 || f->err) { return nullptr; }
  s[i] = 0;
  return s;
}
size_t sim_fread(void* p, size_t sz, size_t n, SFILE* f) {
  FLock l(f, "fread");
  size_t tot = sz * n, i = 0;
  check_range(p, tot, true, "fread");
  while (i < tot) { int c = getch(f); if (c == EOF) break; ((char*)p)[i++] = (char)c; }
  return sz ? i / sz : 0;
}
void* sim_realloc(void* p, size_t n);
void* sim_malloc(size_t n);
ssize_t sim_getdelim(char** lp, size_t* n, int delim, SFILE* f) {
  FLock l(f, "getline");
  check_range(lp, sizeof *lp, true, "getline");
  check_range(n, sizeof *n, true, "getline");
  if (!*lp || !*n) { char* q = (char*)sim_malloc(120); if (!q) { f->err = true; return -1; } *lp = q; *n = 120; }
  size_t i = 0;
  for (;;) {
    int c = getch(f);
    if (c == EOF) break;
    if (i + 2 > *n) { char* q = (char*)sim_realloc(*lp, *n * 2); if (!q) { f->err = true; return -1; } *lp = q; *n *= 2; }
    (*lp)[i++] = (char)c;
    if (c == delim) break;
  }
  if (i == 0 || f->err) return -1;
  (*lp)[i] = 0;
  return (ssize_t)i;
}
ssize_t sim_getline(char** lp, size_t* n, SFILE* f) { return sim_getdelim(lp, n, '\n', f); }
int sim_feof(SFILE* f) { chk(f, "feof"); return f->eof; }
int sim_ferror(SFILE* f) { chk(f, "ferror"); return f->err; }
void sim_clearerr(SFILE* f) { chk(f, "clearerr"); f->eof = f->err = false; }
int sim_fileno(SFILE* f) { chk(f, "fileno"); return f->fd; }
int sim_setvbuf(SFILE* f, char*, int m, size_t) { chk(f, "setvbuf"); f->mode = m == _IONBF ? 2 : m == _IOLBF ? 0 : 1; return 0; }
void sim_setlinebuf(SFILE* f) { chk(f, "setlinebuf"); f->mode = 0; }
void sim_setbuf(SFILE* f, char* b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, 0); }
int sim_fseek(SFILE* f, long off, int wh) {
  FLock l(f, "fseek");
  flush(f);
  Obj* o = fd_get(f->fd, "fseek");
  if (!o || o->kind != 2) return -1;
  FileObj* fo = (FileObj*)o;
  fo->pos = wh == SEEK_SET ? off : wh == SEEK_END ? fo->node->data.size() + off : fo->pos - (f->in->size() - f->inpos) + off;
  f->in->clear(); f->inpos = 0; f->eof = false; f->unget = -1;
  return 0;
}
long sim_ftell(SFILE* f) { FLock l(f, "ftell"); Obj* o = fd_get(f->fd, "ftell"); if (!o || o->kind != 2) return -1; return (long)(((FileObj*)o)->pos - (f->in->size() - f->inpos) + f->out->size()); }
void sim_rewind(SFILE* f) { sim_fseek(f, 0, SEEK_SET); f->err = false; }
void sim_flockfile(SFILE* f) {
  point("flockfile");
  chk(f, "flockfile");
  while (f->owner && f->owner != cur) { wait_on(*f->q, NEVER, "stream lock"); chk(f, "flockfile"); }
  f->owner = cur;
  f->lockn++;
}
void sim_funlockfile(SFILE* f) {
  chk(f, "funlockfile");
  if (f->owner != cur) fatal_violation("*:sync", "funlockfile by a thread that does not hold the stream");
  if (--f->lockn == 0) { f->owner = nullptr; wake_one(*f->q); }
  point("funlockfile");
}
int sim_ftrylockfile(SFILE* f) { chk(f, "ftrylockfile"); if (f->owner && f->owner != cur) return -1; f->owner = cur; f->lockn++; return 0; }

int sim_vfprintf(SFILE* f, const char* fmt, va_list ap) {
  std::string s = vformat(fmt, ap, "vfprintf");
  FLock l(f, "vfprintf");
  if (put(f, s) < 0) return -1;
  return (int)s.size();
}
int sim_fprintf(SFILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_vprintf(const char* fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
int sim_fputs(const char* s, SFILE* f) { size_t n = checked_strlen(s, "fputs"); FLock l(f, "fputs"); return put(f, std::string(s, n)); }
int sim_puts(const char* s) { size_t n = checked_strlen(s, "puts"); FLock l(sim_stdout, "puts"); return put(sim_stdout, std::string(s, n) + "\n"); }
int sim_fputc(int c, SFILE* f) { FLock l(f, "fputc"); return put(f, std::string(1, (char)c)) < 0 ? EOF : c & 255; }
int sim_putc(int c, SFILE* f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
size_t sim_fwrite(const void* p, size_t sz, size_t n, SFILE* f) { check_range(p, sz * n, false, "fwrite"); FLock l(f, "fwrite"); return put(f, std::string((const char*)p, sz * n)) < 0 ? 0 : n; }
int sim_fputs_unlocked(const char* s, SFILE* f) { return sim_fputs(s, f); }
int sim_fputc_unlocked(int c, SFILE* f) { return sim_fputc(c, f); }
int sim_putc_unlocked(int c, SFILE* f) { return sim_fputc(c, f); }
int sim_fflush_unlocked(SFILE* f) { return sim_fflush(f); }
size_t sim_fwrite_unlocked(const void* p, size_t sz, size_t n, SFILE* f) { return sim_fwrite(p, sz, n, f); }
void sim_perror(const char* s) { sim_fprintf(sim_stderr, "%s: %s\n", s, strerror(errno)); }
int sim_vdprintf(int fd, const char* fmt, va_list ap) {
  std::string s = vformat(fmt, ap, "dprintf");
  point("dprintf");
  Obj* o = fd_get(fd, "dprintf");
  return o ? (int)sim_fd_write(fd, o, s.data(), s.size()) : -1;
}
int sim_dprintf(int fd, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vdprintf(fd, fmt, ap); va_end(ap); return r; }

int sim_open(const char* p, int fl, ...) {
  point("open");
  checked_strlen(p, "open");
  int acc = fl & O_ACCMODE;
  return do_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_APPEND, fl & O_CREAT, fl & O_TRUNC, fl & O_EXCL);
}
int sim_open64(const char* p, int fl, ...) { return sim_open(p, fl); }
int sim_creat(const char* p, mode_t) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC); }
off_t sim_lseek(int fd, off_t off, int wh) {
  Obj* o = fd_get(fd, "lseek");
  if (!o) return -1;
  if (o->kind != 2) { errno = ESPIPE; return -1; }
  FileObj* f = (FileObj*)o;
  f->pos = wh == SEEK_SET ? off : wh == SEEK_END ? f->node->data.size() + off : f->pos + off;
  return (off_t)f->pos;
}
int sim_fsync(int fd) { return fd_get(fd, "fsync") ? 0 : -1; }
int sim_unlink(const char* p) { std::string a = abspath(p); if (!fs_get(a)) { errno = ENOENT; return -1; } fs.erase(a); return 0; }
int sim_remove(const char* p) { return sim_unlink(p); }
int sim_rename(const char* a, const char* b) { FNode* n = fs_get(abspath(a)); if (!n) { errno = ENOENT; return -1; } fs.erase(abspath(a)); fs[abspath(b)] = n; return 0; }
int sim_access(const char* p, int m) {
  checked_strlen(p, "access");
  FNode* n = fs_get(abspath(p));
  if (!n) { errno = ENOENT; return -1; }
  if (n->err && m) { errno = n->err; return -1; }
  return 0;
}
int sim_stat(const char* p, struct stat* st) {
  FNode* n = fs_get(abspath(p));
  if (!n) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st);
  st->st_size = (off_t)n->data.size();
  st->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  return 0;
}
int sim_fstat(int fd, struct stat* st) {
  Obj* o = fd_get(fd, "fstat");
  if (!o) return -1;
  memset(st, 0, sizeof *st);
  st->st_mode = o->kind == 1 ? S_IFSOCK : o->kind == 3 ? S_IFCHR : S_IFREG | 0644;
  if (o->kind == 2) st->st_size = (off_t)((FileObj*)o)->node->data.size();
  return 0;
}
int sim_chdir(const char* p) {
  checked_strlen(p, "chdir");
  if (fault(K_SYS)) { errno = EACCES; return -1; }
  cwd = abspath(p);
  return 0;
}
char* sim_getcwd(char* b, size_t n) { if (cwd.size() + 1 > n) { errno = ERANGE; return nullptr; } check_range(b, cwd.size() + 1, true, "getcwd"); strcpy(b, cwd.c_str()); return b; }
int sim_isatty(int) { errno = ENOTTY; return 0; }
mode_t sim_umask(mode_t m) { static mode_t c = 022; mode_t o = c; c = m; return o; }

// ---- syslog ----------------------------------------------------------------------------------------------------
static int syslog_fd = -1;
static int syslog_facility = LOG_USER;
void sim_openlog(const char* ident, int opt, int fac) {
  point("openlog");
  if (ident) checked_strlen(ident, "openlog");
  syslog_facility = fac;
  syslog_opened = true;
  if ((opt & LOG_NDELAY) && syslog_fd < 0) {
    FileObj* o = new FileObj;
    static FNode node;
    o->node = &node;
    o->wr = true;
    syslog_fd = fd_install(o);
  }
}
void sim_closelog(void) {
  point("closelog");
  syslog_opened = false;
  if (syslog_fd >= 0) { int f = syslog_fd; syslog_fd = -1; fd_close(f); }
}
void sim_vsyslog(int prio, const char* fmt, va_list ap) {
  std::string f2;
  size_t n = checked_strlen(fmt, "syslog");
  for (size_t i = 0; i < n; i++) {
    if (fmt[i] == '%' && fmt[i + 1] == 'm') { f2 += strerror(errno); i++; }
    else if (fmt[i] == '%' && fmt[i + 1] == '%') { f2 += "%%"; i++; }
    else f2 += fmt[i];
  }
  char* tmp = (char*)heap_alloc(f2.size() + 1, false);
  memcpy(tmp, f2.c_str(), f2.size() + 1);
  std::string s = vformat(tmp, ap, "vsyslog");
  heap_free(tmp, "vsyslog");
  point("syslog");
  if (!syslog_opened) { s = "[closed]" + s; }
  sysl.push_back({prio, s, now()});
}
void sim_syslog(int prio, const char* fmt, ...) { va_list ap; va_start(ap, fmt); sim_vsyslog(prio, fmt, ap); va_end(ap); }
int sim_setlogmask(int) { return 0xff; }
}
