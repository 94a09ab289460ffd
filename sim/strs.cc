// Checked string and memory functions, heap entry points, PCRE2.
#define PCRE2_CODE_UNIT_WIDTH 8
#include "env.h"
#include <ctype.h>
#include <errno.h>
#include <pcre2.h>
#include <stdio.h>
#include <stdlib.h>
#include <strings.h>
#include <algorithm>
#include <set>

namespace sim {
int pcre_live = 0;
extern uint64_t g_acc, g_next_preempt;
void mem_preempt();
void mem_tick() { if (++g_acc >= g_next_preempt) mem_preempt(); }

std::string vformat(const char* fmt, va_list ap, const char* what) {
  checked_strlen(fmt, what);
  va_list a2;
  va_copy(a2, ap);
  const char* p = fmt;
  while (*p) {
    if (*p++ != '%') continue;
    if (*p == '%') { p++; continue; }
    int prec = -1;
    int lng = 0;
    while (*p && strchr("-+ #0'", *p)) p++;
    if (*p == '*') { va_arg(a2, int); p++; }
    else while (isdigit((unsigned char)*p)) p++;
    if (*p == '.') {
      p++;
      if (*p == '*') { prec = va_arg(a2, int); p++; }
      else { prec = 0; while (isdigit((unsigned char)*p)) prec = prec * 10 + (*p++ - '0'); }
    }
    while (*p && strchr("hlLqjzt", *p)) { if (*p == 'l' || *p == 'j' || *p == 'z' || *p == 't' || *p == 'q') lng++; if (*p == 'L') lng = 9; p++; }
    switch (*p) {
      case 's': {
        const char* s = va_arg(a2, const char*);
        if (s) {
          if (prec < 0) checked_strlen(s, what);
          else for (int i = 0; i < prec; i++) { check_range(s + i, 1, false, what); if (!s[i]) break; }
        }
        break;
      }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'c':
        if (lng) va_arg(a2, long); else va_arg(a2, int);
        break;
      case 'f': case 'g': case 'e': case 'a': case 'F': case 'G': case 'E': case 'A':
        if (lng == 9) va_arg(a2, long double); else va_arg(a2, double);
        break;
      case 'p': case 'n': va_arg(a2, void*); break;
      default: break;
    }
    if (*p) p++;
  }
  va_end(a2);
  char sb[512];
  va_copy(a2, ap);
  int n = vsnprintf(sb, sizeof sb, fmt, a2);
  va_end(a2);
  if (n < 0) return "";
  if (n < (int)sizeof sb) return std::string(sb, (size_t)n);
  std::string r((size_t)n + 1, 0);
  va_copy(a2, ap);
  vsnprintf(&r[0], r.size(), fmt, a2);
  va_end(a2);
  r.resize((size_t)n);
  return r;
}
static void scan_check(const char* fmt, va_list ap, const char* what) {
  va_list a2;
  va_copy(a2, ap);
  const char* p = fmt;
  while (*p) {
    if (*p++ != '%') continue;
    if (*p == '%') { p++; continue; }
    bool skip = false;
    int width = 0, h = 0, l = 0;
    if (*p == '*') { skip = true; p++; }
    while (isdigit((unsigned char)*p)) width = width * 10 + (*p++ - '0');
    while (*p && strchr("hlLjztm", *p)) { if (*p == 'h') h++; else l++; p++; }
    char c = *p;
    if (c == '[') { p++; if (*p == '^') p++; if (*p == ']') p++; while (*p && *p != ']') p++; }
    if (*p) p++;
    if (skip) continue;
    void* q = va_arg(a2, void*);
    size_t n = 4;
    switch (c) {
      case 's': case '[': n = width ? (size_t)width + 1 : 1; break;
      case 'c': n = width ? width : 1; break;
      case 'f': case 'g': case 'e': n = l ? 8 : 4; break;
      case 'p': n = 8; break;
      default: n = h == 1 ? 2 : h >= 2 ? 1 : l ? 8 : 4;
    }
    check_range(q, n, true, what);
  }
  va_end(a2);
}
}  // namespace sim
using namespace sim;
extern "C" {
#define TICK mem_tick()
void* sim_memcpy(void* d, const void* s, size_t n) {
  check_range(s, n, false, "memcpy");
  check_range(d, n, true, "memcpy");
  if (n && d != s && (char*)d < (const char*)s + n && (const char*)s < (char*)d + n) fatal_violation("*:memory", "memcpy of overlapping ranges");
  TICK;
  return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) { check_range(s, n, false, "memmove"); check_range(d, n, true, "memmove"); TICK; return memmove(d, s, n); }
void* sim_mempcpy(void* d, const void* s, size_t n) { sim_memcpy(d, s, n); return (char*)d + n; }
void* sim_memset(void* d, int c, size_t n) { check_range(d, n, true, "memset"); TICK; return memset(d, c, n); }
void sim_bzero(void* d, size_t n) { sim_memset(d, 0, n); }
void sim_explicit_bzero(void* d, size_t n) { sim_memset(d, 0, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { check_range(a, n, false, "memcmp"); check_range(b, n, false, "memcmp"); TICK; return memcmp(a, b, n); }
int sim_bcmp(const void* a, const void* b, size_t n) { return sim_memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) {
  for (size_t i = 0; i < n; i++) { check_range((const char*)a + i, 1, false, "memchr"); if (((const unsigned char*)a)[i] == (unsigned char)c) return (char*)a + i; }
  return nullptr;
}
void* sim_memrchr(const void* a, int c, size_t n) { check_range(a, n, false, "memrchr"); return (void*)memrchr(a, c, n); }
size_t sim_strlen(const char* s) { TICK; return checked_strlen(s, "strlen"); }
size_t sim_strnlen(const char* s, size_t n) { for (size_t i = 0; i < n; i++) { check_range(s + i, 1, false, "strnlen"); if (!s[i]) return i; } return n; }
int sim_strcmp(const char* a, const char* b) {
  TICK;
  for (size_t i = 0;; i++) {
    check_range(a + i, 1, false, "strcmp"); check_range(b + i, 1, false, "strcmp");
    if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
    if (!a[i]) return 0;
  }
}
int sim_strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    check_range(a + i, 1, false, "strncmp"); check_range(b + i, 1, false, "strncmp");
    if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
    if (!a[i]) return 0;
  }
  return 0;
}
int sim_strcasecmp(const char* a, const char* b) { checked_strlen(a, "strcasecmp"); checked_strlen(b, "strcasecmp"); return strcasecmp(a, b); }
int sim_strncasecmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    check_range(a + i, 1, false, "strncasecmp"); check_range(b + i, 1, false, "strncasecmp");
    int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
    if (x != y) return x - y;
    if (!a[i]) return 0;
  }
  return 0;
}
char* sim_strcpy(char* d, const char* s) { size_t n = checked_strlen(s, "strcpy"); check_range(d, n + 1, true, "strcpy"); TICK; return (char*)memmove(d, s, n + 1); }
char* sim_stpcpy(char* d, const char* s) { size_t n = checked_strlen(s, "stpcpy"); check_range(d, n + 1, true, "stpcpy"); memmove(d, s, n + 1); return d + n; }
char* sim_strncpy(char* d, const char* s, size_t n) {
  check_range(d, n, true, "strncpy");
  size_t i = 0;
  for (; i < n; i++) { check_range(s + i, 1, false, "strncpy"); d[i] = s[i]; if (!s[i]) break; }
  for (; i < n; i++) d[i] = 0;
  TICK;
  return d;
}
char* sim_strcat(char* d, const char* s) { size_t a = checked_strlen(d, "strcat"), n = checked_strlen(s, "strcat"); check_range(d + a, n + 1, true, "strcat"); memmove(d + a, s, n + 1); return d; }
char* sim_strncat(char* d, const char* s, size_t n) {
  size_t a = checked_strlen(d, "strncat"), k = sim_strnlen(s, n);
  check_range(d + a, k + 1, true, "strncat");
  memmove(d + a, s, k);
  d[a + k] = 0;
  return d;
}
char* sim_strchr(const char* s, int c) { checked_strlen(s, "strchr"); return (char*)strchr(s, c); }
char* sim_strrchr(const char* s, int c) { checked_strlen(s, "strrchr"); return (char*)strrchr(s, c); }
char* sim_strstr(const char* a, const char* b) { checked_strlen(a, "strstr"); checked_strlen(b, "strstr"); return (char*)strstr(a, b); }
char* sim_strcasestr(const char* a, const char* b) { checked_strlen(a, "strcasestr"); checked_strlen(b, "strcasestr"); return (char*)strcasestr(a, b); }
char* sim_strpbrk(const char* a, const char* b) { checked_strlen(a, "strpbrk"); checked_strlen(b, "strpbrk"); return (char*)strpbrk(a, b); }
size_t sim_strspn(const char* a, const char* b) { checked_strlen(a, "strspn"); checked_strlen(b, "strspn"); return strspn(a, b); }
size_t sim_strcspn(const char* a, const char* b) { checked_strlen(a, "strcspn"); checked_strlen(b, "strcspn"); return strcspn(a, b); }
char* sim_strtok_r(char* s, const char* d, char** sv) { if (s) checked_strlen(s, "strtok_r"); return strtok_r(s, d, sv); }
char* sim_strsep(char** s, const char* d) { if (*s) checked_strlen(*s, "strsep"); return strsep(s, d); }
long sim_strtol(const char* s, char** e, int b) { checked_strlen(s, "strtol"); return strtol(s, e, b); }
unsigned long sim_strtoul(const char* s, char** e, int b) { checked_strlen(s, "strtoul"); return strtoul(s, e, b); }
long long sim_strtoll(const char* s, char** e, int b) { checked_strlen(s, "strtoll"); return strtoll(s, e, b); }
unsigned long long sim_strtoull(const char* s, char** e, int b) { checked_strlen(s, "strtoull"); return strtoull(s, e, b); }
long sim___isoc23_strtol(const char* s, char** e, int b) { return sim_strtol(s, e, b); }
unsigned long sim___isoc23_strtoul(const char* s, char** e, int b) { return sim_strtoul(s, e, b); }
unsigned long long sim___isoc23_strtoull(const char* s, char** e, int b) { return sim_strtoull(s, e, b); }
int sim_atoi(const char* s) { checked_strlen(s, "atoi"); return atoi(s); }
long sim_atol(const char* s) { checked_strlen(s, "atol"); return atol(s); }
char* sim_strtok(char* s, const char* d) { if (s) checked_strlen(s, "strtok"); char* r = strtok(s, d); static_store(); return r; }
char* sim_strerror(int e) { return strerror(e); }
int sim___xpg_strerror_r(int e, char* b, size_t n) { const char* s = strerror(e); if (n) { size_t k = std::min(n - 1, strlen(s)); check_range(b, k + 1, true, "strerror_r"); memcpy(b, s, k); b[k] = 0; } return 0; }
char* sim_strerror_r(int e, char* b, size_t n) { sim___xpg_strerror_r(e, b, n); return b; }

int sim_vsnprintf(char* d, size_t n, const char* fmt, va_list ap) {
  std::string s = vformat(fmt, ap, "snprintf");
  TICK;
  if (n) {
    size_t k = std::min(n - 1, s.size());
    check_range(d, k + 1, true, "snprintf");
    memcpy(d, s.data(), k);
    d[k] = 0;
  }
  return (int)s.size();
}
int sim_snprintf(char* d, size_t n, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vsnprintf(d, n, fmt, ap); va_end(ap); return r; }
int sim_vsprintf(char* d, const char* fmt, va_list ap) {
  std::string s = vformat(fmt, ap, "sprintf");
  check_range(d, s.size() + 1, true, "sprintf");
  memcpy(d, s.c_str(), s.size() + 1);
  TICK;
  return (int)s.size();
}
int sim_sprintf(char* d, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vsprintf(d, fmt, ap); va_end(ap); return r; }
int sim_vsscanf(const char* s, const char* fmt, va_list ap) {
  checked_strlen(s, "sscanf");
  checked_strlen(fmt, "sscanf");
  scan_check(fmt, ap, "sscanf");
  return vsscanf(s, fmt, ap);
}
int sim_sscanf(const char* s, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vsscanf(s, fmt, ap); va_end(ap); return r; }
int sim___isoc99_sscanf(const char* s, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vsscanf(s, fmt, ap); va_end(ap); return r; }
int sim___isoc23_sscanf(const char* s, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vsscanf(s, fmt, ap); va_end(ap); return r; }
int sim___isoc99_vsscanf(const char* s, const char* fmt, va_list ap) { return sim_vsscanf(s, fmt, ap); }

// heap
void* sim_malloc(size_t n) {
  TICK;
  if (fault(K_ALLOC) || n > (32u << 20)) { errno = ENOMEM; return nullptr; }
  return heap_alloc(n, false);
}
void* sim_calloc(size_t a, size_t b) {
  TICK;
  if (fault(K_ALLOC) || (b && a > (32u << 20) / b)) { errno = ENOMEM; return nullptr; }
  return heap_alloc(a * b, true);
}
void* sim_realloc(void* p, size_t n) {
  TICK;
  if (p && !heap_is_live(p)) heap_free(p, "realloc");
  if (fault(K_ALLOC) || n > (32u << 20)) { errno = ENOMEM; return nullptr; }
  if (!p) return heap_alloc(n, false);
  if (n == 0) { heap_free(p, "realloc"); return nullptr; }
  void* q = heap_alloc(n, false);
  memcpy(q, p, std::min(n, heap_size(p)));
  heap_free(p, "realloc");
  return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) { if (b && a > (32u << 20) / b) { errno = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
void sim_free(void* p) { TICK; int e = errno; heap_free(p, "free"); errno = e; }
char* sim_strdup(const char* s) { size_t n = checked_strlen(s, "strdup"); char* d = (char*)sim_malloc(n + 1); if (d) memcpy(d, s, n + 1); return d; }
char* sim_strndup(const char* s, size_t m) { size_t n = sim_strnlen(s, m); char* d = (char*)sim_malloc(n + 1); if (d) { memcpy(d, s, n); d[n] = 0; } return d; }
int sim_vasprintf(char** out, const char* fmt, va_list ap) {
  std::string s = vformat(fmt, ap, "asprintf");
  char* d = (char*)sim_malloc(s.size() + 1);
  check_range(out, sizeof *out, true, "asprintf");
  *out = d;
  if (!d) return -1;
  memcpy(d, s.c_str(), s.size() + 1);
  return (int)s.size();
}
int sim_asprintf(char** out, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vasprintf(out, fmt, ap); va_end(ap); return r; }
int sim_posix_memalign(void** o, size_t al, size_t n) { if (al > 16) return EINVAL; *o = sim_malloc(n); return *o ? 0 : ENOMEM; }

// ---- PCRE2: real library, tracked handles, injected failures ------------------------------------------------------
static std::set<void*> codes, mds;
pcre2_code_8* sim_pcre2_compile_8(PCRE2_SPTR8 p, PCRE2_SIZE len, uint32_t opt, int* ec, PCRE2_SIZE* eo, pcre2_compile_context_8*) {
  if (len == PCRE2_ZERO_TERMINATED) len = checked_strlen((const char*)p, "pcre2_compile");
  else check_range(p, len, false, "pcre2_compile");
  check_range(ec, sizeof *ec, true, "pcre2_compile");
  check_range(eo, sizeof *eo, true, "pcre2_compile");
  if (fault(K_PCRE_ALLOC)) { *ec = PCRE2_ERROR_NOMEMORY; *ec = 121; *eo = 0; return nullptr; }
  pcre2_code_8* c = pcre2_compile_8(p, len, opt, ec, eo, nullptr);
  if (c) { codes.insert(c); pcre_live++; }
  return c;
}
void sim_pcre2_code_free_8(pcre2_code_8* c) {
  if (!c) return;
  if (!codes.erase(c)) fatal_violation("*:memory", "pcre2_code_free of an invalid or already freed pattern");
  pcre_live--;
  pcre2_code_free_8(c);
}
static void ckc(const void* c, const char* w) { if (!codes.count((void*)c)) fatal_violation("*:memory", "%s with an invalid or freed pattern", w); }
static void ckm(const void* c, const char* w) { if (!mds.count((void*)c)) fatal_violation("*:memory", "%s with invalid or freed match data", w); }
pcre2_match_data_8* sim_pcre2_match_data_create_from_pattern_8(const pcre2_code_8* c, pcre2_general_context_8*) {
  ckc(c, "pcre2_match_data_create");
  if (fault(K_PCRE_ALLOC)) return nullptr;
  pcre2_match_data_8* m = pcre2_match_data_create_from_pattern_8(c, nullptr);
  if (m) { mds.insert(m); pcre_live++; }
  return m;
}
pcre2_match_data_8* sim_pcre2_match_data_create_8(uint32_t n, pcre2_general_context_8*) {
  if (fault(K_PCRE_ALLOC)) return nullptr;
  pcre2_match_data_8* m = pcre2_match_data_create_8(n, nullptr);
  if (m) { mds.insert(m); pcre_live++; }
  return m;
}
void sim_pcre2_match_data_free_8(pcre2_match_data_8* m) {
  if (!m) return;
  if (!mds.erase(m)) fatal_violation("*:memory", "pcre2_match_data_free of invalid or already freed match data");
  pcre_live--;
  pcre2_match_data_free_8(m);
}
static std::set<void*> in_match;
int sim_pcre2_match_8(const pcre2_code_8* c, PCRE2_SPTR8 s, PCRE2_SIZE len, PCRE2_SIZE off, uint32_t opt, pcre2_match_data_8* m, pcre2_match_context_8*) {
  point("pcre2_match");
  ckc(c, "pcre2_match");
  ckm(m, "pcre2_match");
  if (len == PCRE2_ZERO_TERMINATED) len = checked_strlen((const char*)s, "pcre2_match");
  else check_range(s, len, false, "pcre2_match");
  if (in_match.count(m)) violate("*:sync", "match data used by two threads at once");
  in_match.insert(m);
  point("pcre2_match2");
  in_match.erase(m);
  uint64_t f = fault_val(K_PCRE_MATCH, 3);
  if (f) { static const int es[] = {PCRE2_ERROR_NOMEMORY, PCRE2_ERROR_MATCHLIMIT, PCRE2_ERROR_INTERNAL}; return es[f - 1]; }
  return pcre2_match_8(c, s, len, off, opt, m, nullptr);
}
int sim_pcre2_get_error_message_8(int e, PCRE2_UCHAR8* b, PCRE2_SIZE n) { check_range(b, n, true, "pcre2_get_error_message"); return pcre2_get_error_message_8(e, b, n); }
int sim_pcre2_jit_compile_8(pcre2_code_8*, uint32_t) { return 0; }
}
