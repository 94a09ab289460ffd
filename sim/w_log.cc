// World for the log (C24).
#include "w_util.h"
#include <errno.h>
#include <stdio.h>
#include <syslog.h>
#include <time.h>
extern "C" {
#include "log.h"
}
using namespace sim;

struct SFILE;
extern "C" int sim_setvbuf(SFILE*, char*, int, size_t);
extern "C" SFILE* sim_stdout;

namespace lw {
enum { O_LOG, O_MEDIUM, O_LEVEL, O_APPEND, O_OPEN, O_IDENT };
static const Plan* P;
struct Msg {
  std::string text;          // without the newline
  int lvl = 0, thread = 0, medium = 0, phase = 0;
  uint64_t i = 0, r = 0;     // call and return
  time_t t0 = 0, t1 = 0;
  std::string file;
  bool shown = false, fault = false;
};
static std::vector<Msg*> msgs;
static uint64_t seq;
static int live, phase;
static bool pub;
static log_handle lg;
static proxy_handle ph;
static int medium, level;
static std::string target;
static std::map<std::string, std::string> initial;       // file -> what was there
struct Foreign { std::string file, line; };
static std::vector<Foreign> foreign;
static const char* const paths[] = {"/var/log/a.log", "/var/log/b.log", "/var/log/old.log", "/missing/x.log", "/var/log/denied.log"};
static const int prio[] = {LOG_CRIT, LOG_ERR, LOG_WARNING, LOG_INFO, LOG_DEBUG};
static uint64_t fw0;
static uint64_t wfaults() { return stats->fault[K_FWRITE] - fw0; }   // the statistics of a process go over many runs
static std::string word(Rng& r, size_t n) {
  static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 %%%:.-_[]/\\\"'\x80\xff\t";
  std::string s;
  for (size_t i = 0; i < n; i++) s += cs[r.below(sizeof cs - 1)];
  return s;
}
static void do_log(int lvl, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void vp(log_handle* l, int lvl, const char* fmt, va_list ap) { log_vprintf(l, (enum LOG_LEVEL)lvl, fmt, ap); }
static void do_log(int lvl, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vp(&lg, lvl, fmt, ap);
  va_end(ap);
}
static Msg* begin(int lvl, int t) {
  Msg* m = new Msg;
  m->lvl = lvl; m->thread = t; m->medium = medium; m->phase = phase;
  m->file = target;
  m->shown = lvl <= level && medium != LOG_MEDIUM_NONE;
  m->i = ++seq;
  m->t0 = now_real() / SEC;
  msgs.push_back(m);
  return m;
}
static void do_one(const Op& o, int t) {
  Rng r;
  r.seed(hash64((uint64_t)o.b, 9));
  int lvl = (int)o.a % 5;
  Msg* m = begin(lvl, t);
  uint64_t f0 = wfaults();
  size_t n = r.chance(0.7) ? r.below(80) : r.chance(0.5) ? (size_t)r.logu(1, 3000) : r.chance(0.6) ? (size_t)(4096 - r.below(60)) : r.chance(0.5) ? 256 - r.below(40) : (size_t)r.logu(1000, r.chance(0.05) ? 100000 : 12000);
  std::string w = word(r, n);
  char id[40];
  snprintf(id, sizeof id, "#%zu.%d#", msgs.size(), t);
  char* buf = (char*)heap_alloc(w.size() + 1, false);
  memcpy(buf, w.c_str(), w.size() + 1);
  char num[64];
  int how = (int)r.below(6);
  enum LOG_LEVEL L = (enum LOG_LEVEL)lvl;
  switch (how) {
    case 0: case 1:
      m->text = std::string(id) + " " + w;
      if (pub) proxy_log(&ph, L, "%s %s\n", id, buf); else log_printf(&lg, L, "%s %s\n", id, buf);
      break;
    case 2: {
      int x = (int)r.range(-100000, 100000);
      unsigned y = (unsigned)r.next();
      snprintf(num, sizeof num, "%d of %u (0x%08x) 100%%", x, y, y);
      m->text = std::string("client ") + id + " sent " + num + " bytes";
      if (pub) proxy_log(&ph, L, "client %s sent %d of %u (0x%08x) 100%% bytes\n", id, x, y, y); else log_printf(&lg, L, "client %s sent %d of %u (0x%08x) 100%% bytes\n", id, x, y, y);
      break;
    }
    case 3: {
      int k = (int)r.below(w.size() + 1);
      m->text = std::string(id) + "'" + w.substr(0, k) + "'";
      if (pub) proxy_log(&ph, L, "%s'%.*s'\n", id, k, buf); else log_printf(&lg, L, "%s'%.*s'\n", id, k, buf);
      break;
    }
    case 4: {
      m->text = std::string(id) + w + id;
      if (pub) proxy_log(&ph, L, "%s%s%s\n", id, buf, id); else do_log(lvl, "%s%s%s\n", id, buf, id);
      break;
    }
    default: {
      uint64_t q = r.next();
      snprintf(num, sizeof num, "%zu %5d|%-6s|%c", (size_t)q, (int)(q % 1000), "ab", 'x');
      m->text = std::string(id) + num;
      if (pub) proxy_log(&ph, L, "%s%zu %5d|%-6s|%c\n", id, (size_t)q, (int)(q % 1000), "ab", 'x'); else do_log(lvl, "%s%zu %5d|%-6s|%c\n", id, (size_t)q, (int)(q % 1000), "ab", 'x');
      break;
    }
  }
  m->t1 = now_real() / SEC;
  m->r = ++seq;
  m->fault = wfaults() != f0;
  // the same again, at once; were a write to fail, nobody could tell which of the two it was
  for (int k = how < 2 && r.chance(0.3) ? (int)r.range(1, 3) : 0; k > 0 && !wfaults(); k--) {
    Msg* q = begin(lvl, t);
    q->text = m->text;
    if (pub) proxy_log(&ph, L, "%s %s\n", id, buf); else log_printf(&lg, L, "%s %s\n", id, buf);
    q->t1 = now_real() / SEC;
    q->r = ++seq;
    q->fault = wfaults() != f0;
    stats->probes[63]++;
  }
  heap_free(buf, "harness");
}
static void opened(const char* when) {
  int want = medium == LOG_MEDIUM_FILE;
  if (file_objs != want) violate("C24:release", "%s: %d log files are open instead of %d", when, file_objs, want);
  if (syslog_opened != (medium == LOG_MEDIUM_SYSLOG)) violate("C24:release", "%s: syslog is %s", when, syslog_opened ? "still open" : "not open");
}
static void ident_expected() {
  Msg* m = begin(LOG_LEVEL_INFO, 99);
  m->text = "OpenELP 0.9.4-dev";
  m->r = ++seq;
}
static void change(const Op& o) {
  stats->ops++;
  switch (o.kind) {
    case O_LEVEL:
      level = (int)o.a % 5;
      if (pub) proxy_log_level(&ph, (enum LOG_LEVEL)level); else lg.level = level;
      break;
    case O_APPEND: {
      FNode* n = fs_get(paths[o.a % 3]);
      if (!n) break;
      std::string l = "another process " + std::to_string(foreign.size()) + "\n";
      n->data += l;
      foreign.push_back({paths[o.a % 3], l});
      break;
    }
    case O_OPEN:
      if (pub) break;
      if (log_open(&lg) == 0) { if (medium == LOG_MEDIUM_NONE) { medium = LOG_MEDIUM_STDOUT; target.clear(); } }
      else violate("C24:select", "log_open failed");
      opened("after log_open");
      break;
    case O_IDENT: {
      Msg* m = begin(LOG_LEVEL_INFO, 99);
      uint64_t f0 = wfaults();
      if (pub) proxy_ident(&ph); else log_ident(&lg);
      m->text = "OpenELP 0.9.4-dev";
      m->t1 = now_real() / SEC;
      m->r = ++seq;
      m->fault = wfaults() != f0;
      break;
    }
    case O_MEDIUM: {
      int md = (int)o.a % 5;
      std::string tg = md == LOG_MEDIUM_FILE ? paths[o.b % 5] : "";
      uint64_t f0 = resource_faults(), w0 = wfaults();
      time_t t0 = now_real() / SEC;
      int ret;
      {
        char* tmp = (char*)heap_alloc(tg.size() + 1, false);
        memcpy(tmp, tg.c_str(), tg.size() + 1);
        const char* tp = md == LOG_MEDIUM_FILE || o.c ? tmp : nullptr;
        ret = pub ? proxy_log_select_medium(&ph, (enum LOG_MEDIUM)md, tp) : log_select_medium(&lg, (enum LOG_MEDIUM)md, tp);
        heap_free(tmp, "harness");
      }
      bool may_fail = md == LOG_MEDIUM_EVENTLOG || (md == LOG_MEDIUM_FILE && (resource_faults() != f0 || o.b % 5 >= 3));
      bool must_fail = md == LOG_MEDIUM_EVENTLOG || (md == LOG_MEDIUM_FILE && o.b % 5 >= 3);
      tlog("selecting %s %s: %d", log_medium_to_str((enum LOG_MEDIUM)md), tg.c_str(), ret);
      if (ret > 0) violate("C24:select", "selecting a medium returned %d", ret);
      if (ret == 0 && must_fail) violate("C24:select", "selecting %s succeeded", md == LOG_MEDIUM_EVENTLOG ? "the event log" : "a file which cannot be opened");
      if (ret < 0 && !may_fail) violate("C24:select", "selecting medium %d failed (%d) although nothing is wrong with it", md, ret);
      if (ret == 0) {
        medium = md;
        target = tg;
        stats->probes[44]++;
        if (pub && md != LOG_MEDIUM_NONE) { ident_expected(); msgs.back()->t0 = t0; msgs.back()->t1 = now_real() / SEC; msgs.back()->fault = wfaults() != w0; }
      } else stats->probes[46]++;
      opened("after selecting a medium");
      break;
    }
  }
}
// every line of the medium must be a message, once, whole; what was to be shown must be there
static void check_stream(const char* what, std::string data, std::vector<Msg*> want, bool stamped, const std::vector<std::string>& also, bool faulty) {
  std::multimap<std::string, Msg*> by;
  for (auto m : want) by.emplace(m->text, m);
  std::vector<std::string> oth = also;
  std::map<Msg*, size_t> pos;
  size_t p = 0, ln = 0;
  while (p < data.size()) {
    size_t e = data.find('\n', p);
    std::string l = data.substr(p, e == std::string::npos ? std::string::npos : e - p);
    size_t at = p;
    p = e == std::string::npos ? data.size() : e + 1;
    ln++;
    auto f = std::find(oth.begin(), oth.end(), l + "\n");
    if (f != oth.end()) { oth.erase(f); continue; }
    if (e == std::string::npos && !faulty) { violate("C24:line", "%s ends with an incomplete line '%s'", what, l.substr(0, 100).c_str()); return; }
    if (e == std::string::npos) continue;
    std::string body = l, st;
    if (stamped) {
      if (l.size() < 18 || l.compare(15, 3, " : ")) {
        if (faulty) goto search;
        violate("C24:line", "line %zu of %s has no timestamp: '%s'", ln, what, l.substr(0, 120).c_str());
        return;
      }
      st = l.substr(0, 15);
      body = l.substr(18);
    }
    {
      auto it = by.find(body);
      if (it != by.end()) {
        // identical texts: the earliest first
        for (auto j = by.lower_bound(body); j != by.upper_bound(body); ++j) if (j->second->i < it->second->i) it = j;
        Msg* m = it->second;
        by.erase(it);
        pos[m] = at;
        stats->probes[43]++;
        if (stamped) {
          bool ok = false;
          for (time_t x = m->t0; x <= m->t1 && !ok; x++) { struct tm tm; char b[32]; gmtime_r(&x, &tm); strftime(b, sizeof b, "%b %d %H:%M:%S", &tm); ok = st == b; }
          if (!ok && !(faulty && m->thread == 99)) violate("C24:stamp", "line %zu of %s has the timestamp '%s', which is not the time of the call", ln, what, st.c_str());
        }
        continue;
      }
    }
  search:
    if (faulty) {   // after a failed write the rest of a line may precede the next one
      bool found = false;
      for (auto it = by.begin(); it != by.end(); ++it) {
        size_t k = l.size() >= it->first.size() ? l.size() - it->first.size() : std::string::npos;
        if (k != std::string::npos && l.compare(k, std::string::npos, it->first) == 0) { pos[it->second] = at; by.erase(it); found = true; break; }
      }
      if (found) continue;
      continue;   // a fragment
    }
    violate("C24:line", "line %zu of %s is none of the messages logged, or is a repetition: '%s' (%zu characters)", ln, what, l.substr(0, 160).c_str(), l.size());
    return;
  }
  if (!oth.empty() && !faulty) violate("C24:append", "%s: a line which was there is gone: '%s'", what, oth[0].substr(0, 80).c_str());
  for (auto& x : by)
    if (!x.second->fault && !(faulty && x.second->thread == 99)) { violate("C24:lost", "%s: a message of level %d was not logged: '%s'", what, x.second->lvl, x.first.substr(0, 100).c_str()); return; }
  if (faulty) return;
  // a message logged after another call has returned comes after that message
  std::vector<Msg*> s;
  for (auto m : want) if (pos.count(m)) s.push_back(m);
  for (auto a : s)
    for (auto b : s)
      if (a->r && a->r < b->i && pos[a] > pos[b]) { violate("C24:order", "%s: '%s' comes before the earlier '%s'", what, b->text.substr(0, 60).c_str(), a->text.substr(0, 60).c_str()); return; }
}
static void check_all() {
  bool faulty = wfaults() > 0;
  std::map<std::string, std::vector<Msg*>> files;
  std::vector<Msg*> con, sys;
  for (auto m : msgs) {
    if (!m->shown) { stats->probes[45]++; continue; }
    if (m->medium == LOG_MEDIUM_FILE) files[m->file].push_back(m);
    else if (m->medium == LOG_MEDIUM_STDOUT) con.push_back(m);
    else sys.push_back(m);
  }
  for (int i = 0; i < 5; i++) {
    FNode* n = fs_get(paths[i]);
    if (!n) { for (auto m : files[paths[i]]) if (!m->fault) { violate("C24:lost", "%s does not exist", paths[i]); break; } continue; }
    std::string was = initial.count(paths[i]) ? initial[paths[i]] : "";
    if (n->data.compare(0, was.size(), was)) { violate("C24:append", "%s no longer begins with what was in it before", paths[i]); continue; }
    std::vector<std::string> al;
    for (auto& f : foreign) if (f.file == paths[i]) al.push_back(f.line);
    check_stream(paths[i], n->data.substr(was.size()), files[paths[i]], true, al, faulty);
  }
  // standard output and standard error together
  std::vector<Msg*> c1, c2;
  for (auto m : con) {
    bool in2 = console[2].find(m->text + "\n") != std::string::npos, in1 = console[1].find(m->text + "\n") != std::string::npos;
    if (m->thread == 99) (m->lvl >= LOG_LEVEL_ERROR && in2 ? c2 : c1).push_back(m);
    else { if (in1 && in2) violate("C24:line", "'%s' appears on both console streams", m->text.substr(0, 60).c_str()); (in2 ? c2 : c1).push_back(m); }
  }
  check_stream("standard output", console[1], c1, false, {}, false);
  check_stream("standard error", console[2], c2, false, {}, false);
  std::string all;
  for (auto& s : sysl) {
    std::string t = s.text;
    if (t.empty() || t.back() != '\n') t += "\n";
    all += t;
  }
  check_stream("syslog", all, sys, false, {}, false);
  for (auto m : sys)
    for (auto& s : sysl)
      if ((s.text == m->text + "\n" || s.text == m->text) && m->thread != 99 && (s.prio & 7) != prio[m->lvl]) violate("C24:priority", "a message of level %d has the syslog priority %d", m->lvl, s.prio & 7);
}
static void body(int t, std::vector<const Op*> ops) {
  for (auto o : ops) {
    if (o->gap) sleep_until(now() + o->gap, "between messages"); else point("message");
    stats->ops++;
    do_one(*o, t);
  }
  live--;
}
static void control() {
  for (int k = 0;; k++) {
    if (k > 8) faults_on = false;
    int r;
    uint64_t f0 = resource_faults();
    if (pub) { memset(&ph, 0, sizeof ph); r = proxy_init(&ph); } else { memset(&lg, 0, sizeof lg); r = log_init(&lg); }
    if (r == 0) break;
    if (resource_faults() == f0) { violate("C24:init", "initialising failed (%d) although no resource failed", r); return; }
  }
  faults_on = true;
  medium = LOG_MEDIUM_NONE;
  level = LOG_LEVEL_INFO;
  int np = (int)P->p("phases"), nt = (int)P->p("nt");
  for (phase = 0; phase < np; phase++) {
    std::vector<std::vector<const Op*>> per(nt);
    for (auto& o : P->ops) {
      if (o.who / 16 != phase) continue;
      if (o.kind != O_LOG) change(o);
      else per[(size_t)(o.who % 16) % nt].push_back(&o);
    }
    for (int t = 0; t < nt; t++)
      if (!per[t].empty()) { live++; auto ops = per[t]; spawn("thread" + std::to_string(t), [t, ops] { body(t, ops); }, false); }
    while (live) sleep_until(now() + 20 * MS, "waiting for the threads");
  }
  if (P->p("closefirst") && !pub) { log_close(&lg); medium = LOG_MEDIUM_NONE; opened("after log_close"); Op o; o.b = 1; do_one(o, 0); }
  check_all();
  if (pub) proxy_free(&ph); else log_free(&lg);
  medium = LOG_MEDIUM_NONE;
  opened("after freeing");
  leaks("C24:leak", "after freeing");
}
static void gen(Plan& p, Rng& r) {
  gen_sched(p, r);
  Config& c = p.cfg;
  if (c.mem_gap == 0 && r.chance(0.4)) c.mem_gap = (uint64_t)r.logu(2, 400);
  int nt = 1 + (int)r.below(5), np = 1 + (int)r.below(6);
  bool flood = r.chance(0.004);
  p.par["nt"] = nt; p.par["phases"] = np;
  p.par["public"] = r.chance(0.4);
  p.par["closefirst"] = r.chance(0.3);
  p.par["fullbuf"] = r.chance(0.3);
  if (r.chance(0.12)) { c.rate[K_STALL] = 0.01; c.max_stall = r.logu(1000, 3 * SEC); }
  if (r.chance(0.15)) c.rate[K_FWRITE] = r.chance(0.5) ? 0.05 : 0.4;
  if (r.chance(0.2)) c.rate[K_FOPEN] = 0.3;
  if (r.chance(0.1)) c.rate[K_ALLOC] = 0.2;
  for (int f = 0; f < np; f++) {
    int n = (int)r.below(3);
    if (f == 0) n++;
    for (int i = 0; i < n; i++) {
      int x = (int)r.below(20);
      if (x < 12) add(p, f * 16, O_MEDIUM, 0, r.chance(0.5) ? (int64_t)LOG_MEDIUM_FILE : (int64_t)r.below(5), r.chance(0.8) ? (int64_t)r.below(3) : (int64_t)r.below(5), r.chance(0.3));
      else if (x < 15) add(p, f * 16, O_LEVEL, 0, (int64_t)r.below(5));
      else if (x < 17) add(p, f * 16, O_APPEND, 0, (int64_t)r.below(3));
      else if (x < 18) add(p, f * 16, O_OPEN, 0);
      else add(p, f * 16, O_IDENT, 0);
    }
    int64_t per = r.chance(0.7) ? 0 : r.logu(1, 3 * SEC);
    for (int t = 0; t < nt; t++)
      for (int i = 0, k = flood ? (int)r.range(30, 400) : (int)r.below(r.chance(0.2) ? 15 : 5); i < k; i++)
        add(p, f * 16 + t, O_LOG, r.chance(0.6) ? 0 : r.range(0, per), (int64_t)r.below(5), (int64_t)(r.next() >> 2));
  }
}
static void exec(const Plan& p) {
  P = &p;
  fw0 = stats->fault[K_FWRITE];
  pub = p.p("public");
  if (p.p("fullbuf")) sim_setvbuf(sim_stdout, nullptr, _IOFBF, 0);
  initial[paths[2]] = "Jan 01 00:00:00 : an older line\nanother one\n";
  fs_put(paths[2], initial[paths[2]]);
  fs_put(paths[4], "x\n")->err = EACCES;
  initial[paths[4]] = "x\n";
  main_fiber = spawn("main", [] { control(); stop(); }, false);
  on_quiesce = [] { fatal_violation("C24:hang", "nothing can run any more\n%s", fiber_dump().c_str()); return false; };
  run();
  int shown = 0;
  for (auto m : msgs) shown += m->shown;
  result->nontrivial = shown > 0;
  snprintf(result->sample, sizeof result->sample, "%s/%s index %lld: %lld threads, %lld phases, %s, %zu messages, %d to be shown, strategy %d, preempt every %llu accesses, simulated %lld ms",
           p.world.c_str(), p.profile.c_str(), (long long)p.p("index"), (long long)p.p("nt"), (long long)p.p("phases"), pub ? "public interface" : "log interface", msgs.size(), shown, cfg.strategy, (unsigned long long)cfg.mem_gap, (long long)(now() / MS));
  finish_ok();
}
static WorldReg reg({"log", gen, exec, {"log", "medium", "level", "append", "open", "ident"}});
}  // namespace lw
