// World for loading configuration files (C21).
#include "w_util.h"
#include <errno.h>
extern "C" {
#include "conf.h"
#include "log.h"
}
using namespace sim;

namespace cf {
enum { O_PORT, O_PASSWORD, O_BIND, O_PUBLIC, O_DENIED, O_ALLOWED, O_REGNAME, O_TIMEOUT, O_EXT, O_COMMENT, O_EXTADD, NKEY,
       O_UNKNOWN = NKEY, O_REMARK, O_BLANK, O_NOEQUAL, O_NOKEY };
static const char* const keys[NKEY] = {"Port", "Password", "BindAddress", "PublicAddress", "CallsignsDenied", "CallsignsAllowed",
                                       "RegistrationName", "ConnectionTimeout", "ExternalBindAddress", "RegistrationComment",
                                       "AdditionalExternalBindAddresses"};
static const char* const strange[] = {"port", "PORT", "Pork", "Ports", "Passwort", "password", "BindAddres", "BindAddresses", "PublicAddresz",
                                      "CallsignsDenies", "CallsignsAllowes", "RegistrationNames", "Registrationname", "ConnectionTimeouts",
                                      "ExternalBindAddresses", "RegistrationCommenU", "AdditionalExternalBindAddressez", "X", "Po rt", "Password2", "Key with blanks"};
static const char* const badnum[] = {"0x1f", "abc", "81 00", "8100x", "-5", "65536", "70000", "99999999999999999999", "1.5", "8100 # standard", "8100,8101", "4294975396", "-0x1", "-4294959196"};
static const Plan* P;
static int live, n_ok, n_bad, n_fault;

// what the configuration must be
struct Ref {
  std::map<int, std::string> str;     // key -> value; an absent key is unset
  std::vector<std::string> list;
  unsigned port = 8100, timeout = 0;
};
static std::string chars(Rng& r, size_t n) {
  static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_/|*$^()[]?+\\=#, \t\"';:!@%&\x80\xe4\xff";
  std::string s;
  for (size_t i = 0; i < n; i++) {
    char c = cs[r.below(i == 0 || i == n - 1 ? sizeof cs - 1 : sizeof cs - 1)];
    if ((i == 0 || i == n - 1) && (c == ' ' || c == '\t')) c = 'q';
    s += c;
  }
  return s;
}
static size_t vlen(Rng& r) {
  switch (r.below(10)) {
    case 0: return 0;
    case 1: return 1;
    case 2: case 3: case 4: return 1 + r.below(20);
    case 5: case 6: return (size_t)std::max<int64_t>(0, 128 * r.range(1, 4) - r.range(0, 45));   // lines of about a multiple of 128 bytes
    case 7: return (size_t)r.logu(1, r.chance(0.02) ? 150000 : 5000);
    case 8: return 250 + r.below(12);
    default: return 1 + r.below(200);
  }
}
// one line: what is written and what it means
static std::string line_of(const Op& o, Ref& ref, bool& bad, int eol, bool last) {
  Rng r;
  r.seed(hash64((uint64_t)o.b, 5));
  auto blanks = [&r](bool some) { std::string s; if (some) for (int i = 0, n = (int)r.below(r.chance(0.05) ? 140 : 4); i < n; i++) s += r.chance(0.5) ? ' ' : '\t'; return s; };
  bool sp = r.chance(0.4);
  std::string k, v, l;
  if (o.kind < NKEY) k = keys[o.kind];
  bool badline = false;
  switch (o.kind) {
    case O_PORT: case O_TIMEOUT: {
      uint64_t n = 0;
      if (o.c) v = badnum[(size_t)o.c % (sizeof badnum / sizeof *badnum)];
      else if (o.kind == O_PORT) n = r.chance(0.3) ? (r.chance(0.5) ? 65535 : 1) : 1 + r.below(65535);
      else n = r.chance(0.3) ? (r.chance(0.5) ? 4294967295u : 0) : (uint64_t)r.logu(1, 4294967295ll);
      if (o.c && o.kind == O_TIMEOUT && (v == "65536" || v == "70000")) n = strtoull(v.c_str(), nullptr, 10);
      else if (o.c) badline = true;
      if (!o.c) v = std::string(r.chance(0.1) ? r.below(12) : 0, '0') + std::to_string(n);
      if (!badline && !bad) { if (o.kind == O_PORT) ref.port = (unsigned)n; else ref.timeout = (unsigned)n; }
      break;
    }
    case O_EXTADD: {
      std::vector<std::string> e;
      bool gaps = r.chance(0.1);   // empty elements are elements too
      int n = o.c ? 0 : (int)(r.chance(0.06) ? r.range(1, 200) : r.range(1, 6));
      bool crowd = !o.c && r.chance(0.003);   // about as many as can be counted, or more than fit into a byte
      if (crowd) n = (int)(r.chance(0.5) ? r.range(250, 600) : r.chance(0.3) ? r.range(65530, 65540) : r.chance(0.5) ? 65535 : 65536);
      for (int i = 0; i < n; i++) {
        e.push_back(crowd && n > 1000 ? std::string(1, (char)('a' + r.below(26))) : r.chance(0.8) ? "10." + std::to_string(r.below(256)) + ".3." + std::to_string(r.below(256)) : "host" + std::to_string(r.below(100000)));
        if (gaps && n > 1 && r.chance(0.4)) e.back().clear();
        v += (i ? "," : "") + e.back();
      }
      if (n > 65535) badline = true;
      if (!bad && !badline) ref.list = e;
      break;
    }
    case O_PASSWORD:
      v = o.c == 1 ? "" : o.c == 2 ? "notset" : o.c == 3 && r.chance(0.5) ? (r.chance(0.5) ? "notset" + chars(r, 1 + r.below(4)) : std::string(r.chance(0.5) ? "Notset" : "notse")) : chars(r, vlen(r));
      if (v == "notset") badline = true;
      if (!bad && !badline) { ref.str.erase(o.kind); if (!v.empty()) ref.str[o.kind] = v; }
      break;
    case O_UNKNOWN:
      if (o.c % 2) {   // a known key with one character changed
        k = keys[(size_t)o.c / 2 % NKEY];
        size_t at = r.chance(0.3) ? k.size() - 1 : r.chance(0.2) ? 0 : r.below(k.size());
        k[at] = r.chance(0.5) ? (char)(k[at] ^ 32) : k[at] == 'z' ? 'y' : 'z';
      } else k = strange[(size_t)o.c / 2 % (sizeof strange / sizeof *strange)];
      v = r.chance(0.3) ? "0.0.0.0" : chars(r, vlen(r)); break;
    case O_REMARK: {
      l = blanks(sp) + "#" + (r.chance(0.5) ? std::string(r.chance(0.5) ? " " : "") + keys[r.below(NKEY)] + "=" + chars(r, vlen(r)) : chars(r, vlen(r)));
      break;
    }
    case O_BLANK: l = blanks(true); break;
    case O_NOEQUAL: {
      l = r.chance(0.5) ? keys[r.below(NKEY)] : chars(r, 1 + vlen(r));
      l.erase(std::remove(l.begin(), l.end(), '='), l.end());
      break;
    }
    case O_NOKEY: l = blanks(sp) + "=" + chars(r, vlen(r)); break;
    default: v = o.c == 1 ? "" : o.c == 3 ? "0.0.0.0" : chars(r, vlen(r));
      if (!bad) { ref.str.erase(o.kind); if (!v.empty()) ref.str[o.kind] = v; }
  }
  if (o.kind <= O_UNKNOWN) l = blanks(sp) + k + blanks(sp) + "=" + blanks(sp) + v + blanks(sp && r.chance(0.5));
  if (badline) bad = true;
  if (!last) l += eol == 0 || (eol == 2 && r.chance(0.5)) ? "\n" : "\r\n";
  return l;
}
static const char* field(const proxy_conf* c, int k) {
  switch (k) {
    case O_PASSWORD: return c->password;
    case O_BIND: return c->bind_addr;
    case O_PUBLIC: return c->public_addr;
    case O_DENIED: return c->calls_denied;
    case O_ALLOWED: return c->calls_allowed;
    case O_REGNAME: return c->reg_name;
    case O_EXT: return c->bind_addr_ext;
    default: return c->reg_comment;
  }
}
static std::string show(const char* s) { std::string x = s ? s : "(unset)"; return x.size() > 60 ? x.substr(0, 57) + "..." : x; }
static void compare(const proxy_conf* c, const Ref& ref) {
  if (c->port != ref.port) violate("C21:value", "Port is %u instead of %u", c->port, ref.port);
  if (c->connection_timeout != ref.timeout) violate("C21:value", "ConnectionTimeout is %u instead of %u", c->connection_timeout, ref.timeout);
  for (int k = 0; k < NKEY; k++) {
    if (k == O_PORT || k == O_TIMEOUT || k == O_EXTADD) continue;
    const char* is = field(c, k);
    auto w = ref.str.find(k);
    if (is) checked_strlen(is, keys[k]);
    if ((w == ref.str.end()) != !is || (is && w->second != is))
      violate("C21:value", "%s is '%s' instead of '%s' (%zu characters)", keys[k], show(is).c_str(), w == ref.str.end() ? "(unset)" : show(w->second.c_str()).c_str(), w == ref.str.end() ? (size_t)0 : w->second.size());
  }
  if (ref.list.empty()) {
    if (c->bind_addr_ext_add_len) violate("C21:value", "%u additional addresses instead of none", c->bind_addr_ext_add_len);
    return;
  }
  if (!c->bind_addr_ext_add || c->bind_addr_ext_add_len != ref.list.size()) {
    violate("C21:value", "%u additional addresses instead of %zu", c->bind_addr_ext_add ? c->bind_addr_ext_add_len : 0, ref.list.size());
    return;
  }
  for (size_t i = 0; i < ref.list.size(); i++)
    if (checked_strlen(c->bind_addr_ext_add[i], "address") , ref.list[i] != c->bind_addr_ext_add[i])
      violate("C21:value", "additional address %zu is '%s' instead of '%s'", i, show(c->bind_addr_ext_add[i]).c_str(), ref.list[i].c_str());
  stats->probes[40]++;
}
static bool retry(const char* what, std::function<int()> fn) {
  for (int k = 0; k < 60; k++) {
    uint64_t f0 = resource_faults();
    if (fn() == 0) return true;
    if (resource_faults() == f0) { violate("C21:init", "%s failed although no resource failed", what); return false; }
    if (k > 8) faults_on = false;
  }
  return false;
}
static void body(int t) {
  proxy_handle ph;
  log_handle lg;
  bool pub = P->p("public");
  auto setup = [&] {
    memset(&ph, 0, sizeof ph);
    if (pub) { if (!retry("proxy_init", [&] { return proxy_init(&ph); })) return false; proxy_log_level(&ph, P->p("debug") ? LOG_LEVEL_DEBUG : LOG_LEVEL_WARN); if (P->p("logfile")) proxy_log_select_medium(&ph, LOG_MEDIUM_FILE, "/log/a"); }
    else {
      memset(&lg, 0, sizeof lg);
      if (!retry("log_init", [&] { return log_init(&lg); })) return false;
      lg.level = P->p("debug") ? LOG_LEVEL_DEBUG : LOG_LEVEL_WARN;
      if (P->p("logfile")) log_select_medium(&lg, LOG_MEDIUM_FILE, "/log/a");
      if (!retry("conf_init", [&] { return conf_init(&ph.conf); })) return false;
    }
    return true;
  };
  auto drop = [&] { if (pub) proxy_free(&ph); else { conf_free(&ph.conf); log_free(&lg); } };
  if (!setup()) { live--; return; }
  Ref ref;
  for (int i = 0; i < P->p("files"); i++) {
    std::string data;
    bool bad = false;
    Ref nref = ref;
    std::vector<const Op*> ops;
    for (auto& o : P->ops) if (o.who == t * 100 + i) ops.push_back(&o);
    for (size_t k = 0; k < ops.size(); k++)
      data += line_of(*ops[k], nref, bad, (int)P->p("eol"), k + 1 == ops.size() && P->p("noeol"));
    std::string path = "/etc/conf" + std::to_string(t) + "." + std::to_string(i);
    int64_t odd = P->p(("odd" + std::to_string(t) + "." + std::to_string(i)).c_str());
    if (odd != 1) fs_put(path, data);
    if (odd == 2) fs_get(path)->err = EACCES;
    if (odd == 3) { fs_get(path)->dir = true; }
    if (pub && !bad && !nref.list.empty() && (!nref.str.count(O_EXT) || nref.str[O_EXT] == "0.0.0.0")) bad = true;
    for (unsigned char ch : data) mix(ch);
    uint64_t f0 = resource_faults();
    int ret = pub ? proxy_load_conf(&ph, path.c_str()) : conf_parse_file(path.c_str(), &ph.conf, &lg);
    bool faulted = resource_faults() != f0;
    stats->ops++;
    tlog("loading %s (%zu bytes%s%s): %d", path.c_str(), data.size(), bad ? ", invalid" : "", odd ? ", odd" : "", ret);
    if (ret == 0) {
      if (odd) violate("C21:accepted", "a file which cannot be %s was loaded successfully", odd == 3 ? "read" : "opened");
      else if (bad) violate("C21:accepted", "a file with an invalid value was loaded successfully");
      else compare(&ph.conf, nref);
      ref = nref;
      n_ok++;
      stats->probes[39]++;
    } else {
      if (ret > 0) violate("C21:code", "loading a configuration returned %d", ret);
      if (!bad && !odd && !(faulted || P->p("threads") > 1)) violate("C21:refused", "a valid file could not be loaded (%d)", ret);
      if (!bad && !odd && P->p("threads") > 1 && resource_faults() == 0) violate("C21:refused", "a valid file could not be loaded (%d)", ret);
      if (bad || odd) { n_bad++; stats->probes[41]++; } else { n_fault++; stats->probes[42]++; }
      // freed and loaded again without faults: the result is complete
      drop();
      if (!setup()) { live--; return; }
      ref = Ref();
      if (!bad && !odd && P->p("threads") == 1) {
        bool on = faults_on;
        faults_on = false;
        Ref again;
        bool b2 = false;
        for (size_t k = 0; k < ops.size(); k++) line_of(*ops[k], again, b2, 0, false);
        if (pub && !again.list.empty() && (!again.str.count(O_EXT) || again.str[O_EXT] == "0.0.0.0")) b2 = true;
        ret = pub ? proxy_load_conf(&ph, path.c_str()) : conf_parse_file(path.c_str(), &ph.conf, &lg);
        if ((ret != 0) != b2) violate("C21:retry", "loading again without faults returned %d", ret);
        if (ret == 0) { compare(&ph.conf, again); ref = again; }
        else { drop(); if (!setup()) { live--; return; } }
        faults_on = on;
      }
    }
  }
  drop();
  live--;
}
static void gen(Plan& p, Rng& r) {
  gen_sched(p, r);
  Config& c = p.cfg;
  int nt = r.chance(0.75) ? 1 : 2 + (int)r.below(2);
  p.par["threads"] = nt;
  p.par["public"] = r.chance(0.35);
  p.par["debug"] = r.chance(0.3);
  p.par["logfile"] = r.chance(0.3);
  p.par["eol"] = r.below(3);
  p.par["noeol"] = r.chance(0.4);
  int files = 1 + (int)r.below(3);
  p.par["files"] = files;
  if (r.chance(0.5)) c.rate[K_FSHORT] = r.chance(0.5) ? 0.9 : 0.2;
  if (r.chance(0.25)) { if (r.chance(0.5)) c.fail_at[K_ALLOC] = r.range(0, 60); else c.rate[K_ALLOC] = r.chance(0.5) ? 0.02 : 0.15; }
  if (r.chance(0.25)) { if (r.chance(0.5)) c.fail_at[K_FREAD] = r.range(0, 6); else c.rate[K_FREAD] = 0.1; }
  if (r.chance(0.08)) c.rate[K_FOPEN] = 0.3;
  for (int t = 0; t < nt; t++)
    for (int i = 0; i < files; i++) {
      if (r.chance(0.06)) p.par["odd" + std::to_string(t) + "." + std::to_string(i)] = r.range(1, 3);
      int n = (int)(r.chance(0.1) ? r.below(60) : r.below(16));
      bool want_bad = r.chance(0.15);
      for (int k = 0; k < n; k++) {
        int kind = r.chance(0.7) ? (int)r.below(NKEY) : (int)r.range(O_UNKNOWN, O_NOKEY);
        int64_t v = r.chance(0.12) ? 1 : 0;   // unset again
        if (kind == O_UNKNOWN) v = r.range(0, 100);
        if (kind == O_PORT || kind == O_TIMEOUT) v = want_bad && r.chance(0.5) ? r.range(1, 14) : 0;
        if (kind == O_PASSWORD && want_bad && r.chance(0.4)) v = 2;
        else if (kind == O_PASSWORD && r.chance(0.2)) v = 3;
        if (kind == O_EXT && r.chance(0.2)) v = 3;
        add(p, t * 100 + i, kind, 0, 0, (int64_t)(r.next() >> 2), v);
      }
    }
}
static void control() {
  for (int t = 0; t < P->p("threads"); t++) { live++; spawn("loader" + std::to_string(t), [t] { body(t); }, false); }
  while (live) sleep_until(now() + 20 * MS, "waiting for the loaders");
  if (file_objs) violate("C21:leak", "%d files were left open", file_objs);
  leaks("C21:leak", "after freeing");
}
static void exec(const Plan& p) {
  P = &p;
  main_fiber = spawn("main", [] { control(); stop(); }, false);
  on_quiesce = [] { fatal_violation("C21:hang", "nothing can run any more\n%s", fiber_dump().c_str()); return false; };
  run();
  result->nontrivial = n_ok + n_bad + n_fault > 0;
  snprintf(result->sample, sizeof result->sample, "%s/%s index %lld: %lld threads, %lld files each, %zu lines, %s: %d loaded, %d invalid or unreadable, %d failed by a fault",
           p.world.c_str(), p.profile.c_str(), (long long)p.p("index"), (long long)p.p("threads"), (long long)p.p("files"), p.ops.size(), p.p("public") ? "proxy_load_conf" : "conf_parse_file", n_ok, n_bad, n_fault);
  finish_ok();
}
static WorldReg reg({"conf", gen, exec, {"Port", "Password", "BindAddress", "PublicAddress", "CallsignsDenied", "CallsignsAllowed", "RegistrationName", "ConnectionTimeout",
                     "ExternalBindAddress", "RegistrationComment", "AdditionalExternalBindAddresses", "unknown key", "remark", "blank", "no equal sign", "no key"}});
}  // namespace cf
