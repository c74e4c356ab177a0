#include "pbt.h"
#include <cstring>
#include <cstdlib>
#include <iostream>
#include <fstream>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace pbt { std::vector<Property>& registry() { static std::vector<Property> r; return r; } }
using namespace pbt;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Shared {
  volatile uint64_t done, nontriv, discarded, cur_case, cur_sub, state; // state: 0 running 1 failed 2 finished
  volatile uint64_t nchoices;
  char msg[4096];
  uint64_t choices[1 << 18];
  uint64_t live[1 << 18];
};
static Shared* sh;
static const int CASE_SECONDS = 20;

static void arm(int s) { itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, 0); }

static std::string json_escape(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static uint64_t hash_choices(const std::vector<uint64_t>& v) { uint64_t h = 1469598103934665603ull; for (uint64_t x : v) h = mix(h ^ x); return h; }

static void fresh_rng() { rngctl::use_prng(12345); rngctl::edge_rate(0); rngctl::set_normal_const(false, 0); }

// run one case; returns empty string if it held
static std::string run_case(const Property& p, Gen& g, bool& discarded) {
  discarded = false;
  fresh_rng();
  try { p.run(g); }
  catch (const Discard&) { discarded = true; return ""; }
  catch (const Fail& f) { return std::string("check failed: ") + f.what(); }
  catch (const std::exception& e) { return std::string("unexpected exception: ") + e.what(); }
  catch (...) { return "unexpected exception"; }
  return "";
}

struct Outcome { bool bad; std::string msg; std::string desc; };

static void quiet(const char* errfile) {
  int n = open("/dev/null", O_WRONLY); dup2(n, 1);
  int e = errfile ? open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0644) : n; dup2(e, 2);
}
static std::string slurp(const std::string& f, size_t max = 1500) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); std::string r = s.str(); if (r.size() > max) r = r.substr(0, max); return r; }

// run a choice sequence in a child
static Outcome isolated(const Property& p, const std::vector<uint64_t>& ch, const std::string& tmp, bool desc, std::vector<uint64_t>* used = 0) {
  std::string ef = tmp + ".err", df = tmp + ".desc";
  unlink(df.c_str());
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    quiet(ef.c_str()); arm(CASE_SECONDS);
    Gen g(ch); g.want_desc = desc; bool disc; sh->nchoices = 0; sh->msg[0] = 0;
    std::string m = run_case(p, g, disc);
    size_t n = std::min(g.rec.size(), (size_t)(1 << 18)); for (size_t i = 0; i < n; i++) sh->choices[i] = g.rec[i]; sh->nchoices = n;
    if (desc) { std::ofstream o(df); o << g.desc; }
    if (m.empty()) _exit(0);
    strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1); sh->msg[sizeof(sh->msg) - 1] = 0; _exit(3);
  }
  int st; waitpid(pid, &st, 0);
  Outcome o; o.bad = false;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (used) used->assign(sh->choices, sh->choices + sh->nchoices); }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { o.bad = true; o.msg = sh->msg; if (used) used->assign(sh->choices, sh->choices + sh->nchoices); }
  else {
    o.bad = true;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) o.msg = "case did not finish (hang)";
    else o.msg = str("process died (", WIFSIGNALED(st) ? "signal " : "exit ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), "): ", slurp(ef));
    if (used) *used = ch;
  }
  if (desc) o.desc = slurp(df, 20000);
  unlink(ef.c_str()); unlink(df.c_str());
  return o;
}

static std::vector<uint64_t> shrink(const Property& p, std::vector<uint64_t> best, const std::string& tmp, double budget) {
  double t0 = now();
  auto bad = [&](const std::vector<uint64_t>& c) -> bool {
    std::vector<uint64_t> used; Outcome o = isolated(p, c, tmp, false, &used);
    if (!o.bad) return false;
    if (used.size() <= c.size()) best = used; else best = c;
    return true;
  };
  auto timeup = [&] { return now() - t0 > budget; };
  bool progress = true;
  while (progress && !timeup()) {
    progress = false;
    for (size_t k : {256, 64, 32, 16, 8, 4, 2, 1})
      for (size_t i = 0; i + k <= best.size() && !timeup();) {
        std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + k);
        size_t before = best.size();
        if (bad(c) && best.size() < before) progress = true; else i += k;
      }
    for (size_t k : {32, 8, 4, 2})
      for (size_t i = 0; i + k <= best.size() && !timeup(); i += k) {
        bool allz = true; for (size_t j = 0; j < k; j++) if (best[i + j]) allz = false;
        if (allz) continue;
        std::vector<uint64_t> c(best); for (size_t j = 0; j < k; j++) c[i + j] = 0;
        if (bad(c)) progress = true;
      }
    for (size_t i = 0; i < best.size() && !timeup(); i++) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> c(best); c[i] = 0;
      if (bad(c)) { progress = true; continue; }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      int it = 0;
      while (lo + 1 < hi && it++ < 12 && i < best.size() && !timeup()) {
        uint64_t mid = lo + (hi - lo) / 2; c = best; c[i] = mid;
        if (bad(c)) { hi = mid; progress = true; } else lo = mid;
      }
    }
  }
  return best;
}

// P27: a history taken from any other check of this area, run over and over, ends with the memory it started with
static void leak(Gen& g) {
  static std::vector<const Property*> src; if (src.empty()) for (auto& p : registry()) if (p.id != "P27" && !p.fork_each) src.push_back(&p);
  const Property& p = *src[g.raw(src.size())]; size_t start = g.rec.size(); bool d;
  g.note("history of ", p.id, " ", p.sub); std::string m = run_case(p, g, d); g.labels.clear(); g.known.clear(); g.label(p.id + " " + p.sub); if (d || !m.empty()) g.discard();
  std::vector<uint64_t> in(g.rec.begin() + start, g.rec.end()); uint64_t* lv = Gen::live(); Gen::live() = 0; long lost = 0;
  auto grow = [&] { size_t a = __sanitizer_get_current_allocated_bytes(); { Gen q(in); bool dd; run_case(p, q, dd); } return (long)(__sanitizer_get_current_allocated_bytes() - a); };
  long e = grow(); if (e > 0) { long sum = 0; int k = 0; for (; k < 12; k++) { e = grow(); if (e <= 0) break; sum += e; } if (k == 12) lost = sum / 12; }
  Gen::live() = lv;
  REQUIRE(lost == 0, "every run of this history loses about ", lost, " bytes");
}
static Reg leakreg({"P27", "the history is non-trivial by the rule of the check it comes from", leak, false, "memory", 1});

int main(int argc, char** argv) {
  std::string prop, out, replay, tmp = "/tmp/pbt", backend =
#ifdef BACKEND_NAME
    BACKEND_NAME;
#else
    "?";
#endif
  uint64_t seed = 1, cases = 1000; double tmax = 60, shrinkb = 40; int upto = -1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") prop = v; else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--cases") cases = strtoull(v.c_str(), 0, 10); else if (a == "--time") tmax = atof(v.c_str());
    else if (a == "--out") out = v; else if (a == "--replay") replay = v; else if (a == "--tmp") tmp = v;
    else if (a == "--shrink") shrinkb = atof(v.c_str()); else if (a == "--upto") upto = atoi(v.c_str());
  }
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Gen::live() = sh->live;
  tmp += str(".", getpid());
  std::vector<Property> props; for (auto& p : registry()) if (p.id == prop) props.push_back(p);
  if (props.empty()) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }

  if (!replay.empty()) {
    std::ifstream in(replay); std::string line; std::vector<uint64_t> ch; std::string sub; long idx = -1; uint64_t rs = 0;
    while (std::getline(in, line)) {
      if (line.compare(0, 8, "choices=") == 0) { std::istringstream s(line.substr(8)); uint64_t x; while (s >> x) ch.push_back(x); }
      if (line.compare(0, 4, "sub=") == 0) sub = line.substr(4);
      if (line.compare(0, 7, "prefix=") == 0) { std::istringstream s(line.substr(7)); s >> rs >> idx; }
    }
    if (idx >= 0) { seed = rs; upto = idx; cases = idx + 1; tmax = 800; out = ""; shrinkb = 0; }
    else {
      for (auto& p : props) if (p.sub == sub) {
        Outcome o = isolated(p, ch, tmp, true);
        if (o.bad) { printf("FAIL %s\n%s", o.msg.c_str(), o.desc.c_str()); return 1; }
        printf("PASS\n"); return 0;
      }
      fprintf(stderr, "no sub-check %s\n", sub.c_str()); return 2;
    }
  }
  std::vector<int> order; for (size_t i = 0; i < props.size(); i++) for (int k = 0; k < props[i].weight; k++) order.push_back((int)i);

  int pp[2]; if (pipe(pp)) return 2;
  double t0 = now();
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    close(pp[0]); quiet(0);
    std::unordered_set<uint64_t> seen; std::map<std::string, long> labels; std::set<std::string> known;
    std::vector<std::string> samples; std::map<std::string, int> sampled;
    uint64_t done = 0, nont = 0, disc = 0, subn[64] = {0};
    for (uint64_t c = 0; c < cases; c++) {
      if (upto >= 0 && (long)c > upto) break;
      if (now() - t0 > tmax) break;
      int pi = order[c % order.size()]; const Property& p = props[pi];
      uint64_t cs = mix(seed * 1000003 + c * 2 + 1) ^ mix(pi + 77);
      sh->cur_case = c; sh->cur_sub = pi; sh->nchoices = 0; sh->live[0] = 0;
      arm(CASE_SECONDS);
      Gen g(cs); g.want_desc = sampled[p.sub] < 2; bool d; std::string m;
      if (p.fork_each) {
        // generate in the child; transfer results over shared memory
        pid_t q = fork();
        if (q == 0) {
          std::string mm = run_case(p, g, d);
          size_t n = std::min(g.rec.size(), (size_t)(1 << 18)); for (size_t i = 0; i < n; i++) sh->choices[i] = g.rec[i]; sh->nchoices = n;
          strncpy(sh->msg, mm.empty() ? g.desc.c_str() : mm.c_str(), sizeof(sh->msg) - 1); sh->msg[sizeof(sh->msg) - 1] = 0;
          _exit(d ? 5 : !mm.empty() ? 3 : g.nontrivial ? 4 : 0);
        }
        int st; waitpid(q, &st, 0);
        g.rec.assign(sh->choices, sh->choices + sh->nchoices);
        d = false;
        if (!WIFEXITED(st)) { m = "process died"; g.rec.assign(sh->live + 1, sh->live + 1 + sh->live[0]); }
        else { int e = WEXITSTATUS(st); if (e == 3) m = sh->msg; else if (e == 4) { g.nontrivial = true; g.desc = sh->msg; } else if (e == 5) d = true; else if (e != 0) { m = "process died"; g.rec.assign(sh->live + 1, sh->live + 1 + sh->live[0]); } }
      } else m = run_case(p, g, d);
      arm(0);
      done++; subn[pi]++;
      if (d) { disc++; continue; }
      for (auto& l : g.labels) labels[p.sub + ":" + l.first] += 1;
      for (auto& k : g.known) known.insert(k);
      if (g.nontrivial && seen.size() < 4000000 && seen.insert(hash_choices(g.rec) ^ pi).second) {
        nont++;
        if (g.want_desc && !g.desc.empty()) { sampled[p.sub]++; samples.push_back("[" + p.sub + "] " + g.desc.substr(0, 1200)); }
      }
      if (!m.empty()) {
        sh->state = 1; size_t n = std::min(g.rec.size(), (size_t)(1 << 18)); for (size_t i = 0; i < n; i++) sh->choices[i] = g.rec[i]; sh->nchoices = n;
        strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1); sh->msg[sizeof(sh->msg) - 1] = 0; _exit(3);
      }
    }
    std::ostringstream o;
    o << "{\"evaluations\":" << done << ",\"distinct_nontrivial\":" << nont << ",\"discarded\":" << disc << ",\"labels\":{";
    bool f = true; for (auto& l : labels) { o << (f ? "" : ",") << "\"" << json_escape(l.first) << "\":" << l.second; f = false; }
    o << "},\"subs\":{"; for (size_t i = 0; i < props.size(); i++) o << (i ? "," : "") << "\"" << props[i].sub << "\":" << subn[i];
    o << "},\"rules\":{"; for (size_t i = 0; i < props.size(); i++) o << (i ? "," : "") << "\"" << props[i].sub << "\":\"" << json_escape(props[i].rule) << "\"";
    o << "},\"known\":["; f = true; for (auto& k : known) { o << (f ? "" : ",") << "\"" << json_escape(k) << "\""; f = false; }
    o << "],\"samples\":["; f = true; for (auto& s : samples) { o << (f ? "" : ",") << "\"" << json_escape(s) << "\""; f = false; }
    o << "]}";
    std::string s = o.str(); size_t w = 0; while (w < s.size()) { ssize_t r = write(pp[1], s.data() + w, s.size() - w); if (r <= 0) break; w += r; }
    _exit(0);
  }
  close(pp[1]);
  std::string res; char buf[65536]; ssize_t r; while ((r = read(pp[0], buf, sizeof buf)) > 0) res.append(buf, r);
  int st; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    if (!out.empty()) { std::ofstream o(out); o << res; }
    if (upto >= 0) printf("PASS\n");
    return 0;
  }
  // violation: reproduce, shrink
  int pi = sh->cur_sub; uint64_t c = sh->cur_case; const Property p = props[pi];
  if (upto >= 0) { printf("FAIL at case %lu\n", (unsigned long)c); return 1; }
  std::vector<uint64_t> ch; std::string first = sh->state == 1 ? std::string(sh->msg) : "process died";
  if (sh->state == 1) ch.assign(sh->choices, sh->choices + sh->nchoices);
  else ch.assign(sh->live + 1, sh->live + 1 + sh->live[0]);
  int repro = 0; Outcome o;
  for (int k = 0; k < 3; k++) { o = isolated(p, ch, tmp, false); if (o.bad) repro++; }
  std::ofstream f(out + ".fail");
  f << "prop=" << prop << "\nsub=" << p.sub << "\nbackend=" << backend << "\nseed=" << seed << "\ncase=" << c << "\n";
  if (repro == 3) {
    ch = shrink(p, ch, tmp, shrinkb);
    o = isolated(p, ch, tmp, true);
    f << "choices="; for (uint64_t x : ch) f << x << " ";
    f << "\n# minimal failing case\n# " ; for (char x : o.msg) { f << x; if (x == '\n') f << "# "; }
    f << "\n# case:\n# "; for (char x : o.desc) { f << x; if (x == '\n') f << "# "; }
    f << "\n";
  } else {
    f << "prefix=" << seed << " " << c << "\n# reproduces only after the preceding cases of the same process (isolated repro " << repro << "/3)\n# " << first << "\n";
  }
  f.close();
  return 1;
}
