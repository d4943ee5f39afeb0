#include "core.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <execinfo.h>

namespace pbt {
std::vector<Sub> &subs() {
  static std::vector<Sub> s;
  return s;
}

int64_t Src::i64() {
  switch (weighted({4, 3, 2, 2, 1, 2})) {
  case 0: return range(-3, 5);
  case 1: return range(-100, 100);
  case 2: {
    int b = (int)below(64);
    int64_t v = (int64_t)(1ull << b);
    return v + range(-1, 1);
  }
  case 3: {
    int b = (int)below(64);
    return -(int64_t)(1ull << b) + range(-1, 1);
  }
  case 4: return (int64_t)raw(0);
  default: return (int64_t)(raw(0) >> below(64)) * (flip() ? -1 : 1);
  }
}
double Src::f64() {
  switch (weighted({4, 3, 2, 1, 1})) {
  case 0: return (double)range(-4, 4) / 2;
  case 1: return (double)range(-1000, 1000) / 16;
  case 2: return pick({0.1, -0.0, 1e300, -1e300, 1e-300, 3.141592653589793, 4503599627370496.5, 9007199254740993.0, 1e18, -1e18});
  case 3: {
    uint64_t u = raw(0);
    double d;
    memcpy(&d, &u, 8);
    return std::isfinite(d) ? d : 1.5;
  }
  default: return pick({(double)INFINITY, -(double)INFINITY, (double)NAN, 5e-324, 1.7976931348623157e308});
  }
}

std::string jsonEscape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

namespace {
using Clock = std::chrono::steady_clock;
double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

struct Shared { // one per worker, visible to parent after a crash
  volatile uint64_t caseIdx;
  volatile uint64_t phase; // 1 = running a case
  uint64_t rec[1 << 16];
  char text[1 << 14]; // what the running case announced about itself
};
Shared *current = nullptr;
constexpr size_t REC = 1 << 16;

struct Result {
  uint64_t idx = 0;
  Out out;
  std::vector<uint64_t> choices;
};

void writeAll(int fd, const std::string &s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) _exit(3);
    o += n;
  }
}
std::string pack(const std::vector<std::string> &f) {
  std::string b;
  for (auto &s : f) {
    uint32_t n = s.size();
    b.append((char *)&n, 4);
    b += s;
  }
  uint32_t t = b.size();
  return std::string((char *)&t, 4) + b;
}
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15;
  x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
  return x;
}
void quiet() {
  struct rlimit r = {0, 0};
  setrlimit(RLIMIT_CORE, &r);
}

/// run one case in this process
void runCase(const Sub &s, Src &src, Out &o) {
  s.fn(src, o);
  if (o.key == 0) o.key = fnv(o.text);
}

/// run `choices` (or a fresh case when rng seeded) in a forked child; returns the outcome
Result isolated(const Sub &s, const std::vector<uint64_t> *choices, uint64_t seed, int timeout) {
  static Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int p[2], e[2];
  if (pipe(p) || pipe(e)) abort();
  sh->rec[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (!pid) {
    close(p[0]); close(e[0]);
    dup2(e[1], 2);
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 1);
    quiet();
    alarm(timeout);
    std::mt19937_64 rng(seed);
    Src src;
    if (choices) { src.in = choices->data(); src.nIn = choices->size(); }
    else src.rng = &rng;
    src.rec = sh->rec; src.recCap = REC;
    current = sh;
    sh->text[0] = 0;
    Out o;
    runCase(s, src, o);
    writeAll(p[1], pack({o.text, o.fail, o.sig, o.nontrivial ? "1" : "0", o.discard ? "1" : "0", std::to_string(o.key)}));
    _exit(0);
  }
  close(p[1]); close(e[1]);
  std::string buf, err;
  struct pollfd pf[2] = {{p[0], POLLIN, 0}, {e[0], POLLIN, 0}};
  int open_ = 2;
  double t0 = now();
  while (open_ > 0) {
    int pr = poll(pf, 2, 1000);
    if (now() - t0 > timeout + 5) { kill(pid, SIGKILL); break; }
    if (pr <= 0) continue;
    for (int i = 0; i < 2; i++)
      if (pf[i].fd >= 0 && (pf[i].revents & (POLLIN | POLLHUP))) {
        char tmp[65536];
        ssize_t n = read(pf[i].fd, tmp, sizeof tmp);
        if (n <= 0) { pf[i].fd = -1; --open_; }
        else { auto &b = i ? err : buf; if (b.size() < (4u << 20)) b.append(tmp, n); }
      }
  }
  close(p[0]); close(e[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Result r;
  r.choices.assign(sh->rec + 1, sh->rec + 1 + std::min<uint64_t>(sh->rec[0], REC - 2));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && buf.size() > 4) {
    std::vector<std::string> f;
    size_t o = 4;
    while (o + 4 <= buf.size()) {
      uint32_t n; memcpy(&n, &buf[o], 4); o += 4;
      f.push_back(buf.substr(o, n)); o += n;
    }
    r.out.text = f[0]; r.out.fail = f[1]; r.out.sig = f[2]; r.out.nontrivial = f[3] == "1"; r.out.discard = f[4] == "1";
    r.out.key = std::stoull(f[5]);
  } else {
    std::string msg = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL ? "hang: no result within " + std::to_string(timeout) + " s"
                                                                 : "crash: signal " + std::to_string(WTERMSIG(st)))
                                      : "crash: exit status " + std::to_string(WEXITSTATUS(st));
    if (err.size() > 900) err = err.substr(err.size() - 900);
    r.out.fail = msg + (err.empty() ? "" : " | " + err);
    r.out.sig = msg.substr(0, msg.find(':'));
    r.out.text = sh->text[0] ? sh->text : "(case did not finish)";
  }
  if (!r.out.fail.empty() && r.out.sig.empty()) r.out.sig = r.out.fail.substr(0, r.out.fail.find_first_of(" :"));
  return r;
}

std::vector<uint64_t> shrink(const Sub &s, std::vector<uint64_t> c, const std::string &sig, double budget, int timeout, int &tries) {
  double t0 = now();
  auto fails = [&](const std::vector<uint64_t> &x, std::vector<uint64_t> &canon) {
    ++tries;
    auto r = isolated(s, &x, 0, timeout);
    if (r.out.fail.empty() || r.out.sig != sig) return false;
    canon = r.choices; // what was really drawn
    while (!canon.empty() && canon.back() == 0) canon.pop_back();
    return true;
  };
  auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t len = std::max<size_t>(1, c.size() / 2); len >= 1 && now() - t0 < budget; len = len / 2) {
      for (size_t i = 0; i + len <= c.size() && now() - t0 < budget;) {
        auto x = c;
        x.erase(x.begin() + i, x.begin() + i + len);
        std::vector<uint64_t> k;
        if (fails(x, k) && better(k, c)) { c = k; progress = true; }
        else i += len;
      }
      if (len == 1) break;
    }
    for (size_t len : {8, 4, 2, 1}) for (size_t i = 0; i + len <= c.size() && now() - t0 < budget; i += len) {
      auto x = c;
      bool any = false;
      for (size_t j = i; j < i + len; j++) { any |= x[j] != 0; x[j] = 0; }
      if (!any) continue;
      std::vector<uint64_t> k;
      if (fails(x, k) && better(k, c)) { c = k; progress = true; }
    }
    for (size_t i = 0; i < c.size() && now() - t0 < budget; i++) {
      for (uint64_t d : {c[i] / 2, c[i] - 1}) {
        if (i >= c.size() || c[i] == 0 || d >= c[i]) continue;
        auto x = c; x[i] = d;
        std::vector<uint64_t> k;
        if (fails(x, k) && better(k, c)) { c = k; progress = true; }
      }
    }
  }
  return c;
}

struct Stats {
  uint64_t evals = 0, nontrivial = 0, discards = 0;
  std::set<uint64_t> keys;
  std::vector<std::string> samples;
};

std::string arg(int argc, char **argv, const std::string &k, const std::string &d = "") {
  for (int i = 1; i + 1 < argc; i++)
    if (k == argv[i]) return argv[i + 1];
  return d;
}
std::vector<uint64_t> readReplay(const std::string &f, std::string &sub) {
  std::ifstream in(f);
  std::string line, all;
  std::vector<uint64_t> c;
  while (std::getline(in, line)) {
    if (line.rfind("sub ", 0) == 0) sub = line.substr(4);
    if (line.rfind("choices", 0) == 0) {
      std::istringstream is(line.substr(7));
      uint64_t v;
      while (is >> v) c.push_back(v);
    }
  }
  return c;
}
void writeReplay(const std::string &f, const Sub &s, const Result &r) {
  std::ofstream o(f);
  o << "# replay of a failing case; run: irh " << s.prop << " --replay " << f << "\n";
  o << "prop " << s.prop << "\nsub " << s.name << "\nsig " << r.out.sig << "\nchoices";
  for (auto v : r.choices) o << ' ' << v;
  o << "\nfailure:\n" << r.out.fail << "\ncase:\n" << r.out.text << "\n";
}
} // namespace
} // namespace pbt

void pbt::announce(const std::string &t) {
  if (!current) return;
  size_t n = std::min(t.size(), sizeof(current->text) - 1);
  memcpy(current->text, t.data(), n);
  current->text[n] = 0;
}

// usage: irh PROP [--seed N] [--time SECONDS] [--max CASES] [--jobs J] [--sub NAME] [--out FILE.json] [--replays DIR]
//        irh PROP --replay FILE
int main(int argc, char **argv) {
  using namespace pbt;
  if (argc < 2) return 2;
  std::string prop = argv[1];
  setenv("GC_MARKERS", "1", 1);
  quiet();
  uint64_t seed = std::stoull(arg(argc, argv, "--seed", "1"));
  double budget = std::stod(arg(argc, argv, "--time", "20"));
  uint64_t maxCases = std::stoull(arg(argc, argv, "--max", "1000000000"));
  int jobs = std::stoi(arg(argc, argv, "--jobs", "8"));
  std::string only = arg(argc, argv, "--sub"), outf = arg(argc, argv, "--out"), rdir = arg(argc, argv, "--replays", "."),
              replay = arg(argc, argv, "--replay");
  std::vector<Sub *> mine;
  for (auto &s : subs())
    if (s.prop == prop && (only.empty() ? s.weight > 0 || !replay.empty() : s.name == only)) mine.push_back(&s); // weight 0: listed findings, by replay only
  std::sort(mine.begin(), mine.end(), [](Sub *a, Sub *b) { return a->name < b->name; });
  if (mine.empty()) { fprintf(stderr, "no such property\n"); return 2; }
  if (getenv("PBT_BT")) { // debugging aid: where does a crash happen
    stack_t ss{};
    ss.ss_sp = malloc(1 << 20);
    ss.ss_size = 1 << 20;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_flags = SA_ONSTACK;
    sa.sa_handler = [](int) { void *b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); _exit(99); };
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
  }
  if (!replay.empty()) {
    std::string sub;
    auto c = readReplay(replay, sub);
    for (auto *s : mine)
      if (s->name == sub) {
        if (s->setup) s->setup();
        auto r = isolated(*s, &c, 0, getenv("PBT_TIMEOUT") ? atof(getenv("PBT_TIMEOUT")) : s->timeout * 2);
        printf("%s\n%s\n%s\n", r.out.text.c_str(), r.out.fail.empty() ? "HOLDS" : "FAILS", r.out.fail.c_str());
        return r.out.fail.empty() ? 0 : 1;
      }
    return 2;
  }
  mkdir(rdir.c_str(), 0755);
  int tw = 0;
  for (auto *s : mine) tw += s->weight;
  std::string viol;
  std::map<std::string, Stats> stats;
  double T0 = now();
  for (auto *s : mine)
    if (s->setup) s->setup();
  double tset = now() - T0;
  int nviol = 0;
  for (auto *s : mine) {
    if (nviol && now() - T0 > 2 * budget + 60) break;
    Stats &st = stats[s->name];
    double until = now() + budget * s->weight / tw;
    uint64_t quota = maxCases;
    struct W { pid_t pid = 0; int fd = -1; uint64_t start = 0, n = 0; std::string buf; Shared *sh = nullptr; double t0 = 0; };
    static std::vector<Shared *> pool;
    while ((int)pool.size() < jobs)
      pool.push_back((Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<W> ws(jobs);
    uint64_t nextCase = 0;
    std::vector<std::pair<std::string, std::vector<uint64_t>>> failing; // sig, choices
    std::map<std::string, int> perSig;
    uint64_t subSeed = mix(seed, fnv(s->name));
    auto spawn = [&](W &w) {
      w.start = nextCase;
      w.n = std::min<uint64_t>(s->batch, quota - nextCase);
      nextCase += w.n;
      int p[2];
      if (pipe(p)) abort();
      fcntl(p[0], F_SETFD, FD_CLOEXEC);
      w.sh->caseIdx = w.start; w.sh->rec[0] = 0;
      fflush(stdout); fflush(stderr);
      w.pid = fork();
      if (!w.pid) {
        close(p[0]);
        int dn = open("/dev/null", O_RDWR);
        dup2(dn, 1); dup2(dn, 2);
        quiet();
        for (uint64_t i = w.start; i < w.start + w.n; i++) {
          if (i > w.start && now() > until) break;
          w.sh->caseIdx = i; w.sh->rec[0] = 0;
          current = w.sh; w.sh->text[0] = 0;
          alarm(s->timeout);
          std::mt19937_64 rng(mix(subSeed, i));
          Src src; src.rng = &rng; src.rec = w.sh->rec; src.recCap = REC;
          Out o;
          runCase(*s, src, o);
          bool failed = !o.fail.empty();
          if (failed && o.sig.empty()) o.sig = o.fail.substr(0, o.fail.find_first_of(" :"));
          std::string ch;
          if (failed) ch.assign((char *)(w.sh->rec + 1), 8 * std::min<uint64_t>(w.sh->rec[0], REC - 2));
          writeAll(p[1], pack({std::to_string(i), failed || (o.nontrivial && i % 64 < 2) ? o.text : "", o.fail, o.sig,
                               o.nontrivial ? "1" : "0", o.discard ? "1" : "0", std::to_string(o.key), ch}));
        }
        _exit(0);
      }
      close(p[1]);
      w.fd = p[0]; w.buf.clear(); w.t0 = now();
    };
    auto drain = [&](W &w) {
      while (w.buf.size() >= 4) {
        uint32_t t; memcpy(&t, w.buf.data(), 4);
        if (w.buf.size() < 4 + (size_t)t) break;
        std::vector<std::string> f;
        size_t o = 4;
        while (o < 4 + (size_t)t) { uint32_t n; memcpy(&n, &w.buf[o], 4); o += 4; f.push_back(w.buf.substr(o, n)); o += n; }
        w.buf.erase(0, 4 + t);
        ++st.evals;
        if (f[5] == "1") ++st.discards;
        if (f[4] == "1" && f[5] != "1") { ++st.nontrivial; st.keys.insert(std::stoull(f[6])); if (st.samples.size() < 3 && !f[1].empty()) st.samples.push_back(f[1]); }
        if (!f[2].empty()) {
          std::vector<uint64_t> c(f[7].size() / 8);
          memcpy(c.data(), f[7].data(), f[7].size());
          if (perSig[f[3]]++ < 3 && failing.size() < 12) failing.push_back({f[3], c});
        }
      }
    };
    for (int j = 0; j < jobs; j++) ws[j].sh = pool[j];
    for (auto &w : ws) if (nextCase < quota) spawn(w);
    for (;;) {
      std::vector<struct pollfd> pf;
      std::vector<W *> who;
      for (auto &w : ws) if (w.pid) { pf.push_back({w.fd, POLLIN, 0}); who.push_back(&w); }
      if (pf.empty()) break;
      poll(pf.data(), pf.size(), 500);
      for (size_t i = 0; i < pf.size(); i++) {
        W &w = *who[i];
        bool dead = false;
        if (pf[i].revents & (POLLIN | POLLHUP)) {
          char tmp[65536];
          ssize_t n = read(w.fd, tmp, sizeof tmp);
          if (n > 0) { w.buf.append(tmp, n); drain(w); }
          else dead = true;
        }
        if (!dead) continue;
        close(w.fd);
        int stt = 0;
        waitpid(w.pid, &stt, 0);
        w.pid = 0;
        if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) { // crashed in case sh->caseIdx
          ++st.evals;
          std::vector<uint64_t> c(w.sh->rec + 1, w.sh->rec + 1 + std::min<uint64_t>(w.sh->rec[0], REC - 2));
          std::string sig = WIFSIGNALED(stt) && WTERMSIG(stt) == SIGALRM ? "hang" : "crash";
          if (perSig[sig]++ < 3 && failing.size() < 12) failing.push_back({sig, c});
        }
        if (now() < until && nextCase < quota && failing.size() < 12) spawn(w);
      }
    }
    // confirm, shrink, report: one per signature
    std::map<std::string, bool> done;
    double shrinkUntil = now() + std::min(60.0, std::max(20.0, budget));
    // cheap failures first: confirming a hang takes its whole time limit
    std::stable_sort(failing.begin(), failing.end(), [](auto &a, auto &b) { return (a.first == "hang") < (b.first == "hang"); });
    for (auto &f : failing) {
      if (nviol >= 6 || done[f.first]) continue;
      if (nviol && (now() > shrinkUntil || f.first == "hang")) break;
      bool ok = true;
      Result r;
      for (int k = 0; k < (f.first == "hang" ? 2 : 3) && ok; k++) {
        r = isolated(*s, &f.second, 0, s->timeout * 2);
        ok = !r.out.fail.empty();
      }
      if (!ok || done[r.out.sig]) continue;
      done[r.out.sig] = true;
      int tries = 0;
      auto c = shrink(*s, f.second, r.out.sig, std::max(2.0, std::min(25.0, shrinkUntil - now())), r.out.sig == "hang" ? std::max(2, s->timeout / 2) : s->timeout, tries);
      auto r2 = isolated(*s, &c, 0, s->timeout * 2);
      if (!r2.out.fail.empty()) r = r2;
      else r = isolated(*s, &f.second, 0, s->timeout * 2);
      std::string path = rdir + "/" + prop + "-" + s->name + "-" + std::to_string(nviol++) + ".replay";
      writeReplay(path, *s, r);
      viol += std::string(viol.empty() ? "" : ",") + "{\"sub\":\"" + s->name + "\",\"sig\":\"" + jsonEscape(r.out.sig) + "\",\"message\":\"" +
              jsonEscape(r.out.fail.substr(0, 1500)) + "\",\"case\":\"" + jsonEscape(r.out.text.substr(0, 4000)) + "\",\"replay\":\"" + jsonEscape(path) +
              "\",\"shrink_tries\":" + std::to_string(tries) + "}";
    }
  }
  std::string js = "{\"property\":\"" + prop + "\",\"seed\":" + std::to_string(seed) + ",\"setup_s\":" + std::to_string(tset) + ",\"subs\":[";
  bool first = true;
  for (auto *s : mine) {
    auto &st = stats[s->name];
    js += std::string(first ? "" : ",") + "{\"name\":\"" + s->name + "\",\"rule\":\"" + jsonEscape(s->rule) + "\",\"evaluations\":" + std::to_string(st.evals) +
          ",\"nontrivial\":" + std::to_string(st.nontrivial) + ",\"distinct\":" + std::to_string(st.keys.size()) + ",\"discards\":" + std::to_string(st.discards) + ",\"samples\":[";
    for (size_t i = 0; i < st.samples.size(); i++) js += std::string(i ? "," : "") + "\"" + jsonEscape(st.samples[i].substr(0, 1200)) + "\"";
    js += "]}";
    first = false;
  }
  js += "],\"violations\":[" + viol + "],\"wall_s\":" + std::to_string(now() - T0) + "}\n";
  if (outf.empty()) std::cout << js;
  else { std::ofstream o(outf); o << js; }
  return nviol ? 1 : 0;
}
