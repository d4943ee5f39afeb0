// C22: the pass manager runs what was registered, in order, and never shows a stale analysis.
#include "codon/cir/analyze/analysis.h"
#include "codon/cir/cir.h"
#include "codon/cir/transform/manager.h"
#include "codon/cir/transform/pass.h"
#include "core.h"
#include <algorithm>
#include <set>
#include <sstream>

using namespace codon::ir;

namespace {
using K = std::vector<std::string>;
/// what happened, in order: every run of a pass or analysis with the versions of the analyses it could read
struct Event {
  bool pass;
  std::string key;                      // unique key (passes in groups: group key + "/" + position)
  std::map<std::string, int> seen;      // required analysis -> serial number of its result, -1 if absent
  std::map<std::string, int> ownerRan;  // analyses only
  int serial = 0;
};
struct World {
  std::vector<Event> log;
  int serial = 0;
};
struct Res : public analyze::Result {
  int serial;
  std::string key;
  Res(int s, std::string k) : serial(s), key(std::move(k)) {}
};
template <class Self> std::map<std::string, int> look(Self *s, const K &reqs, std::string &bad) {
  std::map<std::string, int> r;
  for (auto &k : reqs) {
    auto *x = s->template getAnalysisResult<Res>(k);
    r[k] = x ? x->serial : -1;
    if (x && x->key != k) bad = "result of " + x->key + " handed out as " + k;
  }
  return r;
}
std::string bad;
struct StubA : public analyze::Analysis {
  World &w;
  std::string raw;
  std::string *key;
  K reqs;
  StubA(World &w, std::string raw, std::string *key, K reqs) : w(w), raw(raw), key(key), reqs(reqs) {}
  std::string getKey() const override { return raw; }
  std::unique_ptr<analyze::Result> run(const Module *) override {
    Event e{false, *key, look(this, reqs, bad), {}, ++w.serial};
    w.log.push_back(e);
    return std::make_unique<Res>(e.serial, *key);
  }
};
struct StubP : public transform::Pass {
  World &w;
  std::string raw;
  std::string *key;
  std::string suffix;
  K reqs;
  int repeat;
  bool fancy; // repeats by its own rule
  StubP(World &w, std::string raw, std::string *key, std::string suffix, K reqs, int repeat) : w(w), raw(raw), key(key), suffix(suffix), reqs(reqs), repeat(repeat) {}
  std::string getKey() const override { return raw; }
  void run(Module *) override { w.log.push_back({true, *key + suffix, look(this, reqs, bad), {}, 0}); }
  bool shouldRepeat(int n) const override { return n < repeat; }
};
struct Group : public transform::PassGroup {
  std::string raw;
  Group(std::string raw, int rep) : PassGroup(rep), raw(raw) {}
  std::string getKey() const override { return raw; }
};

struct MA { std::string key; K reqs; int computed = -1; int when = -1; };
struct MP { std::string key; K reqs, inv; int repeat = 0, members = 0; };

std::string join(const K &k) {
  std::string s;
  for (auto &x : k) s += (s.empty() ? "" : ",") + x;
  return "[" + s + "]";
}

void manager(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  World w;
  bad.clear();
  static const K names = {"alpha", "beta", "gamma", "delta", "eps"};
  K disabled;
  for (auto &n : names)
    if (src.chance(1, 7)) disabled.push_back(n);
  std::ostringstream log;
  log << "disabled " << join(disabled) << "\n";
  transform::PassManager pm(transform::PassManager::Init::EMPTY, disabled);
  std::map<std::string, int> uses;        // model of unique keys
  std::vector<MA> as;
  std::map<std::string, MP> ps;
  K order, anyKeys;
  std::vector<std::unique_ptr<std::string>> keyCells;
  std::map<std::string, int> clockComputed, clockInval; // model of validity
  int clock = 0, runs = 0, passesRun = 0;
  auto uniq = [&](const std::string &raw) {
    int n = ++uses[raw];
    return n == 1 ? raw : raw + ":" + std::to_string(n);
  };
  auto pickReqs = [&](int max) {
    K r;
    if (as.empty()) return r;
    int n = (int)src.below(max + 1);
    while (n--) r.push_back(src.pick(as).key);
    return r;
  };
  std::function<void(const std::string &, std::set<std::string> &)> closure = [&](const std::string &k, std::set<std::string> &c) {
    if (!c.insert(k).second) return;
    for (auto &a : as) if (a.key == k) for (auto &r : a.reqs) closure(r, c);
  };
  // a result is good if nothing it was computed from was invalidated since
  auto valid = [&](const std::string &k) {
    if (!clockComputed.count(k)) return false;
    std::set<std::string> c;
    closure(k, c);
    for (auto &x : c) {
      auto it = clockInval.find(x);
      if (it != clockInval.end() && it->second > clockComputed[k]) return false;
    }
    return true;
  };
  std::map<std::string, int> serials; // serial of the newest result of each analysis
  int steps = (int)src.range(3, 18);
  for (int s = 0; s < steps; s++) {
    switch (s == steps - 1 ? 2 : src.weighted({5, 7, 3})) {
    case 0: {
      auto raw = src.pick(names);
      auto reqs = pickReqs(3);
      keyCells.push_back(std::make_unique<std::string>());
      auto *cell = keyCells.back().get();
      auto got = pm.registerAnalysis(std::make_unique<StubA>(w, raw, cell, reqs), reqs);
      bool dis = std::count(disabled.begin(), disabled.end(), raw);
      std::string want = dis ? "" : uniq(raw);
      log << "analysis " << raw << " needs " << join(reqs) << " -> " << got << "\n";
      out.text = log.str();
      if (got != want) return out.violation("key: analysis registered as '" + got + "', expected '" + want + "'");
      *cell = got;
      if (!dis) { as.push_back({got, reqs}); anyKeys.push_back(got); }
      if (!dis && (!pm.hasAnalysis(got) || pm.hasPass(got))) return out.violation("query: registered analysis not found");
      break;
    }
    case 1: {
      auto raw = src.pick(names);
      auto reqs = pickReqs(3);
      K inv = pickReqs(3);
      if (src.chance(1, 6)) inv.push_back("nobody");
      std::string before = !order.empty() && src.chance(1, 3) ? src.pick(order) : "";
      int repeat = src.chance(1, 3) ? (int)src.below(4) : 0;
      int members = src.chance(1, 3) ? (int)src.range(1, 3) : 0;
      keyCells.push_back(std::make_unique<std::string>());
      auto *cell = keyCells.back().get();
      std::unique_ptr<transform::Pass> p;
      if (members) {
        auto g = std::make_unique<Group>(raw, src.flip() ? repeat : 0);
        g->setRepeat(repeat);
        for (int k = 0; k < members; k++) g->push_back(std::make_unique<StubP>(w, raw + "m", cell, "/" + std::to_string(k), reqs, 0));
        p = std::move(g);
      } else
        p = std::make_unique<StubP>(w, raw, cell, "", reqs, repeat);
      auto got = pm.registerPass(std::move(p), before, reqs, inv);
      bool dis = std::count(disabled.begin(), disabled.end(), raw);
      std::string want = dis ? "" : uniq(raw);
      log << "pass " << raw << (members ? " (group of " + std::to_string(members) + ")" : "") << " needs " << join(reqs) << " invalidates " << join(inv) << " before '" << before << "' repeat " << repeat << " -> " << got << "\n";
      out.text = log.str();
      if (got != want) return out.violation("key: pass registered as '" + got + "', expected '" + want + "'");
      *cell = got;
      if (dis) break;
      ps[got] = {got, reqs, inv, repeat, members};
      if (before.empty()) order.push_back(got);
      else order.insert(std::find(order.begin(), order.end(), before), got);
      if (!pm.hasPass(got) || pm.hasAnalysis(got)) return out.violation("query: registered pass not found");
      break;
    }
    default: {
      log << "run\n";
      out.text = log.str();
      pbt::announce(out.text);
      ++runs;
      w.log.clear();
      pm.run(&M);
      if (!bad.empty()) return out.violation("stale: " + bad);
      // walk the log next to the expected order
      size_t at = 0;
      auto tell = [&](const std::string &s) {
        std::string t = s + "\nlog:";
        for (auto &e : w.log) {
          t += " " + e.key + (e.pass ? "!" : "#" + std::to_string(e.serial)) + "(";
          for (auto &[k, v] : e.seen) t += k + "=" + std::to_string(v) + " ";
          t += ")";
        }
        out.violation(t);
      };
      for (auto &k : order) {
        auto &p = ps[k];
        int times = std::max(1, p.repeat);
        for (int n = 0; n < times; n++) {
          // the analyses that have to be computed now
          std::set<std::string> need, todo;
          for (auto &r : p.reqs) closure(r, need);
          std::function<void(const std::string &)> req = [&](const std::string &x) {
            if (valid(x) || todo.count(x)) return;
            todo.insert(x);
            for (auto &a : as) if (a.key == x) for (auto &r : a.reqs) req(r);
          };
          for (auto &r : p.reqs) req(r);
          std::set<std::string> done;
          while (at < w.log.size() && !w.log[at].pass) {
            auto &e = w.log[at++];
            if (!todo.count(e.key)) return tell("recomputed: " + e.key + " before pass " + k + " although its result was good or not needed");
            if (!done.insert(e.key).second) return tell("recomputed: " + e.key + " twice before pass " + k);
            for (auto &[r, sn] : e.seen) {
              if (sn < 0) return tell("missing: analysis " + e.key + " read " + r + " before it was computed");
              if (!valid(r) || sn != serials[r]) return tell("stale: analysis " + e.key + " read an old result of " + r);
            }
            clockComputed[e.key] = ++clock;
            serials[e.key] = e.serial;
          }
          if (done != todo) return tell("missing: an analysis required by pass " + k + " was not computed");
          int parts = std::max(1, p.members);
          for (int m = 0; m < parts; m++) {
            std::string want = p.members ? k + "/" + std::to_string(m) : k;
            if (at >= w.log.size()) return tell("order: pass " + want + " did not run");
            auto &e = w.log[at++];
            if (!e.pass || e.key != want) return tell("order: " + e.key + " ran instead of pass " + want);
            for (auto &[r, sn] : e.seen) {
              if (sn < 0) return tell("missing: pass " + want + " has no result of " + r);
              if (!valid(r) || sn != serials[r]) return tell("stale: pass " + want + " read an old result of " + r);
            }
            ++passesRun;
          }
          ++clock;
          for (auto &x : p.inv) clockInval[x] = clock;
          ++clock;
        }
      }
      if (at != w.log.size()) return tell("order: something ran after the last pass");
      for (auto &a : as) {
        auto *r = static_cast<Res *>(pm.getAnalysisResult(a.key));
        if ((r != nullptr) != valid(a.key)) return tell(std::string("results: ") + a.key + (r ? " is offered although it was invalidated" : " was dropped although it is good"));
        if (r && r->serial != serials[a.key]) return tell("results: an old result of " + a.key);
      }
    }
    }
    for (auto &n : names)
      if (pm.isDisabled(n) != (std::count(disabled.begin(), disabled.end(), n) > 0)) return out.violation("query: isDisabled");
    for (auto &n : K{"nobody", "alpha:99", ""})
      if (pm.hasPass(n) || pm.hasAnalysis(n) || pm.getAnalysisResult(n)) return out.violation("query: something that was never registered was found");
  }
  out.nontrivial = passesRun >= 3 && w.serial >= 2;
}
pbt::Reg r1("C22", "manager", "at least 3 pass runs and 2 analysis runs", manager, 1, 500);
} // namespace
