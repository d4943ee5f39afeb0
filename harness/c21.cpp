// C21: what the analyses report is never contradicted by an execution.
#include "ir.h"
#include "codon/cir/analyze/dataflow/capture.h"
#include "codon/cir/analyze/dataflow/cfg.h"
#include "codon/cir/analyze/dataflow/dominator.h"
#include "codon/cir/analyze/dataflow/reaching.h"
#include "codon/cir/analyze/module/global_vars.h"
#include "codon/cir/analyze/module/side_effect.h"
#include "codon/cir/transform/manager.h"
#include "codon/cir/transform/pass.h"
#include "codon/cir/util/format.h"
#include "codon/cir/util/side_effect.h"
#include "soup.h"
#include <algorithm>
#include <deque>
#include <sstream>

using namespace vir;
using namespace codon::ir;
namespace df = codon::ir::analyze::dataflow;

namespace {
std::string text(const Node *n) {
  std::ostringstream os;
  util::format(os, n);
  return os.str();
}

/// runs the analyses under a manager and hands their results out
struct Probe : public transform::Pass {
  std::string k;
  std::function<void(Probe &)> fn;
  explicit Probe(std::function<void(Probe &)> fn) : fn(std::move(fn)) {}
  std::string getKey() const override { return "probe"; }
  void run(Module *) override { fn(*this); }
};
struct Analyses {
  std::unique_ptr<transform::PassManager> pm;
  std::string cfg, rd, dom, cap, se[2], gv;
  explicit Analyses(Module *M, bool all) {
    pm = std::make_unique<transform::PassManager>(transform::PassManager::Init::EMPTY);
    cfg = pm->registerAnalysis(std::make_unique<df::CFAnalysis>());
    rd = pm->registerAnalysis(std::make_unique<df::RDAnalysis>(cfg), {cfg});
    dom = pm->registerAnalysis(std::make_unique<df::DominatorAnalysis>(cfg), {cfg});
    if (!all) {
      pm->registerPass(std::make_unique<Probe>([](Probe &) {}), "", {cfg, rd, dom});
      pm->run(M);
      return;
    }
    cap = pm->registerAnalysis(std::make_unique<df::CaptureAnalysis>(rd, dom), {rd, dom});
    gv = pm->registerAnalysis(std::make_unique<codon::ir::analyze::module::GlobalVarsAnalyses>());
    for (int k = 0; k < 2; k++)
      se[k] = pm->registerAnalysis(std::make_unique<codon::ir::analyze::module::SideEffectAnalysis>(cap, k == 0), {cap});
    pm->registerPass(std::make_unique<Probe>([](Probe &) {}), "", {cfg, rd, dom, cap, se[0], se[1], gv});
    pm->run(M);
  }
  template <class R> R *get(const std::string &k) { return static_cast<R *>(pm->getAnalysisResult(k)); }
};

// ---------------------------------------------------------------- control flow
struct Pos { df::CFBlock *b = nullptr; int i = 0; };
struct FnInfo {
  const BodiedFunc *f = nullptr;
  df::CFGraph *g = nullptr;
  df::RDInspector *rd = nullptr;
  df::DominatorInspector *dom = nullptr;
  bool pipe = false;
  std::map<codon::ir::id_t, Pos> pos;              // value -> place in the graph
  std::vector<const Value *> vals;
  std::map<codon::ir::id_t, std::vector<codon::ir::id_t>> doms; // value -> values reported to dominate it
  std::map<std::pair<codon::ir::id_t, codon::ir::id_t>, bool> reach[2];
  std::map<codon::ir::id_t, std::vector<df::ReachingDef>> defs;
};
bool jumps(const Value *v) { return isA<BreakInstr>(v) || isA<ContinueInstr>(v) || isA<ReturnInstr>(v) || isA<ThrowInstr>(v) || (isA<YieldInstr>(v) && cast<YieldInstr>(v)->isFinal()); }
/// nodes that the graph contains but that are no evaluation steps of their own
bool silent(const Value *v) { return isA<df::SyntheticInstr>(v) || isA<df::SyntheticAssignInstr>(v) || isA<df::SyntheticPhiInstr>(v) || jumps(v); }

struct FlowHooks : public Hooks {
  std::map<codon::ir::id_t, FnInfo> &fns;
  struct FrameState {
    FnInfo *fi = nullptr;
    codon::ir::id_t last = -1; // last completed value (-1: entry)
    bool exc = false;          // an exception or a jump happened since
    std::set<codon::ir::id_t> started;
    std::map<codon::ir::id_t, const Value *> writer; // var -> node that wrote it last
    std::map<codon::ir::id_t, Val> lastVal;
    std::map<codon::ir::id_t, int> writes;
  };
  std::map<uint64_t, FrameState> st;
  std::string err;
  long reads = 0, moves = 0, domChecks = 0, defsSeen = 0;
  explicit FlowHooks(std::map<codon::ir::id_t, FnInfo> &fns) : fns(fns) {}
  FrameState &at(Frame &f) {
    auto &s = st[f.serial];
    if (!s.fi) {
      auto it = fns.find(f.fn->getId());
      if (it != fns.end()) s.fi = &it->second;
    }
    return s;
  }
  void fail(const std::string &m) {
    if (err.empty()) err = m;
  }
  void thrown() override {
    for (auto &[k, s] : st) s.exc = true; // the exception may pass through any live frame
  }
  void evalBegin(Frame &f, const Value *v) override {
    auto &s = at(f);
    s.started.insert(v->getId());
    if (jumps(v)) s.exc = s.exc || isA<ThrowInstr>(v);
  }
  /// is there a way from just after `a` (or the entry) to `b` that evaluates nothing else?
  bool path(FnInfo &fi, codon::ir::id_t a, codon::ir::id_t b, bool exc) {
    auto &cache = fi.reach[exc];
    auto key = std::make_pair(a, b);
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    Pos to = fi.pos[b], from;
    if (a == -1) from = {fi.g->getEntryBlock(), -1};
    else from = fi.pos[a];
    bool ok = false;
    std::set<df::CFBlock *> seen;
    std::deque<Pos> q = {{from.b, from.i + 1}};
    while (!q.empty() && !ok) {
      Pos p = q.front();
      q.pop_front();
      int k = 0;
      bool through = true;
      for (auto *x : *p.b) {
        if (k >= p.i) {
          if (p.b == to.b && k == to.i) { ok = true; break; }
          if (!silent(x) && !(exc && isA<CallInstr>(x))) { through = false; break; }
        }
        ++k;
      }
      if (ok || !through) continue;
      for (auto n = p.b->successors_begin(); n != p.b->successors_end(); ++n)
        if (seen.insert(*n).second) q.push_back({*n, 0});
    }
    return cache[key] = ok;
  }
  void evalEnd(Frame &f, const Value *v, const Val &val) override {
    auto &s = at(f);
    s.lastVal[v->getId()] = val;
    if (!s.fi || !err.empty()) return;
    auto &fi = *s.fi;
    auto it = fi.pos.find(v->getId());
    if (it == fi.pos.end()) return;
    if (!fi.pipe) {
      ++moves;
      if (!path(fi, s.last, v->getId(), s.exc))
        fail("control moved from " + (s.last < 0 ? std::string("entry") : std::to_string(s.last)) + " to " + v->referenceString() + " (" + describe(v).kind + ") in " + f.fn->getName() + " against the control-flow graph" + (s.exc ? " (exceptional)" : ""));
    }
    s.last = v->getId();
    s.exc = false;
    auto d = fi.doms.find(v->getId());
    if (d != fi.doms.end())
      for (auto x : d->second) {
        ++domChecks;
        if (!s.started.count(x)) fail("value " + std::to_string(x) + " (" + [&] { for (auto *y : fi.vals) if (y->getId() == x) return text(y); return std::string(); }() + ") is reported to dominate " + v->referenceString() + " (" + describe(v).kind + ") in " + f.fn->getName() + " but was not evaluated before it");
      }
  }
  void assign(Frame &f, const Var *var, const Value *node, const Val &) override {
    auto &s = at(f);
    s.writer[var->getId()] = node;
    ++s.writes[var->getId()];
  }
  void read(Frame &f, const VarValue *v, const Val &val) override {
    auto &s = at(f);
    if (!s.fi || !err.empty()) return;
    auto *var = v->getVar();
    if (var->isGlobal() || isA<Func>(var)) return;
    auto dit = s.fi->defs.find(v->getId());
    if (dit == s.fi->defs.end()) {
      std::vector<df::ReachingDef> ds;
      if (s.fi->pos.count(v->getId())) ds = s.fi->rd->getReachingDefinitions(var, v);
      dit = s.fi->defs.emplace(v->getId(), ds).first;
    }
    auto &ds = dit->second;
    if (ds.empty()) return; // nothing is known
    ++reads;
    defsSeen += ds.size() > 1;
    auto w = s.writer.find(var->getId());
    bool ok = false;
    bool isArg = false;
    for (auto a = f.fn->arg_begin(); a != f.fn->arg_end(); ++a) isArg |= (*a)->getId() == var->getId();
    if (w == s.writer.end() && !isArg) return; // never written on this run
    for (auto &d : ds) {
      const Node *src = d.assignment;
      if (auto *sy = cast<df::SyntheticAssignInstr>(d.assignment)) src = sy->getSource();
      if (w == s.writer.end()) { // the argument itself
        ok |= src == (const Node *)f.fn;
        continue;
      }
      if (src != (const Node *)w->second) continue;
      if (d.known() && !isA<VarValue>(d.assignee)) { // the value it is said to be
        auto lv = s.lastVal.find(d.assignee->getId());
        if (lv == s.lastVal.end() || !same(lv->second, val)) continue;
      }
      ok = true;
    }
    if (!ok) {
      std::string m = "variable " + var->getName() + "." + std::to_string(var->getId()) + " read by " + v->referenceString() + " in " + f.fn->getName() + " was written by ";
      m += w == s.writer.end() ? "the call" : describe(w->second).kind + " " + w->second->referenceString();
      m += ", reported definitions:";
      for (auto &d : ds) m += " " + d.assignment->referenceString() + (d.known() ? "=" + text(d.assignee) : std::string("=?"));
      fail(m);
    }
  }
};

void flow(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  Opts o;
  o.ptr = src.chance(1, 3);
  o.pipe = src.chance(1, 3);
  o.moreTry = src.chance(1, 3);
  o.stmts = (int)src.pick({6, 12, 20});
  Prog p = generate(*env, src, o);
  uint64_t seed = src.below(1000);
  out.text = dump(p);
  pbt::announce(out.text);
  Analyses an(&M, false);
  auto *cf = an.get<df::CFResult>(an.cfg);
  auto *rd = an.get<df::RDResult>(an.rd);
  auto *dom = an.get<df::DominatorResult>(an.dom);
  if (!cf || !rd || !dom) return out.violation("missing: no result");
  std::map<codon::ir::id_t, FnInfo> fns;
  std::vector<BodiedFunc *> all = p.fns;
  all.insert(all.end(), p.gens.begin(), p.gens.end());
  all.push_back(p.entry);
  for (auto *f : all) {
    auto &fi = fns[f->getId()];
    fi.f = f;
    if (!cf->graphs.count(f->getId()) || !rd->results.count(f->getId()) || !dom->results.count(f->getId())) return out.violation("missing: no result for " + f->getName());
    fi.g = cf->graphs.find(f->getId())->second.get();
    fi.rd = rd->results.find(f->getId())->second.get();
    fi.dom = dom->results.find(f->getId())->second.get();
    auto vs = allValues(f->getBody());
    std::map<codon::ir::id_t, Pos> where;
    for (auto *b : *fi.g) {
      int k = 0;
      for (auto *v : *b) {
        where[v->getId()] = {b, k};
        if (auto *ph = cast<df::SyntheticPhiInstr>(v))
          if (auto *sv = cast<Value>(ph->getSource())) where[sv->getId()] = {b, k};
        ++k;
      }
      for (auto n = b->successors_begin(); n != b->successors_end(); ++n)
        if (std::find((*n)->predecessors_begin(), (*n)->predecessors_end(), b) == (*n)->predecessors_end()) return out.violation("graph: an edge is not known at its target");
    }
    for (auto *v : vs) {
      if (isA<PipelineFlow>(v)) fi.pipe = true;
      if (isA<Flow>(v) || jumps(v)) continue;
      auto w = where.find(v->getId());
      auto *blk = fi.g->getBlock(v);
      if ((w == where.end()) != (blk == nullptr) || (blk && w->second.b != blk)) return out.violation("graph: value " + v->referenceString() + " is not in the block it is reported in");
      if (w == where.end()) {
        if (fi.pipe) continue;
        return out.violation("graph: value " + v->referenceString() + " (" + describe(v).kind + ") is missing");
      }
      fi.pos[v->getId()] = w->second;
      fi.vals.push_back(v);
    }
    // every pair, or a sample in large functions
    size_t n = fi.vals.size();
    // stages of a pipeline with several arguments have no order of their own
    std::set<codon::ir::id_t> staged;
    for (auto *v : vs)
      if (isA<PipelineFlow>(v))
        for (auto *x : allValues(v)) staged.insert(x->getId());
    for (auto *v : fi.vals)
      for (size_t k = 0; k < n; k += n > 150 ? 1 + src.below(5) : 1) {
        auto *d = fi.vals[k];
        if (d != v && !(staged.count(v->getId()) && staged.count(d->getId())) && fi.dom->isDominated(v, d)) fi.doms[v->getId()].push_back(d->getId());
      }
  }
  FlowHooks h(fns);
  Outcome a = interpret(*env, p.entry, {}, seed, 20000, &h);
  if (!a.unsupported.empty()) { out.discard = true; return; }
  out.nontrivial = h.reads >= 10 && h.defsSeen > 0 && h.moves >= 30;
  if (!h.err.empty()) out.violation("flow: " + h.err);
}
pbt::Reg r1("C21", "flow", "at least 10 reads of tracked variables, one of them with several definitions, and 30 evaluation steps", flow, 2, 50);
} // namespace
