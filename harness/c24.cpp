// C24: inlining and outlining preserve behaviour, or report that they are impossible and change nothing.
#include "ir.h"
#include "codon/cir/util/inlining.h"
#include "codon/cir/util/operator.h"
#include "codon/cir/util/outlining.h"
#include <cstdlib>

namespace codon { class Compiler; }
using namespace vir;
using namespace codon::ir;

namespace {
void setup() { if (!stdlibSetup()) abort(); }

/// every value below v, each once, with its enclosing chain
void walk(Value *v, std::vector<Value *> &path, const std::function<void(Value *, std::vector<Value *> &)> &fn) {
  fn(v, path);
  if (isA<BreakInstr>(v) || isA<ContinueInstr>(v)) return; // they name the loop around them
  path.push_back(v);
  for (auto *u : v->getUsedValues()) walk(u, path, fn);
  path.pop_back();
}
/// variables named below v that are neither global nor among those the function owns
std::string scope(BodiedFunc *f) {
  std::set<codon::ir::id_t> own;
  for (auto a = f->arg_begin(); a != f->arg_end(); ++a) own.insert((*a)->getId());
  for (auto *v : *f) own.insert(v->getId());
  std::string bad;
  std::vector<Value *> path;
  walk(f->getBody(), path, [&](Value *v, std::vector<Value *> &) {
    for (auto *u : v->getUsedVariables())
      if (!u->isGlobal() && !isA<Func>(u) && !own.count(u->getId())) bad = u->getName() + " in " + f->getName();
  });
  return bad;
}
std::string shapeOf(const std::vector<BodiedFunc *> &fs) {
  std::string s;
  std::function<void(Value *)> rec = [&](Value *v) {
    s += std::to_string(v->IdMixin::getId()) + ":" + std::to_string((uintptr_t)v) + "(";
    for (auto *u : v->getUsedValues()) {
      if (isA<BreakInstr>(v) || isA<ContinueInstr>(v)) s += "loop" + std::to_string(u->IdMixin::getId());
      else rec(u);
    }
    for (auto *u : v->getUsedVariables()) s += "v" + std::to_string(u->getId());
    s += ")";
  };
  for (auto *f : fs) {
    for (auto *v : *f) s += "l" + std::to_string(v->getId());
    rec(f->getBody());
  }
  return s;
}
std::vector<BodiedFunc *> allOf(const Prog &p) {
  std::vector<BodiedFunc *> r = p.fns;
  r.insert(r.end(), p.gens.begin(), p.gens.end());
  r.push_back(p.entry);
  return r;
}
Module *theModule();

struct Prepared { std::unique_ptr<Env> env; Prog p; Outcome exp; uint64_t seed; };
bool prepare(Prepared &r, const Opts &o, pbt::Src &src, pbt::Out &out) {
  r.env = Env::stdlib(theModule());
  r.p = generate(*r.env, src, o);
  r.seed = src.below(1000);
  out.text = dump(r.p) + "\nseed " + std::to_string(r.seed);
  pbt::announce(out.text);
  r.exp = interpret(*r.env, r.p.entry, {}, r.seed, 20000);
  if (r.exp.fuelOut || !r.exp.unsupported.empty()) {
    out.text += "\nunsupported: " + r.exp.unsupported;
    out.discard = true;
    return false;
  }
  return true;
}
void compare(Prepared &r, pbt::Out &out, const char *what) {
  Outcome got = interpret(*r.env, r.p.entry, {}, r.seed, 400000);
  std::string d = got.fuelOut ? "the program no longer ends" : !got.unsupported.empty() ? "ill-formed: " + got.unsupported : diff(r.exp, got);
  if (d.empty())
    for (auto *f : allOf(r.p)) {
      auto s = scope(f);
      if (!s.empty()) { d = "a variable that the function does not own is used: " + s; break; }
    }
  if (!d.empty()) out.fail = std::string(what) + ": " + d + "\nafter:\n" + dump(r.p);
}

// -------------------------------------------------------------------------------------------- inlining
void inl(const Opts &o, pbt::Src &src, pbt::Out &out) {
  Prepared r;
  if (!prepare(r, o, src, out)) return;
  auto *M = r.env->M;
  int rounds = (int)src.range(1, 3), done = 0;
  for (int k = 0; k < rounds; k++) {
    struct Site { CallInstr *call; BodiedFunc *f; };
    std::vector<Site> sites;
    for (auto *f : allOf(r.p)) {
      std::vector<Value *> path;
      walk(f->getBody(), path, [&](Value *v, std::vector<Value *> &path) {
        for (auto *q : path) if (isA<PipelineFlow>(q)) return; // a stage of a pipeline is not an ordinary call
        if (auto *c = cast<CallInstr>(v))
          if (auto *t = cast<BodiedFunc>(util::getFunc(c->getCallee())))
            if (!r.env->sem.count(t)) sites.push_back({c, f});
      });
    }
    if (sites.empty()) break;
    auto s = sites[src.below(sites.size())];
    auto *t = cast<BodiedFunc>(util::getFunc(s.call->getCallee()));
    bool aggr = src.flip(), isGen = t->isGenerator();
    auto fs = allOf(r.p);
    auto before = shapeOf(fs);
    out.text += std::string("\ninline ") + (aggr ? "(aggressive) " : "") + "call of " + t->getName() + " in " + s.f->getName() + " id " + std::to_string(s.call->getId());
    pbt::announce(out.text);
    auto res = util::inlineCall(s.call, aggr);
    if (!res) {
      if (shapeOf(fs) != before) { out.fail = "inline-refused: the transformation was refused but the program changed\n" + dump(r.p); return; }
      out.text += ": refused";
      if (aggr && !isGen) { out.fail = "inline-refused: an ordinary function was refused although every function with returns can be expanded in place"; return; }
      continue;
    }
    if (isGen) { out.fail = "inline: a generator was expanded in place"; return; }
    for (auto *v : res.newVars) s.f->push_back(v);
    s.call->replaceAll(res.result);
    ++done;
    compare(r, out, "inline");
    if (!out.fail.empty()) return;
  }
  out.nontrivial = done > 0 && r.exp.log.size() >= 4;
}

// -------------------------------------------------------------------------------------------- outlining
void outl(const Opts &o, pbt::Src &src, pbt::Out &out) {
  Prepared r;
  if (!prepare(r, o, src, out)) return;
  auto *M = r.env->M;
  int rounds = (int)src.range(1, 2), done = 0;
  for (int k = 0; k < rounds; k++) {
    auto fs = allOf(r.p);
    auto *f = fs[src.below(fs.size())];
    struct Site { SeriesFlow *s; int loops; bool tryBlock; };
    std::vector<Site> sites;
    std::vector<Value *> path;
    walk(f->getBody(), path, [&](Value *v, std::vector<Value *> &path) {
      for (auto *q : path) if (isA<PipelineFlow>(q)) return;
      auto *s = cast<SeriesFlow>(v);
      if (!s || s->begin() == s->end()) return;
      int loops = 0;
      for (auto *q : path) loops += isA<WhileFlow>(q) || isA<ForFlow>(q) || isA<ImperativeForFlow>(q);
      sites.push_back({s, loops, false});
    });
    if (sites.empty()) continue;
    auto site = sites[src.below(sites.size())];
    auto *s = site.s;
    int n = (int)std::distance(s->begin(), s->end());
    int b = (int)src.below(n), e = b + 1 + (int)src.below(n - b);
    bool allowOut = src.chance(4, 5), outGlob = src.chance(1, 3);
    // what the region binds otherwise than by assignment, and what is used outside of it
    std::set<codon::ir::id_t> bound, outside, inside, assigned;
    std::vector<Value *> p2;
    std::set<Value *> region;
    { int q = 0; for (auto *x : *s) { if (q >= b && q < e) region.insert(x); ++q; } }
    bool bareThrow = false, yields = false;
    walk(f->getBody(), p2, [&](Value *v, std::vector<Value *> &path) {
      bool in = region.count(v);
      for (auto *q : path) in |= region.count(q) > 0;
      for (auto *u : v->getUsedVariables()) if (!u->isGlobal()) (in ? inside : outside).insert(u->getId());
      if (!in) return;
      if (auto *x = cast<AssignInstr>(v)) assigned.insert(x->getLhs()->getId());
      if (auto *x = cast<ForFlow>(v)) bound.insert(x->getVar()->getId());
      if (auto *x = cast<ImperativeForFlow>(v)) bound.insert(x->getVar()->getId());
      if (auto *x = cast<TryCatchFlow>(v)) for (auto &c : *x) if (c.getVar()) bound.insert(c.getVar()->getId());
      yields |= isA<YieldInstr>(v) || isA<YieldInInstr>(v);
    });
    for (auto a = f->arg_begin(); a != f->arg_end(); ++a) outside.insert((*a)->getId());
    bool skip = false;
    for (auto id : bound) skip |= outside.count(id) > 0; // known finding: such a variable is not written back
    // a variable private to the region starts afresh every time the region runs; only regions that do not depend on
    // what an earlier run of the region left in it are meant to be moved
    if (site.loops)
      for (auto id : inside) skip |= !outside.count(id) && !assigned.count(id) && !bound.count(id);
    if (skip) { out.text += "\nskipped region"; continue; }
    auto before = shapeOf(fs);
    out.text += "\noutline [" + std::to_string(b) + "," + std::to_string(e) + ") of " + s->getName() + " id " + std::to_string(s->getId()) + " in " + f->getName() +
                (allowOut ? " outflows" : "") + (outGlob ? " globals" : "");
    pbt::announce(out.text);
    auto itb = s->begin(), ite = s->begin();
    std::advance(itb, b);
    std::advance(ite, e);
    auto res = util::outlineRegion(f, s, itb, ite, allowOut, outGlob);
    if (!res) {
      if (shapeOf(fs) != before) { out.fail = "outline-refused: the transformation was refused but the program changed\n" + dump(r.p); return; }
      out.text += ": refused";
      continue;
    }
    if (yields) { out.fail = "outline: a region that suspends was moved into another function"; return; }
    if (!allowOut && res.numOutFlows) { out.fail = "outline: exits out of the region were not allowed"; return; }
    if (res.argKinds.size() != (size_t)std::distance(res.func->arg_begin(), res.func->arg_end()) ||
        res.call->numArgs() != (int)res.argKinds.size()) { out.fail = "outline: argument kinds do not describe the arguments"; return; }
    r.p.fns.push_back(res.func);
    ++done;
    compare(r, out, "outline");
    if (!out.fail.empty()) return;
  }
  out.nontrivial = done > 0 && r.exp.log.size() >= 4;
}
Opts all() { Opts o; o.pipe = true; o.poly = false; o.recurse = true; return o; }
Opts in1() { Opts o = all(); o.fall = true; o.depth = 3; o.funcs = 4; o.stmts = 8; return o; }
Opts out1() { Opts o = all(); return o; }
Opts out2() { Opts o = all(); o.gens = o.pipe = false; o.moreTry = true; o.stmts = 14; return o; }
pbt::Reg r1("C24", "inline", "a call was expanded and the program makes at least 4 observable calls", [](pbt::Src &s, pbt::Out &o) { inl(in1(), s, o); }, 2, 20, 10, setup);
pbt::Reg r2("C24", "outline", "a region was moved out and the program makes at least 4 observable calls", [](pbt::Src &s, pbt::Out &o) { outl(out1(), s, o); }, 2, 20, 10, setup);
pbt::Reg r3("C24", "outline-try", "a region was moved out and the program makes at least 4 observable calls", [](pbt::Src &s, pbt::Out &o) { outl(out2(), s, o); }, 1, 20, 10, setup);
/// listed finding: the variable of a loop in the moved region is not written back to the caller
void loopVar(pbt::Src &, pbt::Out &out) {
  auto env = Env::stdlib(theModule());
  auto *M = env->M;
  Prog p;
  p.entry = env->func("entry", env->i, {});
  auto *v = M->Nr<Var>(env->i, false, false, false, "k");
  p.entry->push_back(v);
  auto *b = cast<SeriesFlow>(p.entry->getBody());
  b->push_back(M->Nr<AssignInstr>(v, M->getInt(100)));
  b->push_back(M->Nr<ImperativeForFlow>(M->getInt(0), 1, M->getInt(3), M->Nr<SeriesFlow>(), v));
  b->push_back(env->callF(env->obs, {M->getInt(1), env->var(v)}));
  b->push_back(M->Nr<ReturnInstr>(M->getInt(0)));
  auto exp = interpret(*env, p.entry, {}, 1);
  auto it = b->begin(), e = b->begin();
  std::advance(it, 1);
  std::advance(e, 2);
  auto res = util::outlineRegion(p.entry, b, it, e);
  auto got = interpret(*env, p.entry, {}, 1);
  out.text = dump(p);
  out.fail = diff(exp, got);
}
pbt::Reg k1("C24", "known-loopvar", "", loopVar, 0, 1, 10, setup);
} // namespace
#include "codon/compiler/compiler.h"
namespace { Module *theModule() { return stdCompiler()->getModule(); } }
