// C20: clones are equal and independent; matching and text tell programs apart.
#include "soup.h"
#include "codon/cir/util/cloning.h"
#include "codon/cir/util/format.h"
#include "codon/cir/util/matching.h"
#include <regex>
#include <sstream>

using namespace vir;
using namespace codon::ir;
using codon::SrcInfo;

namespace {
std::string text(const Node *n) {
  std::ostringstream os;
  util::format(os, n);
  return os.str();
}
std::string norm(std::string s) {
  // targets of loop exits and names of repeated nodes are identities, not contents
  s = std::regex_replace(s, std::regex("\\((break|continue) [0-9]+\\)"), "($1 #)");
  return std::regex_replace(s, std::regex("\\(value '\"[^\"]*\\.[0-9]+\"\\)"), "(value #)");
}
/// checks f2 as the clone of f
std::string cmpFuncs(const Func *f, const Func *f2) {
  if (f == f2 || f->getId() == f2->getId()) return "clone is the original";
  Desc a = describe(f), b = describe(f2);
  if (a.kind != b.kind) return "kind of function";
  auto flags = [](const std::string &s) { return s; };
  if (flags(a.scalars) != flags(b.scalars)) return "function fields '" + a.scalars + "' / '" + b.scalars + "'";
  if (a.typeNames != b.typeNames) return "function types";
  if (f->getName() != f2->getName()) return "function name";
  if (a.vars.size() != b.vars.size()) return "number of variables";
  std::map<codon::ir::id_t, const Var *> m;
  for (size_t i = 0; i < a.vars.size(); i++) {
    auto *x = a.vars[i], *y = b.vars[i];
    if (x->getId() == y->getId()) return "local variable shared with the original: " + x->referenceString();
    Desc p = describe(x), q = describe(y);
    bool arg = i < (size_t)std::distance(f->arg_begin(), f->arg_end());
    if (p.kind != q.kind || p.scalars != q.scalars || p.typeNames != q.typeNames || x->getName() != y->getName()) return "variable " + x->referenceString() + " differs";
    if (!arg && attrText(x, false) != attrText(y, false)) return "attributes of variable " + x->referenceString();
    m[x->getId()] = y;
  }
  TreeCmp c;
  c.strict = true;
  c.varOK = [&](const Var *x, const Var *y) {
    if (x->getId() == f->getId()) return y->getId() == f2->getId();
    auto it = m.find(x->getId());
    return it == m.end() ? x->getId() == y->getId() : it->second->getId() == y->getId();
  };
  for (size_t i = 0; i < a.kids.size(); i++)
    if (!c.same(a.kids[i], b.kids[i])) return c.err;
  if (!c.attrs(f, f2, "function")) return c.err;
  return "";
}
std::vector<Node *> nodesOf(Func *f) {
  std::vector<Node *> r = {f};
  if (auto *b = cast<BodiedFunc>(f))
    if (b->getBody())
      for (auto *v : allValues(b->getBody())) r.push_back(v);
  return r;
}
void disturb(Soup &g, Func *f, int n, std::string &log) {
  for (int k = 0; k < n; k++) {
    auto ns = nodesOf(f);
    auto *x = g.s.pick(ns);
    bool pr;
    std::string what;
    switch (g.s.weighted({6, 1, 1, 1})) {
    case 0: what = x == f ? g.mutateFunc(f) : g.mutate(static_cast<Value *>(x), pr); break;
    case 1: x->setName(x->getName() + "_"); what = "name"; break;
    case 2: { SrcInfo i; i.line = 99; x->setSrcInfo(i); what = "location"; break; }
    default:
      if (auto *a = x->getAttribute<KeyValueAttribute>()) a->attributes["disturbed"] = "1";
      else if (auto *a = x->getAttribute<StringValueAttribute>()) a->value += "!";
      else if (auto *a = x->getAttribute<TupleLiteralAttribute>()) a->elements.push_back(g.M->getInt(5));
      else if (auto *a = x->getAttribute<IntValueAttribute>()) a->value++;
      else x->setAttribute(std::make_unique<IntValueAttribute>(5));
      what = "attribute";
    }
    log += " " + what;
  }
}

void cloneCase(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  Soup g(*env, src);
  g.share = src.chance(1, 4);
  g.budget = (int)src.range(3, 45);
  auto *host = g.bodied(0); // somewhere to clone to
  bool bodied = src.chance(3, 4);
  g.budget = (int)src.range(3, 45);
  Func *f = bodied ? g.bodied((int)src.range(1, 5)) : g.other();
  auto *bf = cast<BodiedFunc>(f);
  out.text = text(f);
  pbt::announce(out.text);
  auto before = fullDump(f);
  size_t nodes = nodesOf(f).size();
  out.nontrivial = nodes >= 6;
  int mode = !bf || !bf->getBody() ? 0 : (int)src.below(3);
  std::string log;
  auto stillSame = [&]() {
    if (fullDump(f) != before) out.violation("clone-changes-original: mode " + std::to_string(mode));
  };
  if (mode == 0) {
    util::CloneVisitor cv(&M);
    Func *f2 = bf ? (Func *)cv.forceClone(bf) : cv.forceClone(f);
    auto d = cmpFuncs(f, f2);
    if (!d.empty()) return out.violation("clone-differs: " + d + "\nclone:\n" + text(f2));
    if (cv.forceClone(f)->getId() != f2->getId()) return out.violation("clone-differs: cloned again by the same visitor");
    for (auto *n : nodesOf(f2))
      if (n->getModule() != &M) return out.violation("clone-differs: clone does not belong to the module");
    stillSame();
    bool custom = false; // custom nodes compare themselves by identity of variables
    for (auto *n : nodesOf(f)) custom |= isA<MyInstr>(n) || isA<MyFlow>(n);
    if (!custom && (!util::match(f, f2) || !util::match(f2, f))) return out.violation("clone-not-matching: a function and its clone");
    auto snap = fullDump(f2);
    bool rev = src.flip();
    Func *edit = rev ? f2 : f, *keep = rev ? f : f2;
    g.cur = cast<BodiedFunc>(edit);
    g.locals.clear();
    if (rev) snap = before;
    disturb(g, edit, (int)src.range(1, 4), log);
    // the changed function got new symbols only itself
    if (fullDump(keep) != snap) out.violation("clone-not-independent: after" + log + "\nwas  " + snap + "\nis   " + fullDump(keep));
    return;
  }
  auto vs = allValues(bf->getBody());
  Value *v = src.chance(1, 3) ? bf->getBody() : src.pick(vs);
  if (mode == 1) { // a value, in place
    bool cloneLoop = src.flip();
    util::CloneVisitor cv(&M, cloneLoop);
    std::unordered_map<codon::ir::id_t, Var *> remaps;
    std::vector<Var *> all(bf->begin(), bf->end());
    if (!all.empty() && src.flip()) remaps[src.pick(all)->getId()] = g.globals[0];
    // targets outside the cloned part are the same or copied along
    Value *w = cv.clone(v, nullptr, remaps);
    TreeCmp c;
    c.strict = true;
    c.varOK = [&](const Var *x, const Var *y) {
      auto it = remaps.find(x->getId());
      return (it == remaps.end() ? x->getId() : it->second->getId()) == y->getId();
    };
    std::set<codon::ir::id_t> inside;
    for (auto *x : allValues(v)) inside.insert(x->getId());
    bool exitsOut = false;
    for (auto *x : allValues(v))
      for (auto *l : describe(x).loops) exitsOut |= l && !inside.count(l->getId());
    if (!cloneLoop) {
      // exits keep their targets
      for (auto *x : allValues(w))
        for (auto *l : describe(x).loops)
          if (l) {
            bool orig = false;
            for (auto *y : allValues(bf->getBody())) orig |= y->getId() == l->getId();
            for (auto *y : g.made) orig |= y->getId() == l->getId();
            if (!orig) return out.violation("clone-differs: loop target copied although it must be kept");
          }
      stillSame();
      return;
    }
    if (exitsOut) { out.discard = true; return; } // copies the outer loop as well
    if (!c.same(v, w)) return out.violation("clone-differs: " + c.err + "\nof " + text(v) + "\nclone " + text(w));
    stillSame();
    if (remaps.empty()) {
      bool custom = false;
      for (auto *n : allValues(v)) custom |= isA<MyInstr>(n) || isA<MyFlow>(n);
      if (custom) return;
      if (!util::match(v, w, true, true) || !util::match(w, v, true, true)) return out.violation("clone-not-matching: a value and its clone\n" + text(v));
      auto t1 = norm(text(v)), t2 = norm(text(w));
      if (t1 != t2) return out.violation("clone-text: " + t1 + "\n---\n" + t2);
    }
    return;
  }
  // a value, into another function
  util::CloneVisitor cv(&M);
  std::unordered_map<codon::ir::id_t, Var *> remaps;
  std::vector<Var *> all(bf->begin(), bf->end());
  for (auto it = bf->arg_begin(); it != bf->arg_end(); ++it) all.push_back(*it);
  int nr = (int)src.range(0, 2);
  while (nr-- && !all.empty()) remaps[src.pick(all)->getId()] = g.globals[nr];
  std::set<codon::ir::id_t> inside;
  for (auto *x : allValues(v)) inside.insert(x->getId());
  for (auto *x : allValues(v))
    for (auto *l : describe(x).loops)
      if (l && !inside.count(l->getId())) { out.discard = true; return; }
  std::set<codon::ir::id_t> had;
  for (auto *x : *host) had.insert(x->getId());
  Value *w = cv.clone(v, host, remaps);
  std::set<codon::ir::id_t> added;
  for (auto *x : *host) if (!had.count(x->getId())) added.insert(x->getId());
  std::map<codon::ir::id_t, codon::ir::id_t> m, inv;
  TreeCmp c;
  c.strict = true;
  c.varOK = [&](const Var *x, const Var *y) {
    auto it = remaps.find(x->getId());
    if (it != remaps.end()) return it->second->getId() == y->getId();
    if (x->isGlobal()) return x->getId() == y->getId();
    if (m.count(x->getId())) return m[x->getId()] == y->getId();
    if (inv.count(y->getId()) || !added.count(y->getId())) return false;
    m[x->getId()] = y->getId();
    inv[y->getId()] = x->getId();
    Desc p = describe(x), q = describe(y);
    return p.kind == q.kind && p.scalars == q.scalars && p.typeNames == q.typeNames && x->getName() == y->getName();
  };
  if (!c.same(v, w)) return out.violation("clone-differs: into another function: " + c.err + "\nof " + text(v) + "\nclone " + text(w));
  stillSame();
}

void matchCase(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  Soup g(*env, src);
  g.attrsOn = false;
  g.plainCustom = true;
  g.budget = (int)src.range(3, 30);
  auto *bf = g.bodied((int)src.range(1, 4));
  if (!bf->getBody()) { out.discard = true; return; }
  auto vs = allValues(bf->getBody());
  Value *v = src.flip() ? bf->getBody() : src.pick(vs);
  std::set<codon::ir::id_t> inside;
  for (auto *x : allValues(v)) inside.insert(x->getId());
  for (auto *x : allValues(v))
    for (auto *l : describe(x).loops)
      if (l && !inside.count(l->getId())) { out.discard = true; return; }
  util::CloneVisitor c1(&M);
  Value *w = c1.clone(v);
  out.text = text(v);
  pbt::announce(out.text);
  if (!util::match(v, v, true, true)) return out.violation("match-reflexive: " + text(v));
  g.cur = bf;
  auto ws = allValues(w);
  out.nontrivial = ws.size() >= 3;
  int n = (int)src.range(0, 2);
  std::string log;
  bool printed = true;
  if (src.chance(1, 6)) { // wildcard
    Value *x = src.pick(ws);
    bool isFlow = isA<Flow>(x);
    if (isFlow || x == w) { // replace by hand: only positions that take any value
      if (x != w) { out.discard = true; return; }
      util::AnyValue *any = M.Nr<util::AnyValue>();
      if (!util::match(v, any) || !util::match(any, v)) return out.violation("match-wildcard: a wildcard does not match " + text(v));
      return;
    }
    Value *any = M.Nr<util::AnyValue>();
    bool target = false;
    for (auto *y : ws)
      if (!target) {
        bool flowPos = false;
        (void)flowPos;
        target = y->replaceUsedValue(x->getId(), any) > 0;
      }
    if (target && (!util::match(v, w) || !util::match(w, v))) return out.violation("match-wildcard: " + text(v) + "\n" + text(x));
    return;
  }
  for (int k = 0; k < n; k++) {
    auto *x = src.pick(ws);
    bool p = true;
    log += " [" + g.mutate(x, p) + "]";
    printed &= p;
  }
  out.text += "\nedits:" + log;
  pbt::announce(out.text);
  TreeCmp id;
  id.fresh = false;
  id.varOK = [](const Var *x, const Var *y) { return x->getId() == y->getId(); };
  bool eq = id.same(v, w);
  TreeCmp ty;
  ty.fresh = false;
  ty.varOK = [](const Var *x, const Var *y) { return x->getType()->getName() == y->getType()->getName(); };
  bool eqTy = ty.same(v, w);
  bool hasCustom = false; // custom nodes compare themselves
  for (auto *r : {v, w})
    for (auto *x : allValues(r)) hasCustom |= isA<MyInstr>(x) || isA<MyFlow>(x);
  for (int k = 0; k < 2; k++) {
    Value *a = k ? w : v, *b = k ? v : w;
    bool got = util::match(a, b, false, true);
    if (got != eq)
      return out.violation(std::string("match-wrong: variables by identity: matching says ") + (got ? "equal" : "different") + ", structure says " + (eq ? "equal" : "different: " + id.err) + "\nedits" +
                           log + "\na: " + text(a) + "\nb: " + text(b));
    got = util::match(a, b, false, false);
    if (got != eqTy)
      return out.violation(std::string("match-wrong: variables by type: matching says ") + (got ? "equal" : "different") + ", structure says " + (eqTy ? "equal" : "different: " + ty.err) + "\nedits" + log +
                           "\na: " + text(a) + "\nb: " + text(b));
  }
  auto ta = norm(text(v)), tb = norm(text(w));
  // the text shows everything but the fields listed in Desc::unprinted and the identity of loops
  if (eq && ta != tb) return out.violation("text-differs: equal trees print differently\n" + ta + "\n" + tb);
  if (!eq && ta == tb) {
    TreeCmp shown;
    shown.fresh = false;
    shown.printedOnly = true;
    shown.varOK = id.varOK;
    if (!shown.same(v, w)) return out.violation("text-same: different trees (" + shown.err + ") print alike after" + log + "\n" + ta);
  }
  // names
  if (eq && !hasCustom && src.flip()) {
    auto *x = src.pick(allValues(w));
    x->setName(x->getName() + "_renamed");
    if (util::match(v, w, true, true)) return out.violation("match-names: renamed node still matches with names checked: " + text(x));
    if (!util::match(v, w, false, true)) return out.violation("match-names: a name matters although names are not checked: " + text(x));
  }
}

void funcMatch(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  Soup g(*env, src);
  g.attrsOn = false;
  g.plainCustom = true;
  g.budget = (int)src.range(3, 30);
  Func *f = src.flip() ? (Func *)g.bodied((int)src.range(1, 3)) : g.other();
  util::CloneVisitor cv(&M);
  Func *h = cv.forceClone(f);
  out.text = text(f);
  out.nontrivial = true;
  pbt::announce(out.text);
  if (!util::match(f, f, true, true)) return out.violation("match-reflexive: " + text(f));
  std::string what;
  bool differ = true;
  switch (src.below(5)) {
  case 0: h->setGenerator(!h->isGenerator()); what = "generator flag"; break;
  case 1: h->setAsync(!h->isAsync()); what = "async flag"; break;
  case 2: {
    T *t = src.pick({env->i, env->f, env->b});
    differ = !t->is(f->getType());
    h->setType(t);
    what = "type";
    break;
  }
  case 3:
    if (auto *l = cast<LLVMFunc>(h)) {
      auto *lf = cast<LLVMFunc>(f);
      switch (src.below(3)) {
      case 0: l->setLLVMBody(l->getLLVMBody() + ";"); what = "llvm body"; break;
      case 1: l->setLLVMDeclarations(l->getLLVMDeclarations() + ";"); what = "llvm declarations"; break;
      default: {
        std::vector<types::Generic> ls(lf->literal_begin(), lf->literal_end());
        if (ls.empty() || src.flip()) ls.emplace_back(src.range(0, 3));
        else if (ls[0].isStatic()) ls[0] = types::Generic(ls[0].getStaticValue() + 1);
        else if (ls[0].isStaticStr()) ls[0] = types::Generic(ls[0].getStaticStringValue() + "x");
        else ls[0] = types::Generic(ls[0].getTypeValue()->is(env->i) ? env->f : env->i);
        l->setLLVMLiterals(ls);
        what = "llvm literals";
      }
      }
    } else if (auto *b = cast<BodiedFunc>(h)) {
      b->setJIT(!b->isJIT());
      what = "jit flag";
    } else if (isA<ExternalFunc>(h)) {
      h->setUnmangledName(h->getUnmangledName() + "_");
      what = "external name";
    } else {
      h->setParentType(h->getParentType() ? nullptr : env->i);
      what = "parent type of an internal function";
    }
    break;
  default: differ = false; what = "nothing";
  }
  for (int k = 0; k < 2; k++) {
    bool got = k ? util::match(h, f) : util::match(f, h);
    if (got == differ) return out.violation("match-function: changed " + what + ", matching says " + (got ? "equal" : "different") + "\n" + text(f) + "\n" + text(h));
  }
}

/// a clone of an executable program behaves as the program
void behave(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  Opts o;
  o.funcs = 2;
  Prog p = generate(*env, src, o);
  uint64_t seed = src.below(1000);
  out.text = dump(p);
  pbt::announce(out.text);
  Outcome a = interpret(*env, p.entry, {}, seed, 20000);
  if (a.fuelOut || !a.unsupported.empty()) { out.discard = true; return; }
  out.nontrivial = a.log.size() >= 6;
  // clone every function and let the clones call each other
  std::map<codon::ir::id_t, Func *> m;
  std::vector<BodiedFunc *> cl;
  auto add = [&](BodiedFunc *f) {
    util::CloneVisitor cv(&M);
    auto *g = cv.forceClone(f);
    auto d = cmpFuncs(f, g);
    if (!d.empty()) out.violation("clone-differs: " + d);
    m[f->getId()] = g;
    cl.push_back(g);
  };
  for (auto *f : p.fns) add(f);
  for (auto *f : p.gens) add(f);
  add(p.entry);
  for (auto *g : cl)
    for (auto *v : allValues(g->getBody()))
      for (auto &[k, to] : m) v->replaceUsedVariable(k, to);
  // empty the originals
  for (auto *f : p.fns) f->setBody(M.Nr<SeriesFlow>());
  for (auto *f : p.gens) f->setBody(M.Nr<SeriesFlow>());
  p.entry->setBody(M.Nr<SeriesFlow>());
  Outcome b = interpret(*env, m[p.entry->getId()] ? cl.back() : nullptr, {}, seed, 20000);
  auto d = diff(a, b);
  if (!d.empty()) out.violation("clone-behaviour: " + d);
}
const char *RN = "the cloned function has at least 6 nodes";
pbt::Reg r1("C20", "clone", RN, cloneCase, 4, 200);
pbt::Reg r2("C20", "match", "the compared tree has at least 3 nodes", matchCase, 4, 200);
pbt::Reg r3("C20", "match-functions", "every case", funcMatch, 1, 200);
pbt::Reg r4("C20", "behaviour", "the program makes at least 6 observable calls", behave, 2, 50);
} // namespace
