// C19: editing the IR keeps every use, owner and lookup consistent.
#include "soup.h"
#include "codon/cir/transform/cleanup/replacer.h"
#include "codon/cir/util/format.h"
#include "codon/cir/util/operator.h"
#include <algorithm>
#include <sstream>

using namespace vir;
using namespace codon::ir;

namespace {
std::string text(const Node *n) {
  std::ostringstream os;
  util::format(os, n);
  return os.str();
}
template <class V> std::vector<codon::ir::id_t> ids(const V &v) {
  std::vector<codon::ir::id_t> r;
  for (auto *x : v)
    if (x) r.push_back(x->getId());
  std::sort(r.begin(), r.end());
  return r;
}
std::vector<std::string> names(const std::vector<T *> &v) {
  std::vector<std::string> r;
  for (auto *x : v) r.push_back(x->getName());
  std::sort(r.begin(), r.end());
  return r;
}
std::string show(const std::vector<codon::ir::id_t> &v) {
  std::string s = "[";
  for (auto x : v) s += std::to_string(x) + " ";
  return s + "]";
}
std::vector<codon::ir::id_t> expectedValues(const Desc &d) {
  auto r = ids(d.kids);
  for (auto x : ids(d.loops)) r.push_back(x);
  std::sort(r.begin(), r.end());
  return r;
}
/// what a node says it uses against what it is made of
template <class N> std::string checkUses(N *n) {
  Desc d = describe(n);
  auto a = expectedValues(d), b = ids(n->getUsedValues());
  if (a != b) return d.kind + " lists values " + show(b) + " instead of " + show(a);
  const N *cn = n;
  if (ids(cn->getUsedValues()) != a) return d.kind + " lists other values when constant";
  a = ids(d.vars);
  b = ids(n->getUsedVariables());
  if (a != b) return d.kind + " lists variables " + show(b) + " instead of " + show(a);
  if (ids(cn->getUsedVariables()) != a) return d.kind + " lists other variables when constant";
  auto x = names(d.types), y = names(n->getUsedTypes());
  if (x != y) {
    std::string s;
    for (auto &q : y) s += q + " ";
    return d.kind + " lists types " + s;
  }
  return "";
}
std::string key(const Desc &d) {
  std::ostringstream os;
  os << d.kind << "|" << d.scalars << "|" << d.unprinted << "|";
  for (auto &t : d.typeNames) os << t << ",";
  for (auto *v : d.vars) os << "$" << (v ? v->getId() : -1);
  for (auto *v : d.kids) os << "#" << (v ? v->getId() : -1);
  for (auto *v : d.loops) os << "@" << (v ? v->getId() : -1);
  return os.str();
}
/// key with one identity substituted; n counts the substitutions
std::string keySubst(const Desc &d, int what, codon::ir::id_t from, codon::ir::id_t to, const std::string &tf, const std::string &tt, int &n) {
  std::ostringstream os;
  n = 0;
  os << d.kind << "|" << d.scalars << "|" << d.unprinted << "|";
  for (auto &t : d.typeNames) {
    if (what == 2 && t == tf) { os << tt << ","; ++n; }
    else os << t << ",";
  }
  for (auto *v : d.vars) {
    if (what == 1 && v && v->getId() == from) { os << "$" << to; ++n; }
    else os << "$" << (v ? v->getId() : -1);
  }
  for (auto *v : d.kids) {
    if (what == 0 && v && v->getId() == from) { os << "#" << to; ++n; }
    else os << "#" << (v ? v->getId() : -1);
  }
  for (auto *v : d.loops) {
    if (what == 0 && v && v->getId() == from) { os << "@" << to; ++n; }
    else os << "@" << (v ? v->getId() : -1);
  }
  return os.str();
}

template <class N> std::string replaceIn(Soup &g, N *n, std::string &log) {
  auto &src = g.s;
  Desc d = describe(n);
  int what = (int)src.below(3), cnt = 0, got;
  std::string want;
  if (what == 0) {
    auto us = expectedValues(d);
    bool hit = !us.empty() && src.chance(5, 6);
    codon::ir::id_t from;
    Value *old = nullptr;
    if (hit) from = src.pick(us);
    else { old = g.M->getInt(1); from = old->getId(); }
    bool flowPos = false;
    for (auto *k : d.kids) if (k && k->getId() == from) { old = const_cast<Value *>(k); }
    for (auto *k : d.loops) if (k && k->getId() == from) { old = const_cast<Value *>(k); }
    flowPos = isA<Flow>(old);
    g.budget = 3;
    Value *nw = flowPos ? (Value *)g.flow(1) : g.value(0);
    want = keySubst(d, 0, from, nw->getId(), "", "", cnt);
    log += " value " + std::to_string(from) + "->" + std::to_string(nw->getId());
    got = src.flip() ? n->replaceUsedValue(from, nw) : n->replaceUsedValue(old, nw);
  } else if (what == 1) {
    auto us = ids(d.vars);
    bool hit = !us.empty() && src.chance(5, 6);
    Var *old = hit ? nullptr : g.globals[0];
    if (hit) {
      auto from = src.pick(us);
      for (auto *v : d.vars) if (v && v->getId() == from) old = const_cast<Var *>(v);
    }
    Var *nw = g.M->template Nr<Var>(old->getType(), old->isGlobal(), false, false, "nv");
    want = keySubst(d, 1, old->getId(), nw->getId(), "", "", cnt);
    log += " var " + std::to_string(old->getId()) + "->" + std::to_string(nw->getId());
    got = src.flip() ? n->replaceUsedVariable(old->getId(), nw) : n->replaceUsedVariable(old, nw);
  } else {
    bool hit = !d.types.empty() && src.chance(5, 6);
    T *old = hit ? src.pick(d.types) : g.type();
    T *nw = g.type();
    if (isA<Func>(n)) nw = g.e.fty(g.type(), {});
    want = keySubst(d, 2, 0, 0, old->getName(), nw->getName(), cnt);
    log += " type " + old->getName() + "->" + nw->getName();
    got = src.flip() ? n->replaceUsedType(old->getName(), nw) : n->replaceUsedType(old, nw);
  }
  auto now = key(describe(n));
  if (now != want) return d.kind + " after replacing" + log + ": is " + now + ", expected " + want;
  if (got != cnt) return d.kind + " after replacing" + log + ": reported " + std::to_string(got) + " replacements, made " + std::to_string(cnt);
  return "";
}

void uses(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  Soup g(*env, src);
  g.share = src.chance(1, 3);
  g.budget = (int)src.range(3, 40);
  g.attrsOn = false;
  Func *f = src.chance(4, 5) ? (Func *)g.bodied((int)src.range(1, 4)) : g.other();
  auto *bf = cast<BodiedFunc>(f);
  out.text = text(f);
  pbt::announce(out.text);
  auto nodes = bf && bf->getBody() ? allValues(bf->getBody()) : std::vector<Value *>{};
  out.nontrivial = nodes.size() >= 4;
  // replacements are made of nodes that do not touch the function under test
  auto *other = M.Nr<BodiedFunc>("other");
  other->realize(env->fty(env->i, {env->i}), {"a"});
  g.cur = other;
  g.locals.clear();
  int edits = (int)src.range(1, 6);
  std::string log;
  for (int k = 0; k <= edits; k++) {
    nodes = bf && bf->getBody() ? allValues(bf->getBody()) : std::vector<Value *>{};
    auto e = checkUses(f);
    for (auto *v : nodes) if (e.empty()) e = checkUses(v);
    if (!e.empty()) return out.violation("uses: " + e + " after" + log);
    if (k == edits) break;
    // everything else must stay as it is
    std::map<codon::ir::id_t, std::string> keys;
    for (auto *v : nodes) keys[v->getId()] = key(describe(v));
    auto fk = key(describe(f));
    codon::ir::id_t touched = -1;
    if (nodes.empty() || src.chance(1, 5)) e = replaceIn(g, f, log);
    else {
      auto *x = src.pick(nodes);
      touched = x->getId();
      e = replaceIn(g, x, log);
      if (e.empty() && key(describe(f)) != fk) e = "another node changed: the function";
    }
    if (!e.empty()) return out.violation("replace: " + e);
    for (auto *v : nodes)
      if (v->getId() != touched && key(describe(v)) != keys[v->getId()]) return out.violation("replace: another node changed: " + describe(v).kind + " after" + log);
  }
  out.text += "\nedits:" + log;
}

/// replaceAll: every question to the replaced node is answered by the final replacement
void replaceAll(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  Soup g(*env, src);
  int n = (int)src.range(2, 7);
  bool vars = src.chance(1, 3);
  out.nontrivial = n >= 3;
  std::ostringstream log;
  g.budget = 10;
  auto *host = g.bodied(0);
  if (!host->getBody()) { out.discard = true; return; }
  g.cur = host;
  if (!vars) {
    std::vector<Value *> vs;
    std::vector<int> to(n, -1);
    auto *holder = M.Nr<SeriesFlow>();
    auto *user = M.Nr<CallInstr>(M.Nr<VarValue>(g.funcs[0]), std::vector<Value *>{});
    for (int k = 0; k < n; k++) {
      g.budget = 4;
      auto *v = g.value(1);
      bool dup = false;
      for (auto *w : vs) dup |= w == v;
      if (dup) v = M.getInt(k);
      vs.push_back(v);
      holder->push_back(v);
      user->push_back(v);
    }
    std::vector<std::string> own, ownAttr, ownName;
    std::vector<codon::ir::id_t> ownId;
    for (auto *v : vs) { own.push_back(key(describe(v))); ownAttr.push_back(attrText(v, false)); ownName.push_back(v->getName()); ownId.push_back(v->getId()); }
    auto fin = [&](int k) { while (to[k] >= 0) k = to[k]; return k; };
    int steps = (int)src.range(1, n);
    for (int q = 0; q < steps; q++) {
      int a = (int)src.below(n), b = (int)src.below(n);
      if (fin(a) == fin(b)) continue; // no cycles
      // replacing an already replaced node redirects the node itself
      int at = a;
      if (to[at] >= 0) at = fin(at);
      vs[at]->replaceAll(vs[b]);
      to[at] = b;
      log << " " << at << "->" << b;
    }
    out.text = "values" + log.str() + "\n" + text(holder);
    pbt::announce(out.text);
    for (int k = 0; k < n; k++) {
      int r = fin(k);
      const Value *cv = vs[k];
      if (vs[k]->getActual() != vs[r]) return out.violation("replacement: node " + std::to_string(k) + " does not resolve to node " + std::to_string(r) + log.str());
      if (vs[k]->getId() != ownId[r] || cv->getActual()->getId() != ownId[r]) return out.violation("replacement: identity" + log.str());
      if (vs[k]->getName() != ownName[r]) return out.violation("replacement: name" + log.str());
      if (attrText(vs[k], false) != ownAttr[r]) return out.violation("replacement: attributes" + log.str());
      if (vs[k]->hasReplacement() != (to[k] >= 0)) return out.violation("replacement: flag" + log.str());
      if (ids(vs[k]->getUsedValues()) != ids(vs[r]->getUsedValues()) || ids(vs[k]->getUsedVariables()) != ids(vs[r]->getUsedVariables()) ||
          names(vs[k]->getUsedTypes()) != names(vs[r]->getUsedTypes()))
        return out.violation("replacement: uses" + log.str());
      if (key(describe(vs[k])).substr(0, 4) != own[r].substr(0, 4)) return out.violation("replacement: kind" + log.str());
      if (text(vs[k]) != text(vs[r])) return out.violation("replacement: visited as another node" + log.str());
    }
    // the users see the final nodes
    int k = 0;
    for (auto *v : *holder) {
      if (v->getId() != ownId[fin(k)]) return out.violation("replacement: a user refers to a stale node" + log.str());
      ++k;
    }
    // writing through a replaced node reaches the final one
    int w = (int)src.below(n);
    vs[w]->setName("renamed");
    vs[w]->setAttribute(std::make_unique<IntValueAttribute>(4242));
    if (vs[fin(w)]->getName() != "renamed" || !vs[fin(w)]->getAttribute<IntValueAttribute>() || vs[fin(w)]->getAttribute<IntValueAttribute>()->value != 4242)
      return out.violation("replacement: writing through a replaced node" + log.str());
    vs[w]->eraseAttribute(IntValueAttribute::AttributeID);
    if (vs[fin(w)]->hasAttribute<IntValueAttribute>()) return out.violation("replacement: erasing through a replaced node" + log.str());
  } else {
    std::vector<Var *> vs;
    std::vector<int> to(n, -1);
    for (int k = 0; k < n; k++) {
      Var *v = src.chance(1, 4) ? (Var *)g.other() : M.Nr<Var>(g.type(), src.flip(), src.flip(), src.flip(), "w" + std::to_string(k));
      vs.push_back(v);
    }
    std::vector<codon::ir::id_t> own;
    for (auto *v : vs) own.push_back(v->getId());
    auto fin = [&](int k) { while (to[k] >= 0) k = to[k]; return k; };
    std::vector<VarValue *> users;
    for (auto *v : vs) users.push_back(M.Nr<VarValue>(v));
    for (int q = 0; q < n; q++) {
      int a = (int)src.below(n), b = (int)src.below(n);
      if (fin(a) == fin(b)) continue;
      int at = fin(a);
      if (isA<Func>(vs[at]) != isA<Func>(vs[b])) continue;
      vs[at]->replaceAll(vs[b]);
      to[at] = b;
      log << " " << at << "->" << b;
    }
    out.text = "variables" + log.str();
    pbt::announce(out.text);
    for (int k = 0; k < n; k++) {
      int r = fin(k);
      if (vs[k]->getId() != own[r]) return out.violation("replacement: identity" + log.str());
      if (key(describe(vs[k])).compare(key(describe(vs[r]))) != 0) return out.violation("replacement: fields" + log.str());
      if (ids(vs[k]->getUsedVariables()) != ids(vs[r]->getUsedVariables()) || names(vs[k]->getUsedTypes()) != names(vs[r]->getUsedTypes()))
        return out.violation("replacement: uses" + log.str());
      if (users[k]->getUsedVariables()[0]->getId() != own[r] || !users[k]->getType()->is(vs[r]->getType())) return out.violation("replacement: user of a variable" + log.str());
      if (vs[k]->referenceString() != vs[r]->referenceString()) return out.violation("replacement: reference" + log.str());
    }
    int w = (int)src.below(n);
    vs[w]->setGlobal(!vs[fin(w)]->isGlobal());
    if (vs[w]->isGlobal() != vs[fin(w)]->isGlobal()) return out.violation("replacement: flag" + log.str());
  }
}

/// module membership against a model, with nested scratch arenas
void moduleModel(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  std::set<codon::ir::id_t> vals, vars;
  std::set<std::string> types;
  std::vector<codon::ir::id_t> valOrder, varOrder;
  std::vector<std::string> typeOrder;
  for (auto it = M.values_begin(); it != M.values_end(); ++it) { vals.insert((*it)->getId()); valOrder.push_back((*it)->getId()); }
  for (auto *v : M) { vars.insert(v->getId()); varOrder.push_back(v->getId()); }
  for (auto it = M.types_begin(); it != M.types_end(); ++it) { types.insert((*it)->getName()); typeOrder.push_back((*it)->getName()); }
  std::vector<Value *> mine;
  std::vector<Var *> mineV;
  std::vector<T *> mineT;
  struct Arena { std::vector<codon::ir::id_t> v, w; std::vector<std::string> t; };
  std::vector<Arena> arenas;
  std::vector<codon::ir::id_t> everV, everW;
  std::vector<std::string> everT;
  int steps = (int)src.range(1, 40);
  std::ostringstream log;
  auto drop = [&](auto &vec, auto pred) { vec.erase(std::remove_if(vec.begin(), vec.end(), pred), vec.end()); };
  int deep = 0;
  for (int k = 0; k < steps; k++) {
    switch (src.weighted({6, 4, 3, 3, 2, 1, 2, 2})) {
    case 0: {
      Value *v = src.flip() ? (Value *)M.getInt(k) : M.Nr<SeriesFlow>("s");
      mine.push_back(v);
      vals.insert(v->getId());
      valOrder.push_back(v->getId());
      everV.push_back(v->getId());
      if (!arenas.empty()) arenas.back().v.push_back(v->getId());
      log << " +value" << v->getId();
      break;
    }
    case 1: {
      Var *v = src.chance(3, 4) ? M.Nr<Var>(env->i, src.flip(), false, false, "m") : (Var *)M.Nr<BodiedFunc>("bf");
      mineV.push_back(v);
      vars.insert(v->getId());
      varOrder.push_back(v->getId());
      everW.push_back(v->getId());
      if (!arenas.empty()) arenas.back().w.push_back(v->getId());
      log << " +var" << v->getId();
      break;
    }
    case 2: {
      T *base = mineT.empty() || src.flip() ? env->i : src.pick(mineT);
      T *t;
      std::string want;
      switch (src.below(4)) {
      case 0: want = "Pointer[" + base->getName() + "]"; t = M.unsafeGetPointerType(base); break;
      case 1: want = "Optional[" + base->getName() + "]"; t = M.unsafeGetOptionalType(base); break;
      case 2: { int w = (int)src.range(1, 5); bool sg = src.flip(); want = (sg ? "Int" : "UInt") + std::to_string(w); t = M.unsafeGetIntNType(w, sg); break; }
      default: want = "Rec" + std::to_string(src.below(4)); t = M.unsafeGetMemberedType(want);
      }
      if (t->getName() != want) return out.violation("module: type named " + t->getName() + " for " + want);
      bool isNew = types.insert(t->getName()).second;
      if (isNew) {
        typeOrder.push_back(t->getName());
        everT.push_back(t->getName());
        mineT.push_back(t);
        if (!arenas.empty()) arenas.back().t.push_back(t->getName());
      } else if (M.getType(want) != t) return out.violation("module: two types named " + want);
      log << " type " << want;
      break;
    }
    case 3:
      if (!mine.empty()) {
        auto *v = src.pick(mine);
        auto id = v->getId();
        drop(mine, [&](Value *x) { return x == v; });
        M.remove(v);
        vals.erase(id);
        drop(valOrder, [&](codon::ir::id_t x) { return x == id; });
        log << " -value" << id;
      }
      break;
    case 4:
      if (!mineV.empty()) {
        auto *v = src.pick(mineV);
        auto id = v->getId();
        drop(mineV, [&](Var *x) { return x == v; });
        M.remove(v);
        vars.erase(id);
        drop(varOrder, [&](codon::ir::id_t x) { return x == id; });
        log << " -var" << id;
      }
      break;
    case 5: // remove a type nobody is based on
      if (!mineT.empty()) {
        auto *t = mineT.back();
        auto n = t->getName();
        mineT.pop_back();
        M.remove(t);
        types.erase(n);
        drop(typeOrder, [&](const std::string &x) { return x == n; });
        log << " -type " << n;
      }
      break;
    case 6:
      M.pushArena();
      arenas.emplace_back();
      deep = std::max(deep, (int)arenas.size());
      log << " push";
      break;
    default:
      if (arenas.empty()) break;
      M.popArena();
      auto a = arenas.back();
      arenas.pop_back();
      auto in = [](auto &v, auto x) { return std::find(v.begin(), v.end(), x) != v.end(); };
      // drop the handles before their ids are looked at
      std::vector<Value *> keep;
      std::vector<Var *> keepV;
      std::vector<T *> keepT;
      for (auto *v : mine) { bool gone = false; for (auto id : a.v) gone |= !M.getValue(id) ? false : false; (void)gone; keep.push_back(v); }
      (void)keepV; (void)keepT;
      for (auto id : a.v) { vals.erase(id); drop(valOrder, [&](codon::ir::id_t x) { return x == id; }); }
      for (auto id : a.w) { vars.erase(id); drop(varOrder, [&](codon::ir::id_t x) { return x == id; }); }
      for (auto &n : a.t) { types.erase(n); drop(typeOrder, [&](const std::string &x) { return x == n; }); }
      // survivors by what the module still knows
      mine.clear();
      mineV.clear();
      mineT.clear();
      for (auto id : everV) if (vals.count(id)) if (auto *v = M.getValue(id)) mine.push_back(v);
      for (auto id : everW) if (vars.count(id)) if (auto *v = M.getVar(id)) mineV.push_back(v);
      for (auto &n : typeOrder) if (in(everT, n)) if (auto *t = M.getType(n)) mineT.push_back(t);
      log << " pop";
    }
    out.text = log.str();
    pbt::announce(out.text);
    std::vector<codon::ir::id_t> gv, gw;
    std::vector<std::string> gt;
    for (auto it = M.values_begin(); it != M.values_end(); ++it) gv.push_back((*it)->getId());
    for (auto *v : M) gw.push_back(v->getId());
    for (auto it = M.types_begin(); it != M.types_end(); ++it) gt.push_back((*it)->getName());
    if (gv != valOrder) return out.violation("module: values " + show(gv) + " expected " + show(valOrder) + " after" + log.str());
    if (gw != varOrder) return out.violation("module: variables " + show(gw) + " expected " + show(varOrder) + " after" + log.str());
    if (gt != typeOrder) return out.violation("module: types after" + log.str());
    for (auto id : everV) {
      auto *v = M.getValue(id);
      if ((v != nullptr) != (vals.count(id) > 0) || (v && (v->getId() != id || v->getModule() != &M))) return out.violation("module: lookup of value " + std::to_string(id) + " after" + log.str());
    }
    for (auto id : everW) {
      auto *v = M.getVar(id);
      if ((v != nullptr) != (vars.count(id) > 0) || (v && (v->getId() != id || v->getModule() != &M))) return out.violation("module: lookup of variable " + std::to_string(id) + " after" + log.str());
    }
    for (auto &n : everT) {
      auto *t = M.getType(n);
      if ((t != nullptr) != (types.count(n) > 0) || (t && t->getName() != n)) return out.violation("module: lookup of type " + n + " after" + log.str());
    }
  }
  out.nontrivial = deep >= 1 && steps >= 8;
}

/// an Operator visits every node of a tree once, parents before children, and knows its ancestors
struct Walk : public util::Operator {
  std::vector<codon::ir::id_t> pre, post;
  std::vector<size_t> depth;
  std::string err;
  void preHook(Node *n) override {
    if (auto *v = cast<Value>(n)) { pre.push_back(v->getId()); depth.push_back(std::distance(parent_begin(), parent_end())); }
  }
  void postHook(Node *n) override {
    if (auto *v = cast<Value>(n)) post.push_back(v->getId());
  }
};
void walk(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  Soup g(*env, src);
  g.attrsOn = false;
  g.exitTargets = false; // a loop named by its own exits is a child of both
  g.budget = (int)src.range(3, 40);
  auto *f = g.bodied((int)src.range(1, 5));
  if (!f->getBody()) { out.discard = true; return; }
  out.text = text(f);
  pbt::announce(out.text);
  Walk w;
  f->accept(w);
  std::set<codon::ir::id_t> want;
  for (auto *v : allValues(f->getBody())) want.insert(v->getId());
  std::set<codon::ir::id_t> got(w.pre.begin(), w.pre.end());
  out.nontrivial = want.size() >= 5;
  if (got.size() != w.pre.size()) return out.violation("walk: a node was visited twice");
  for (auto id : want) if (!got.count(id)) return out.violation("walk: node " + std::to_string(id) + " was not visited");
  for (auto id : got) if (!want.count(id)) return out.violation("walk: node " + std::to_string(id) + " does not belong to the tree");
  if (w.post.size() != w.pre.size()) return out.violation("walk: nodes entered and left differ");
}

/// replaced nodes disappear behind the cleanup pass; behaviour follows the replacements
void cleanup(pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  Opts o;
  o.funcs = 2;
  Prog p = generate(*env, src, o);
  uint64_t seed = src.below(1000);
  // replace integer constants by others and observe the same replacement in the meaning
  std::vector<Value *> consts;
  std::vector<BodiedFunc *> fs = p.fns;
  fs.insert(fs.end(), p.gens.begin(), p.gens.end());
  for (auto *f : fs)
    for (auto *v : allValues(f->getBody()))
      if (isA<IntConst>(v)) consts.push_back(v);
  out.text = dump(p);
  pbt::announce(out.text);
  int n = (int)src.range(1, 4), done = 0;
  std::map<codon::ir::id_t, Value *> dead;
  for (int k = 0; k < n && !consts.empty(); k++) {
    auto *v = src.pick(consts);
    auto *actual = v->getActual();
    if (dead.count(v->getId())) continue;
    auto id = actual->getId();
    Value *nw = src.flip() ? M.getInt(cast<IntConst>(v)->getVal()) : M.Nr<FlowInstr>(M.Nr<SeriesFlow>(), M.getInt(cast<IntConst>(v)->getVal()));
    actual->replaceAll(nw);
    dead[id] = actual;
    if (isA<FlowInstr>(nw)) consts.erase(std::remove(consts.begin(), consts.end(), v), consts.end());
    ++done;
  }
  // a local variable replaced by a fresh one
  std::map<codon::ir::id_t, Var *> deadVars;
  if (!p.fns.empty() && src.flip()) {
    auto *f = src.pick(p.fns);
    std::vector<Var *> ls(f->begin(), f->end());
    if (!ls.empty()) {
      auto *v = src.pick(ls);
      auto id = v->getId();
      auto *nv = M.Nr<Var>(v->getType(), false, false, false, "fresh");
      v->replaceAll(nv);
      deadVars[id] = v;
      ++done;
    }
  }
  Outcome a = interpret(*env, p.entry, {}, seed, 20000);
  if (a.fuelOut || !a.unsupported.empty() || !done) { out.discard = true; return; }
  auto t1 = dump(p);
  std::set<Value *> usedV;
  std::set<Var *> usedW;
  for (auto it = M.values_begin(); it != M.values_end(); ++it) {
    for (auto *u : (*it)->getUsedValues()) if (u->hasReplacement()) usedV.insert(u);
    for (auto *u : (*it)->getUsedVariables()) if (u->hasReplacement()) usedW.insert(u);
  }
  transform::cleanup::ReplaceCleanupPass pass;
  pass.run(&M);
  out.nontrivial = a.log.size() >= 4;
  for (auto &[id, v] : dead)
    if (usedV.count(v) && M.getValue(id)) return out.violation("cleanup: a replaced value is still in the module");
  for (auto &[id, v] : deadVars)
    if (usedW.count(v) && M.getVar(id)) return out.violation("cleanup: a replaced variable is still in the module");
  for (auto it = M.values_begin(); it != M.values_end(); ++it) {
    if (usedV.count(&**it)) return out.violation("cleanup: a replaced value is left");
    for (auto *u : (*it)->getUsedValues())
      if (u->hasReplacement()) return out.violation("cleanup: a replaced value is still used");
    for (auto *u : (*it)->getUsedVariables())
      if (u->hasReplacement()) return out.violation("cleanup: a replaced variable is still used");
  }
  if (dump(p) != t1) return out.violation("cleanup: the program reads differently afterwards");
  Outcome b = interpret(*env, p.entry, {}, seed, 20000);
  auto d = diff(a, b);
  if (!d.empty()) out.violation("cleanup: behaviour: " + d);
}
pbt::Reg r1("C19", "uses", "the function has at least 4 nodes", uses, 4, 200);
pbt::Reg r2("C19", "replacement", "at least 3 nodes take part", replaceAll, 2, 200);
pbt::Reg r3("C19", "module", "at least 8 operations with an arena", moduleModel, 2, 200);
pbt::Reg r4("C19", "walk", "the tree has at least 5 nodes", walk, 1, 200);
pbt::Reg r5("C19", "cleanup", "the program makes at least 4 observable calls", cleanup, 2, 50);
} // namespace
