// C17: type unification against an independent first-order unifier with occurs check.
#include "core.h"
#include "ir.h"
#include "codon/compiler/compiler.h"
#include "codon/parser/ast.h"
#include "codon/parser/cache.h"
#include "codon/parser/common.h"
#include <map>
#include <memory>
#include <set>

using namespace codon::ast;
using namespace codon::ast::types;
using pbt::Out;
using pbt::Src;

namespace {
Cache *cache() { return vir::stdCompiler()->getCache(); }

// ---- the model's terms
struct Term;
using P = std::shared_ptr<Term>;
struct Term {
  enum K { Var, Gen, Cls, Lit, Fn } k;
  int id = 0;            // unknown or generic
  int kind = 0;          // literal kind of an unknown, generic or literal
  std::string name;      // class, function or literal text
  std::vector<P> args, hidden; // Fn: args = return, arguments...; hidden = generics, then parent
  bool parent = false;
};
struct Unk { // an unknown of the real side with what the model knows of it
  std::shared_ptr<LinkType> link;
  int level, kind;
};
struct World {
  std::vector<Unk> unk;
  std::vector<std::shared_ptr<LinkType>> gen;
  std::vector<std::shared_ptr<LinkType>> links; // every link node made
  std::vector<FunctionStmt *> fns;
  bool lits = false, hasFn = false, hasGen = false;
  /// In functions with several: what a function belongs to has unknowns of its own (the last two), since the
  /// language itself closes cycles there (a function's result may be a function inside it).
  bool inHidden = false;
  bool usable(size_t i) const { return !hasFn || (i + 2 >= unk.size()) == inHidden; }
};

std::string show(const P &t) {
  switch (t->k) {
  case Term::Var: return "?" + std::to_string(t->id) + (t->kind ? ":S" + std::to_string(t->kind) : "");
  case Term::Gen: return "#" + std::to_string(t->id);
  case Term::Lit: return t->name;
  default: {
    std::string s = t->name;
    if (t->args.size() + t->hidden.size()) {
      s += "[";
      for (auto &a : t->args) s += show(a) + ",";
      for (auto &a : t->hidden) s += "-" + show(a) + ",";
      s.back() = ']';
    }
    return s;
  }
  }
}

// ---- the model's unifier
struct Model {
  std::map<int, P> sub;
  std::map<int, int> kind;
  P walk(P t) {
    while (t->k == Term::Var) {
      auto i = sub.find(t->id);
      if (i == sub.end()) break;
      t = i->second;
    }
    return t;
  }
  int kindOf(const P &t) { return t->k == Term::Cls || t->k == Term::Fn ? 0 : t->k == Term::Var && kind.count(t->id) ? kind[t->id] : t->kind; }
  bool occurs(int v, P t) {
    t = walk(t);
    if (t->k == Term::Var) return t->id == v;
    for (auto &a : t->args) if (occurs(v, a)) return true;
    for (auto &a : t->hidden) if (occurs(v, a)) return true;
    return false;
  }
  bool unify(P a, P b) {
    a = walk(a), b = walk(b);
    if (a == b) return true;
    if (a->k == Term::Var && b->k == Term::Var && a->id == b->id) return true;
    if (a->k != Term::Var && b->k == Term::Var) std::swap(a, b);
    if (a->k == Term::Var) {
      if (b->k == Term::Gen) return false;
      int ka = kindOf(a), kb = kindOf(b);
      if (b->k == Term::Var) {
        if (ka && kb && ka != kb) return false;
        kind[b->id] = ka | kb;
        sub[a->id] = b;
        return true;
      }
      if (ka && ka != kb) return false;
      if (occurs(a->id, b)) return false;
      sub[a->id] = b;
      return true;
    }
    if (a->k != b->k) return false;
    if (a->k == Term::Gen) return a->id == b->id;
    if (a->k == Term::Lit) return a->kind == b->kind && a->name == b->name;
    if (a->name != b->name || a->args.size() != b->args.size() || a->hidden.size() != b->hidden.size() || a->parent != b->parent) return false;
    for (size_t i = 0; i < a->args.size(); i++)
      if (!unify(a->args[i], b->args[i])) return false;
    for (size_t i = 0; i < a->hidden.size(); i++)
      if (!unify(a->hidden[i], b->hidden[i])) return false;
    return true;
  }
  P apply(P t, int depth = 0) {
    t = walk(t);
    auto r = std::make_shared<Term>(*t);
    if (t->k == Term::Var) r->kind = kindOf(t);
    for (auto &a : r->args) a = apply(a, depth + 1);
    for (auto &a : r->hidden) a = apply(a, depth + 1);
    return r;
  }
};
void vars(const P &t, std::vector<int> &out) {
  if (t->k == Term::Var) out.push_back(t->id);
  for (auto &a : t->args) vars(a, out);
  for (auto &a : t->hidden) vars(a, out);
}
bool hasKind(const P &t, Term::K k) {
  if (t->k == k) return true;
  for (auto &a : t->args) if (hasKind(a, k)) return true;
  for (auto &a : t->hidden) if (hasKind(a, k)) return true;
  return false;
}
/// equal up to a renaming of the unknowns
bool alpha(const P &a, const P &b, std::map<int, int> &m, std::map<int, int> &n) {
  if (a->k != b->k || a->name != b->name || a->args.size() != b->args.size() || a->hidden.size() != b->hidden.size() || a->kind != b->kind || a->parent != b->parent) return false;
  if (a->k == Term::Gen && a->id != b->id) return false;
  if (a->k == Term::Var) {
    auto i = m.emplace(a->id, b->id).first;
    auto j = n.emplace(b->id, a->id).first;
    return i->second == b->id && j->second == a->id;
  }
  for (size_t i = 0; i < a->args.size(); i++) if (!alpha(a->args[i], b->args[i], m, n)) return false;
  for (size_t i = 0; i < a->hidden.size(); i++) if (!alpha(a->hidden[i], b->hidden[i], m, n)) return false;
  return true;
}

// ---- generation
const char *KINDS[] = {"", "int", "str", "bool"};
P lit(int kind, const std::string &v) {
  auto t = std::make_shared<Term>();
  t->k = Term::Lit, t->kind = kind, t->name = v;
  return t;
}
P cls(const std::string &n, std::vector<P> a = {}, std::vector<P> h = {}) {
  auto t = std::make_shared<Term>();
  t->k = Term::Cls, t->name = n, t->args = std::move(a), t->hidden = std::move(h);
  return t;
}
P var(World &w, int i) {
  auto t = std::make_shared<Term>();
  t->k = Term::Var, t->id = i, t->kind = w.unk[i].kind;
  return t;
}
P varOf(World &w, Src &s, int kind) {
  std::vector<int> c;
  for (size_t i = 0; i < w.unk.size(); i++) if (w.unk[i].kind == kind && w.usable(i)) c.push_back((int)i);
  if (c.empty()) return nullptr;
  return var(w, s.pick(c));
}
P anyVar(World &w, Src &s) {
  if (!w.lits) if (auto v = varOf(w, s, 0)) return v;
  if (!w.lits) return cls("A");
  std::vector<int> c;
  for (size_t i = 0; i < w.unk.size(); i++) if (w.usable(i)) c.push_back((int)i);
  return var(w, s.pick(c));
}
P term(World &w, Src &s, int depth, bool top = false) {
  int wv = top ? 2 : 6;
  switch (s.weighted({wv, 3, depth > 0 ? 8 : 0, w.lits ? 2 : 0, !w.lits && depth > 0 ? 2 : 0, w.hasFn && !w.inHidden && depth > 0 ? 3 : 0, w.hasGen ? 1 : 0})) {
  case 0: return anyVar(w, s);
  case 1: return cls(s.pick<const char *>({"float", "A", "B"}));
  case 2: switch (s.below(5)) {
    case 0: return cls("List", {term(w, s, depth - 1)});
    case 1: {
      std::vector<P> a;
      for (int n = (int)s.below(4); n > 0; n--) a.push_back(term(w, s, depth - 1));
      return cls("Tuple", a);
    }
    case 2: {auto a = term(w, s, depth - 1); return cls("Dict", {a, term(w, s, depth - 1)});}
    case 3: {auto a = term(w, s, depth - 1); return cls("Box", {a}, {term(w, s, depth - 1)});}
    default: return cls("Hid", {}, {term(w, s, depth - 1)});
    }
  case 3: {
    int k = 1 + (int)s.below(3);
    if (k == 1) return lit(1, std::to_string(s.below(3)));
    if (k == 2) return lit(2, s.pick<const char *>({"a", "b"}));
    return lit(3, s.flip() ? "1" : "0");
  }
  case 4: { // integers of a width
    switch (s.below(3)) {
    case 0: return cls("Int", {lit(1, "64")}); // written as the plain class or as a width
    case 1: return cls("Int", {lit(1, "32")});
    default: if (auto v = varOf(w, s, 1)) return cls("Int", {v});
      return cls("Int", {lit(1, "64")});
    }
  }
  case 5: {
    auto t = std::make_shared<Term>();
    t->k = Term::Fn;
    int f = (int)s.below(w.fns.size());
    t->name = w.fns[f]->getName();
    int n = f == 2 ? 2 : 1; // arguments
    for (int i = 0; i <= n; i++) t->args.push_back(term(w, s, depth - 1));
    w.inHidden = true;
    if (f == 1) t->hidden.push_back(term(w, s, depth - 1));
    if (f == 2) { t->parent = true; t->hidden.push_back(cls("List", {term(w, s, depth - 1)})); }
    w.inHidden = false;
    return t;
  }
  default: {
    auto t = std::make_shared<Term>();
    t->k = Term::Gen, t->id = 1000 + (int)s.below(w.gen.size());
    return t;
  }
  }
}
TypePtr build(World &w, Src &s, const P &t) {
  auto kids = [&](const std::vector<P> &a, const char *pre) {
    std::vector<ClassType::Generic> g;
    for (size_t i = 0; i < a.size(); i++) {
      auto ty = build(w, s, a[i]);
      g.emplace_back(pre + std::to_string(i), ty, 5000 + (int)i, (LiteralKind)ty->getStaticKind());
    }
    return g;
  };
  TypePtr r;
  switch (t->k) {
  case Term::Var: r = w.unk[t->id].link; break;
  case Term::Gen: r = w.gen[t->id - 1000]; break;
  case Term::Lit:
    if (t->kind == 1) r = std::make_shared<IntStaticType>(cache(), std::stoll(t->name));
    else if (t->kind == 2) r = std::make_shared<StrStaticType>(cache(), t->name);
    else r = std::make_shared<BoolStaticType>(cache(), t->name == "1");
    break;
  case Term::Cls:
    if (t->name == "Int" && t->args[0]->k == Term::Lit && t->args[0]->name == "64" && s.flip()) r = std::make_shared<ClassType>(cache(), "int");
    else r = std::make_shared<ClassType>(cache(), t->name, kids(t->args, "T"), kids(t->hidden, "H"));
    if (t->name == "Tuple") r->getClass()->isTuple = true;
    break;
  case Term::Fn: {
    std::vector<P> a(t->args.begin() + 1, t->args.end());
    auto tup = std::make_shared<ClassType>(cache(), "Tuple", kids(a, "T"));
    auto ret = build(w, s, t->args[0]);
    std::vector<ClassType::Generic> g;
    g.emplace_back("T", tup, 5000, LiteralKind::Runtime);
    g.emplace_back("TR", ret, 5001, LiteralKind::Runtime);
    ClassType base(cache(), "Function", g);
    FunctionStmt *ast = nullptr;
    for (auto *f : w.fns) if (f->getName() == t->name) ast = f;
    std::vector<ClassType::Generic> fg;
    if (!t->parent) fg = kids(t->hidden, "F");
    r = std::make_shared<FuncType>(&base, ast, fg, t->parent ? build(w, s, t->hidden[0]) : nullptr);
    break;
  }
  }
  if (s.chance(1, 4)) {
    auto l = std::make_shared<LinkType>(r);
    w.links.push_back(l);
    r = l;
  }
  return r;
}
/// what a real type now is; null if it contains itself
P read(Type *t, std::vector<Type *> &path) {
  t = t->follow();
  for (auto *p : path) if (p == t) return nullptr;
  if (path.size() > 60) return nullptr;
  path.push_back(t);
  struct Pop { std::vector<Type *> &p; ~Pop() { p.pop_back(); } } pop{path};
  auto r = std::make_shared<Term>();
  if (auto *l = t->getLink()) {
    r->k = l->kind == LinkType::Unbound ? Term::Var : Term::Gen;
    r->id = l->id;
    r->kind = l->kind == LinkType::Unbound ? (int)l->staticKind : 0;
    return r;
  }
  if (auto *x = t->getIntStatic()) return lit(1, std::to_string(x->value));
  if (auto *x = t->getStrStatic()) return lit(2, x->value);
  if (auto *x = t->getBoolStatic()) return lit(3, x->value ? "1" : "0");
  auto put = [&](std::vector<P> &v, Type *x) {
    auto c = read(x, path);
    if (c) v.push_back(c);
    return !!c;
  };
  if (auto *f = t->getFunc()) {
    r->k = Term::Fn;
    r->name = f->ast->getName();
    if (!put(r->args, f->generics[1].getType())) return nullptr;
    for (auto &a : *f) if (!put(r->args, a.getType())) return nullptr;
    for (auto &g : f->funcGenerics) if (!put(r->hidden, g.getType())) return nullptr;
    if (f->funcParent) { r->parent = true; if (!put(r->hidden, f->funcParent.get())) return nullptr; }
    return r;
  }
  auto *c = t->getClass();
  r->k = Term::Cls;
  if (c->name == "int") return cls("Int", {lit(1, "64")});
  r->name = c->name;
  for (auto &g : c->generics) if (!put(r->args, g.getType())) return nullptr;
  for (auto &g : c->hiddenGenerics) if (!put(r->hidden, g.getType())) return nullptr;
  return r;
}
P read(Type *t) {
  std::vector<Type *> p;
  return read(t, p);
}
/// everything that unification may change
using Snap = std::vector<std::tuple<int, Type *, int, int, void *, int>>;
Snap snap(World &w) {
  Snap r;
  auto add = [&](LinkType *l) { r.emplace_back((int)l->kind, l->type.get(), l->level, (int)l->staticKind, (void *)l->trait.get(), l->id); };
  for (auto &u : w.unk) add(u.link.get());
  for (auto &g : w.gen) add(g.get());
  for (auto &l : w.links) add(l.get());
  return r;
}
std::string diff(World &w, const Snap &a, const Snap &b) {
  for (size_t i = 0; i < a.size(); i++)
    if (a[i] != b[i]) {
      auto &[k, t, l, s, tr, id] = a[i];
      auto &[k2, t2, l2, s2, tr2, id2] = b[i];
      return "unknown " + std::to_string(id) + ": " + (k != k2 ? "kind " : t != t2 ? "target " : l != l2 ? "level " : s != s2 ? "literal kind " : tr != tr2 ? "trait " : "id ") + "differs";
    }
  return "";
}

void mkWorld(World &w, Src &s, int maxUnk) {
  w.lits = s.chance(1, 2);
  w.hasFn = s.chance(1, 4);
  w.hasGen = s.chance(1, 4);
  int n = (int)s.range(2, maxUnk) + (w.hasFn ? 2 : 0);
  for (int i = 0; i < n; i++) {
    int kind = s.chance(1, 4) ? (w.lits ? 1 + (int)s.below(3) : 1) : 0;
    int level = (int)s.below(4);
    auto l = std::make_shared<LinkType>(cache(), LinkType::Unbound, i, level, nullptr, (LiteralKind)kind);
    w.unk.push_back({l, level, kind});
  }
  if (w.hasGen)
    for (int i = 0; i < 2; i++) w.gen.push_back(std::make_shared<LinkType>(cache(), LinkType::Generic, 1000 + i, 0));
  if (w.hasFn)
    for (auto *n : {"fa", "fb", "fc"}) {
      std::vector<Param> ps{Param("x"), Param("y")};
      if (*(n + 1) != 'c') ps.pop_back();
      w.fns.push_back(cache()->N<FunctionStmt>(n, nullptr, ps, nullptr));
    }
}

void mgu(Src &src, Out &out) {
  World w;
  mkWorld(w, src, 7);
  // equations, solved one after the other; the last ones may be undone again
  struct Step { P a, b; Type::Unification u; Snap before; Model m; };
  std::vector<std::unique_ptr<Step>> done;
  std::vector<TypePtr> keep;
  Model m;
  int steps = (int)src.range(1, 6), ok = 0, bad = 0, undone = 0;
  std::string text;
  for (int st = 0; st < steps; st++) {
    if (!done.empty() && src.chance(1, 6)) {
      auto s = std::move(done.back());
      done.pop_back();
      s->u.undo();
      m = s->m;
      undone++;
      text += "undo; ";
      auto d = diff(w, s->before, snap(w));
      if (!d.empty() && !(w.links.size() && s->before.size() != snap(w).size() && d.empty())) {
        out.note(text);
        return out.violation("undo: after undoing a unification of " + show(s->a) + " and " + show(s->b) + ", " + d);
      }
      continue;
    }
    auto a = term(w, src, 3, true), b = term(w, src, 3, true);
    if (src.chance(1, 3)) { // two instances of one pattern, to get deep agreement
      auto c = term(w, src, 3, true);
      std::function<P(const P &)> vary = [&](const P &t) -> P {
        if (src.chance(1, 5) && !t->kind && t->k != Term::Lit) return anyVar(w, src);
        auto r = std::make_shared<Term>(*t);
        for (auto &x : r->args) x = vary(x);
        bool was = w.inHidden;
        w.inHidden |= r->k == Term::Fn;
        for (auto &x : r->hidden) x = vary(x);
        w.inHidden = was;
        if (r->parent && r->hidden[0]->k == Term::Var) r->hidden[0] = t->hidden[0];
        if (r->k == Term::Cls && r->name == "Int") r->args = t->args;
        return r;
      };
      a = vary(c), b = vary(c);
    }
    auto s = std::make_unique<Step>();
    s->a = a, s->b = b, s->m = m;
    text += show(a) + " = " + show(b);
    auto ra = build(w, src, a), rb = build(w, src, b);
    keep.push_back(ra), keep.push_back(rb);
    Model m2 = m;
    bool want = m2.unify(a, b);
    auto before = snap(w);
    auto nameA = ra->debugString(2), nameB = rb->debugString(2);
    // a trial, both ways
    int t1 = ra->unify(rb.get(), nullptr), t2 = rb->unify(ra.get(), nullptr);
    auto d = diff(w, before, snap(w));
    if (d.empty() && (nameA != ra->debugString(2) || nameB != rb->debugString(2))) d = "the types print differently";
    if (!d.empty()) { out.note(text); return out.violation("trial: a trial unification changed its types: " + d); }
    std::vector<int> vs;
    vars(m.apply(a), vs), vars(m.apply(b), vs);
    bool linear = std::set<int>(vs.begin(), vs.end()).size() == vs.size() && !w.hasGen;
    if (want && (t1 == -1 || t2 == -1)) { out.note(text); return out.violation("trial-fails: the types unify, but a trial " + std::string(t1 == -1 ? "" : "the other way round ") + "says they do not"); }
    if (!want && linear && (t1 != -1 || t2 != -1)) { out.note(text); return out.violation("trial-succeeds: the types do not unify and share no unknown, but a trial says they do"); }
    // the other order, undone
    {
      Type::Unification u;
      int r = rb->unify(ra.get(), &u);
      if ((r != -1) != want) { out.note(text); return out.violation("outcome: the second type " + std::string(want ? "does not unify" : "unifies") + " with the first, and should" + (want ? "" : " not")); }
      u.undo();
      d = diff(w, before, snap(w));
      if (d.empty() && (nameA != ra->debugString(2) || nameB != rb->debugString(2))) d = "the types print differently";
      if (!d.empty()) { out.note(text); return out.violation(std::string(want ? "undo" : "undo-failed") + ": after undoing, " + d); }
    }
    s->before = before;
    int r = ra->unify(rb.get(), &s->u);
    if ((r != -1) != want) { out.note(text); return out.violation("outcome: the first type " + std::string(want ? "does not unify" : "unifies") + " with the second, and should" + (want ? "" : " not")); }
    if (!want) {
      bad++;
      text += " fails; ";
      s->u.undo();
      d = diff(w, before, snap(w));
      if (!d.empty()) { out.note(text); return out.violation("undo-failed: after undoing a failed unification, " + d); }
      continue;
    }
    ok++;
    text += " holds; ";
    m = m2;
    // what every unknown is now
    std::map<int, int> ma, mb;
    std::map<int, int> lvl;
    for (size_t i = 0; i < w.unk.size(); i++) {
      auto real = read(w.unk[i].link.get());
      if (!real) { out.note(text); return out.violation("cycle: unknown " + std::to_string(i) + " contains itself"); }
      auto exp = m.apply(var(w, (int)i));
      if (!alpha(exp, real, ma, mb)) {
        out.note(text);
        return out.violation("solution: unknown " + std::to_string(i) + " is " + show(real) + " and should be " + show(exp));
      }
      std::vector<int> in;
      vars(real, in);
      for (int v : in) lvl[v] = lvl.count(v) ? std::min(lvl[v], w.unk[i].level) : w.unk[i].level;
    }
    if (!w.hasFn)
      for (auto &[v, l] : lvl)
        if (w.unk[v].link->level != l) {
          out.note(text);
          return out.violation("level: unknown " + std::to_string(v) + " is at level " + std::to_string(w.unk[v].link->level) + " and is part of unknowns of level " + std::to_string(l));
        }
    auto fa = read(ra.get()), fb = read(rb.get());
    std::map<int, int> i1, i2;
    if (!fa || !fb || show(fa) != show(fb)) { out.note(text); return out.violation("unequal: after unification the types are " + (fa ? show(fa) : "cyclic") + " and " + (fb ? show(fb) : "cyclic")); }
    // nothing else to be known: asking again changes nothing
    auto now = snap(w);
    Type::Unification u2;
    if (ra->unify(rb.get(), &u2) == -1 || !u2.linked.empty()) { out.note(text); return out.violation("again: unified types do not unify without a change"); }
    u2.undo();
    d = diff(w, now, snap(w));
    if (!d.empty()) { out.note(text); return out.violation("again: undoing a unification of equal types changed " + d); }
    // queries agree with the structure
    for (auto &[rt, ft] : {std::pair{ra, fa}, std::pair{rb, fb}}) {
      if (ft->k == Term::Fn || hasKind(ft, Term::Fn)) continue;
      std::vector<int> in;
      vars(ft, in);
      bool g = hasKind(ft, Term::Gen);
      std::set<int> got, exp(in.begin(), in.end());
      for (auto *x : rt->getUnbounds(false)) got.insert(x->getLink()->id);
      if (rt->hasUnbounds(false) != !in.empty() || rt->hasUnbounds(true) != (!in.empty() || g) || got != exp) { out.note(text); return out.violation("unknowns: the unknowns reported in " + show(ft) + " are not those in it"); }
      if (rt->canRealize() != (in.empty() && !g) || rt->isInstantiated() != (in.empty() && !g)) { out.note(text); return out.violation("complete: " + show(ft) + " is " + (rt->canRealize() ? "" : "not ") + "reported complete"); }
    }
    // a copy has no memory of what a type was before
    for (auto &k : keep) {
      if (!k->canRealize() || hasKind(read(k.get()), Term::Fn)) continue;
      auto copy = k->generalize(0);
      if (copy->realizedName() != k->realizedName()) { out.note(text); return out.violation("name: " + show(read(k.get())) + " is called " + k->realizedName() + " and a copy of it " + copy->realizedName()); }
    }
    done.push_back(std::move(s));
  }
  out.note(text);
  out.nontrivial = ok + bad >= 1 && m.sub.size() >= 1;
}

/// generalisation and instantiation
void generic(Src &src, Out &out) {
  World w;
  mkWorld(w, src, 6);
  w.hasGen = false;
  Model m;
  std::vector<TypePtr> keep;
  for (int n = (int)src.below(3); n > 0; n--) {
    auto a = term(w, src, 2), b = term(w, src, 2);
    auto ra = build(w, src, a), rb = build(w, src, b);
    keep.push_back(ra), keep.push_back(rb);
    Type::Unification u;
    if (ra->unify(rb.get(), &u) == -1) u.undo();
  }
  auto t = term(w, src, 3, true);
  auto r = build(w, src, t);
  keep.push_back(r);
  auto rt = read(r.get());
  if (!rt) { out.discard = true; return; }
  int at = (int)src.below(4);
  std::string before = r->debugString(2);
  auto s0 = snap(w);
  auto g = r->generalize(at);
  out.note(show(rt) + " from level " + std::to_string(at) + " is " + g->debugString(2));
  auto d = diff(w, s0, snap(w));
  if (!d.empty() || r->debugString(2) != before) return out.violation("generalize-changes: generalising changed the type: " + d);
  // expected: unknowns at or above the level become generics, all others are the very same objects
  // (a literal where no literal was declared becomes its type)
  std::function<std::string(P, Type *, int)> same = [&](P e, Type *got, int staticKind) -> std::string {
    got = got->follow();
    if (e->k == Term::Lit && !staticKind) e = e->kind == 1 ? cls("Int", {lit(1, "64")}) : cls(KINDS[e->kind]);
    if (e->k == Term::Var) {
      auto *l = got->getLink();
      auto *own = w.unk[e->id].link.get();
      if (!l) return "unknown " + std::to_string(e->id) + " became a class";
      if (own->level >= at) {
        if (l->kind != LinkType::Generic || l->id != e->id) return "unknown " + std::to_string(e->id) + " of level " + std::to_string(own->level) + " is not generic";
        if (l->staticKind != own->staticKind) return "generic " + std::to_string(e->id) + " lost its literal kind";
      } else if (l != own) return "unknown " + std::to_string(e->id) + " of level " + std::to_string(own->level) + " was replaced";
      return "";
    }
    auto f = read(got);
    if (!f || f->k != e->k || f->name != e->name || f->args.size() != e->args.size() || f->hidden.size() != e->hidden.size() || f->parent != e->parent) return show(e) + " became " + (f ? show(f) : "cyclic");
    if (e->k == Term::Lit) return "";
    if (auto *c = got->getClass(); c && !got->getFunc() && c->name != "int" && c->name != "str" && c->name != "bool" && c->isTuple != (c->name == "Tuple")) return "class " + c->name + " changed whether it is a tuple";
    auto kid = [&](const std::vector<P> &es, auto getter) -> std::string {
      for (size_t i = 0; i < es.size(); i++) {
        auto x = same(es[i], getter(i).first, getter(i).second);
        if (!x.empty()) return x;
      }
      return "";
    };
    std::string x;
    if (auto *fn = got->getFunc()) {
      x = kid(e->args, [&](size_t i) { auto &q = i ? fn->generics[0].type->getClass()->generics[i - 1] : fn->generics[1]; return std::pair(q.getType(), (int)q.staticKind); });
      if (x.empty()) x = kid(e->hidden, [&](size_t i) { return fn->funcParent ? std::pair((Type *)fn->funcParent.get(), 1) : std::pair(fn->funcGenerics[i].getType(), (int)fn->funcGenerics[i].staticKind); });
    } else if (got->getClass()->name == "int") {
    } else {
      auto *c = got->getClass();
      x = kid(e->args, [&](size_t i) { return std::pair(c->generics[i].getType(), (int)c->generics[i].staticKind); });
      if (x.empty()) x = kid(e->hidden, [&](size_t i) { return std::pair(c->hiddenGenerics[i].getType(), (int)c->hiddenGenerics[i].staticKind); });
    }
    return x;
  };
  auto x = same(rt, g.get(), 1);
  if (!x.empty()) return out.violation("generalize: " + x);
  // instances
  {
    std::function<void(const P &)> un = [&](const P &t) {
      if (t->k == Term::Gen) t->k = Term::Var, t->kind = w.unk[t->id].link->staticKind;
      for (auto &a : t->args) un(a);
      for (auto &a : t->hidden) un(a);
    };
    rt = read(g.get());
    un(rt);
  }
  std::vector<int> in;
  vars(rt, in);
  std::set<int> gens;
  for (int v : in) if (w.unk[v].link->level >= at) gens.insert(v);
  int count = 100, lv = (int)src.below(4);
  std::string gtext = g->debugString(2);
  std::vector<TypePtr> insts;
  std::vector<std::map<int, int>> maps;
  for (int k = 0; k < 2; k++) {
    std::unordered_map<int, TypePtr> c;
    int c0 = count;
    auto i = g->instantiate(lv, &count, &c);
    insts.push_back(i);
    if (g->debugString(2) != gtext) return out.violation("instantiate-changes: making an instance changed the generic type");
    auto ri = read(i.get());
    if (!ri) return out.violation("instantiate: the instance contains itself");
    if (count - c0 != (int)gens.size() || c.size() != gens.size()) return out.violation("instantiate: " + std::to_string(count - c0) + " fresh unknowns for " + std::to_string(gens.size()) + " generics");
    std::map<int, int> ma, mb;
    if (!alpha(rt, ri, ma, mb)) return out.violation("instantiate: the instance " + show(ri) + " of " + gtext + " is not the type with its unknowns renamed");
    for (auto &[o, n] : ma) {
      bool fresh = gens.count(o);
      if (fresh ? n < c0 || n >= count : n != o) return out.violation("instantiate: unknown " + std::to_string(o) + " became " + std::to_string(n) + (fresh ? " which is not fresh" : " though it is not generic"));
    }
    for (auto *u : i->getUnbounds(true)) {
      auto *l = u->getLink();
      if (l->kind == LinkType::Generic) return out.violation("instantiate: a generic remained");
      if (l->id >= c0 && l->level != lv) return out.violation("instantiate: a fresh unknown has level " + std::to_string(l->level));
      if (l->id < 100 && l != w.unk[l->id].link.get()) return out.violation("instantiate: an unknown that is not generic was copied");
    }
    maps.push_back(ma);
  }
  // the instances share nothing generic with each other or the original: bind all that is fresh in the first
  std::string two = insts[1]->debugString(2), one = insts[0]->debugString(2);
  int bound = 0;
  Type::Unification u;
  for (auto *l : insts[0]->getUnbounds(true))
    if (l->getLink()->id >= 100 && l->getLink()->kind == LinkType::Unbound) {
      TypePtr v;
      switch ((int)l->getLink()->staticKind) {
      case 1: v = std::make_shared<IntStaticType>(cache(), 7); break;
      case 2: v = std::make_shared<StrStaticType>(cache(), "z"); break;
      case 3: v = std::make_shared<BoolStaticType>(cache(), true); break;
      default: v = std::make_shared<ClassType>(cache(), "Zed");
      }
      keep.push_back(v);
      if (l->unify(v.get(), &u) == -1) return out.violation("instance: a fresh unknown cannot be bound");
      bound++;
    }
  if (g->debugString(2) != gtext) return out.violation("shared: binding an instance's unknowns changed the generic type");
  if (insts[1]->debugString(2) != two) return out.violation("shared: binding an instance's unknowns changed another instance");
  if (r->debugString(2) != before) return out.violation("shared: binding an instance's unknowns changed the original type");
  u.undo();
  if (insts[0]->debugString(2) != one) return out.violation("undo: undoing did not give the instance back");
  out.nontrivial = !gens.empty();
}

// ---- the types of the standard library
std::vector<TypePtr> lib; // generic types of classes and functions
void links(Type *t, std::map<Type *, std::tuple<int, Type *, int, int, void *>> &out, std::set<Type *> &seen) {
  if (!t || !seen.insert(t).second) return;
  if (auto *l = t->getLink()) {
    out[t] = {(int)l->kind, l->type.get(), l->level, (int)l->staticKind, l->trait.get()};
    links(l->type.get(), out, seen);
    if (auto *tt = dynamic_cast<TypeTrait *>(l->trait.get())) links(tt->type.get(), out, seen);
    if (auto *ct = dynamic_cast<CallableTrait *>(l->trait.get())) for (auto &a : ct->args) links(a.get(), out, seen);
    return;
  }
  if (auto *c = t->getClass()) {
    for (auto &g : c->generics) links(g.type.get(), out, seen);
    for (auto &g : c->hiddenGenerics) links(g.type.get(), out, seen);
  }
  if (auto *f = t->getFunc()) {
    for (auto &g : f->funcGenerics) links(g.type.get(), out, seen);
    links(f->funcParent.get(), out, seen);
  }
  if (auto *u = t->getUnion()) for (auto &p : u->pendingTypes) links(p.get(), out, seen);
}
TypePtr fresh(const TypePtr &g, int level) {
  std::unordered_map<int, TypePtr> m;
  return g->instantiate(level, &cache()->unboundCount, &m);
}
/// an instance of a library type with some of its unknowns bound
TypePtr libType(Src &s, int depth, Type::Unification &u, std::vector<TypePtr> &keep) {
  auto &g = lib[s.below(lib.size())];
  auto t = fresh(g, (int)s.below(3));
  keep.push_back(t);
  if (depth > 0)
    for (auto *x : t->getUnbounds(false)) {
      if (x->getLink()->kind != LinkType::Unbound || x->getLink()->trait || s.chance(1, 3)) continue;
      TypePtr v;
      switch ((int)x->getLink()->staticKind) {
      case 1: v = std::make_shared<IntStaticType>(cache(), s.below(std::max<size_t>(1, cache()->generatedTupleNames.size()))); break;
      case 2: v = std::make_shared<StrStaticType>(cache(), "s"); break;
      case 3: v = std::make_shared<BoolStaticType>(cache(), true); break;
      default: v = libType(s, depth - 1, u, keep);
      }
      keep.push_back(v);
      Type::Unification w;
      if (x->unify(v.get(), &w) == -1) w.undo();
    }
  return t;
}
void library(Src &src, Out &out) {
  std::vector<TypePtr> keep;
  Type::Unification u0;
  auto a = libType(src, 2, u0, keep), b = src.chance(1, 2) ? libType(src, 2, u0, keep) : nullptr;
  if (!b) { // another instance of the same generic type
    for (auto &g : lib)
      if ((g->getFunc() ? g->getFunc()->ast == (a->getFunc() ? a->getFunc()->ast : nullptr) : !a->getFunc() && g->getClass()->name == a->getClass()->name)) {
        b = fresh(g, 1);
        keep.push_back(b);
        for (auto *x : b->getUnbounds(false))
          if (x->getLink()->kind == LinkType::Unbound && !x->getLink()->trait && !x->getLink()->staticKind && src.chance(1, 3)) {
            auto v = libType(src, 1, u0, keep);
            Type::Unification w;
            if (x->unify(v.get(), &w) == -1) w.undo();
          }
        break;
      }
    if (!b) { out.discard = true; return; }
  }
  if (src.flip()) std::swap(a, b);
  out.note(a->debugString(2) + " = " + b->debugString(2));
  std::map<Type *, std::tuple<int, Type *, int, int, void *>> before, after;
  auto take = [&](auto &m) { std::set<Type *> seen; m.clear(); links(a.get(), m, seen), links(b.get(), m, seen); };
  take(before);
  std::string sa = a->debugString(2), sb = b->debugString(2);
  auto check = [&](const char *what) {
    take(after);
    for (auto &[t, v] : before)
      if (!after.count(t) || after[t] != v) { out.violation(std::string(what) + ": a link of the types differs"); return false; }
    if (after.size() != before.size() || sa != a->debugString(2) || sb != b->debugString(2)) { out.violation(std::string(what) + ": the types differ"); return false; }
    return true;
  };
  int t1 = a->unify(b.get(), nullptr);
  if (!check("trial")) return;
  Type::Unification u1, u2;
  int r1 = a->unify(b.get(), &u1);
  size_t n1 = u1.linked.size();
  if (r1 != -1) {
    // the same types ask for nothing more
    Type::Unification u3;
    if (a->unify(b.get(), &u3) == -1) return out.violation("again: unified types do not unify");
    u3.undo();
  }
  u1.undo();
  if (!check(r1 == -1 ? "undo-failed" : "undo")) return;
  int r2 = b->unify(a.get(), &u2);
  u2.undo();
  if (!check(r2 == -1 ? "undo-failed" : "undo")) return;
  if ((r1 == -1) != (r2 == -1)) return out.violation(std::string("order: the types unify in only one order, ") + (r1 == -1 ? "the second with the first" : "the first with the second"));
  if (r1 != -1 && t1 == -1) return out.violation("trial-fails: the types unify, but a trial says they do not");
  out.nontrivial = n1 > 0;
}

bool setup() {
  if (!vir::stdlibSetup()) return false;
  for (auto *n : {"F0", "x", "y", "fa", "fb", "fc"}) cache()->reverseIdentifierLookup[n] = n;
  if (lib.empty()) {
    std::map<std::string, TypePtr> names; // in a fixed order
    for (auto &[n, c] : cache()->classes)
      if (auto *t = cache()->findClass(n)) names["c " + n] = t->shared_from_this();
    for (auto &[n, f] : cache()->functions)
      if (f.type) names["f " + n] = f.type->shared_from_this();
    for (auto &[n, t] : names) {
      auto text = t->debugString(2);
      // written only by the compiler, always with a tuple inside; and unions need a surrounding check
      if (text.find("NTuple") != std::string::npos) continue;
      if (n[0] == 'c')
        for (int i = 0; i < 8; i++) lib.push_back(t); // there are more functions
      else lib.push_back(t);
    }
  }
  return true;
}
struct Reg {
  Reg() {
    pbt::subs().push_back({"C17", "mgu", "at least one unknown was bound", mgu, 6, 400, 10, [] { setup(); }});
    pbt::subs().push_back({"C17", "library", "unifying bound at least one unknown", library, 3, 200, 10, [] { setup(); }});
    pbt::subs().push_back({"C17", "generic", "the type had at least one generic unknown", generic, 3, 400, 10, [] { setup(); }});
  }
} reg;
} // namespace
