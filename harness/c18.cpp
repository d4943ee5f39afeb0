// C18: syntax trees: copying, visiting, replacing, printing and literals, over random trees of every node kind.
#include "core.h"
#include "ir.h"
#include "codon/compiler/compiler.h"
#include "codon/parser/ast.h"
#include "codon/parser/cache.h"
#include "codon/parser/common.h"
#include "codon/parser/visitors/visitor.h"
#include <cmath>
#include <map>
#include <set>

using namespace codon::ast;
using codon::SrcInfo;
using pbt::Out;
using pbt::Src;
namespace ir = codon::ir;

namespace {
#define EXPRS(X)                                                                                                       \
  X(NoneExpr) X(BoolExpr) X(IntExpr) X(FloatExpr) X(StringExpr) X(IdExpr) X(StarExpr) X(KeywordStarExpr) X(TupleExpr)  \
  X(ListExpr) X(SetExpr) X(DictExpr) X(GeneratorExpr) X(IfExpr) X(UnaryExpr) X(BinaryExpr) X(ChainBinaryExpr)          \
  X(PipeExpr) X(IndexExpr) X(CallExpr) X(DotExpr) X(SliceExpr) X(EllipsisExpr) X(LambdaExpr) X(YieldExpr) X(AwaitExpr) \
  X(AssignExpr) X(RangeExpr) X(StmtExpr) X(InstantiateExpr)
#define STMTS(X)                                                                                                       \
  X(SuiteStmt) X(BreakStmt) X(ContinueStmt) X(ExprStmt) X(AssignStmt) X(DelStmt) X(PrintStmt) X(ReturnStmt)            \
  X(YieldStmt) X(AssertStmt) X(WhileStmt) X(ForStmt) X(IfStmt) X(MatchStmt) X(ImportStmt) X(ExceptStmt) X(TryStmt)     \
  X(ThrowStmt) X(GlobalStmt) X(FunctionStmt) X(ClassStmt) X(YieldFromStmt) X(WithStmt) X(CustomStmt) X(DirectiveStmt)  \
  X(AssignMemberStmt) X(CommentStmt)

enum Kind {
#define X(T) K_##T,
  EXPRS(X) STMTS(X)
#undef X
      K_N
};
const char *kindName[] = {
#define X(T) #T,
    EXPRS(X) STMTS(X)
#undef X
};

codon::Compiler *comp = nullptr;
void setup() {
  if (!comp) comp = new codon::Compiler("codon", codon::Compiler::Mode::DEBUG, {}, false, true);
}
Cache *cache() { return comp->getCache(); }

/// what a node is, found through its dispatch (accept)
struct KindVisitor : public ASTVisitor {
  int k = -1, n = 0;
#define X(T)                                                                                                           \
  void visit(T *) override { k = K_##T, ++n; }
  EXPRS(X) STMTS(X)
#undef X
};
int kindOf(ASTNode *n) {
  // independent of accept(): the run-time class
  const void *id = n->dynamicNodeId();
#define X(T)                                                                                                           \
  if (id == &T::NodeId) return K_##T;
  EXPRS(X) STMTS(X)
#undef X
  return -1;
}

// ---- generic traversal of a node's stored fields
struct Fields {
  std::function<void(Expr **)> expr = [](Expr **) {};
  std::function<void(Stmt **, bool isSuite)> stmt = [](Stmt **, bool) {};
  std::function<void(std::string *)> str = [](std::string *) {};
  std::function<void(const std::string &)> other = [](const std::string &) {}; // scalars, as text
  std::function<void(codon::SrcObject *)> loc = [](codon::SrcObject *) {};     // part with its own location
};
template <class T> void fld(Fields &f, T &x);
template <class T> void fldv(Fields &f, std::vector<T> &v) {
  f.other("n" + std::to_string(v.size()));
  for (auto &x : v) fld(f, x);
}
template <class T> void fld(Fields &f, T &x) {
  if constexpr (std::is_same_v<T, Expr *>) f.expr(&x);
  else if constexpr (std::is_same_v<T, Stmt *>) f.stmt(&x, false);
  else if constexpr (std::is_same_v<T, SuiteStmt *>) f.stmt(reinterpret_cast<Stmt **>(&x), true);
  else if constexpr (std::is_same_v<T, ExceptStmt *>) f.stmt(reinterpret_cast<Stmt **>(&x), false);
  else if constexpr (std::is_same_v<T, std::string>) f.str(&x);
  else if constexpr (std::is_same_v<T, Param>) {
    f.loc(&x);
    fld(f, x.name), fld(f, x.type), fld(f, x.defaultValue);
    f.other("s" + std::to_string((int)x.status));
  } else if constexpr (std::is_same_v<T, CallArg>) f.loc(&x), fld(f, x.name), fld(f, x.value);
  else if constexpr (std::is_same_v<T, Pipe>) fld(f, x.op), fld(f, x.expr);
  else if constexpr (std::is_same_v<T, std::pair<std::string, Expr *>>) fld(f, x.first), fld(f, x.second);
  else if constexpr (std::is_same_v<T, StringExpr::String>) {
    f.loc(&x);
    fld(f, x.value), fld(f, x.prefix), fld(f, x.expr);
    fld(f, x.format.text), fld(f, x.format.conversion), fld(f, x.format.spec);
  } else if constexpr (std::is_same_v<T, MatchCase>) {
    // private fields: reached through the getters, rebuilt below where they must change
    Expr *p = x.getPattern(), *g = x.getGuard();
    Stmt *s = x.getSuite();
    Expr *p0 = p, *g0 = g;
    Stmt *s0 = s;
    f.expr(&p), f.expr(&g), f.stmt(&s, true);
    if (p != p0 || g != g0 || s != s0) x = MatchCase(p, g, s);
  } else if constexpr (std::is_same_v<T, std::optional<int64_t>> || std::is_same_v<T, std::optional<double>>) {
    f.other(x ? fmt::format("{}", *x) : "none");
  } else if constexpr (std::is_enum_v<T>) f.other(std::to_string((int)x));
  else if constexpr (std::is_arithmetic_v<T>) f.other(fmt::format("{}", x));
  else fldv(f, x); // vectors
}
template <class T> void fields(T *n, Fields &f) {
  std::apply([&](auto &...m) { (fld(f, const_cast<std::remove_const_t<std::remove_reference_t<decltype(m)>> &>(m)), ...); }, n->match_members());
  if constexpr (std::is_same_v<T, BinaryExpr>) f.other(n->isInPlace() ? "ip" : "-");
  if constexpr (std::is_same_v<T, WithStmt>) f.other(n->isAsync() ? "async" : "-");
}
void visitFields(ASTNode *n, Fields &f) {
  switch (kindOf(n)) {
#define X(T)                                                                                                           \
  case K_##T: fields(static_cast<T *>(n), f); break;
    EXPRS(X) STMTS(X)
#undef X
  default: break;
  }
}
std::vector<ASTNode *> children(ASTNode *n) {
  std::vector<ASTNode *> r;
  Fields f;
  f.expr = [&](Expr **e) { if (*e) r.push_back(*e); };
  f.stmt = [&](Stmt **s, bool) { if (*s) r.push_back(*s); };
  visitFields(n, f);
  return r;
}
void collect(ASTNode *n, std::vector<ASTNode *> &v) {
  v.push_back(n);
  for (auto *c : children(n)) collect(c, v);
}
bool isExpr(ASTNode *n) { return kindOf(n) < K_SuiteStmt; }

std::string attrText(const ir::Attribute *a) {
  std::string s = typeid(*a).name();
  if (auto *x = dynamic_cast<const ir::StringValueAttribute *>(a)) s += "=" + x->value;
  if (auto *x = dynamic_cast<const ir::IntValueAttribute *>(a)) s += "=" + std::to_string(x->value);
  if (auto *x = dynamic_cast<const ir::StringListAttribute *>(a))
    for (auto &v : x->values) s += "," + v;
  if (auto *x = dynamic_cast<const ir::SrcInfoAttribute *>(a)) s += fmt::format("={}:{}:{}", x->info.file, x->info.line, x->info.col);
  if (auto *x = dynamic_cast<const ir::KeyValueAttribute *>(a)) {
    std::map<std::string, std::string> m(x->attributes.begin(), x->attributes.end());
    for (auto &[k, v] : m) s += "," + k + ":" + v;
  }
  return s;
}
std::string locText(const SrcInfo &i) { return fmt::format("{}:{}:{}:{}", i.file, i.line, i.col, i.len); }
/// everything the tree says, independent of its printer
void dump(ASTNode *n, std::string &o, bool clean) {
  if (!n) {
    o += "null;";
    return;
  }
  int k = kindOf(n);
  o += std::string("(") + (k < 0 ? "?" : kindName[k]) + " @" + locText(n->getSrcInfo());
  if (n->getName().size()) o += " name=" + n->getName();
  std::map<int, std::string> at;
  for (auto it = n->attributes_begin(); it != n->attributes_end(); ++it) at[*it] = attrText(n->getAttribute(*it));
  for (auto &[k, v] : at) o += " #" + std::to_string(k) + v;
  if (isExpr(n)) {
    auto *e = static_cast<Expr *>(n);
    if (!clean) o += fmt::format(" t{} d{}", (void *)e->getType(), e->isDone());
    o += fmt::format(" o{}", (void *)e->getOrigExpr());
  } else if (!clean) o += static_cast<Stmt *>(n)->isDone() ? " d1" : " d0";
  Fields f;
  f.expr = [&](Expr **e) { dump(*e, o, clean); };
  f.stmt = [&](Stmt **s, bool) { dump(*s, o, clean); };
  f.str = [&](std::string *s) { o += " \"" + *s + "\""; };
  f.other = [&](const std::string &s) { o += " " + s; };
  f.loc = [&](codon::SrcObject *l) { o += " @" + locText(l->getSrcInfo()); };
  visitFields(n, f);
  if (!clean && k == K_FunctionStmt) o += " sig " + static_cast<FunctionStmt *>(n)->getSignature();
  o += ")";
}
std::string dump(ASTNode *n, bool clean = false) {
  std::string s;
  dump(n, s, clean);
  return s;
}

// ---- generator
struct Gen {
  Src &s;
  int budget;
  std::set<int> kinds;
  int line = 1;
  std::vector<types::TypePtr> pool;
  std::vector<Expr *> all;

  explicit Gen(Src &s) : s(s), budget((int)s.range(2, 45)) {
    for (auto n : {"int", "str", "Foo.0"}) pool.push_back(std::make_shared<types::ClassType>(cache(), n));
    auto t = std::make_shared<types::ClassType>(cache(), "List");
    t->generics.emplace_back("T", pool[0], 1, types::LiteralKind::Runtime);
    pool.push_back(t);
    pool.push_back(std::make_shared<types::LinkType>(cache(), types::LinkType::Unbound, 5, 1));
  }
  std::string name() {
    static const char *b[] = {"a", "b", "x", "foo", "T", "_t", "self", "int"};
    std::string n = b[s.below(8)];
    if (s.chance(1, 3)) n += std::to_string(s.below(30));
    return n;
  }
  std::string text() {
    std::string r;
    for (int n = (int)s.below(6); n > 0; n--) {
      if (s.chance(1, 3)) r += (char)s.below(256);
      else r += "ab'\"\\{}\n0f "[s.below(12)];
    }
    return r;
  }
  std::string op() { return s.pick<std::string>({"+", "-", "*", "==", "<", "&&", "in", "is", "//", "**", "not in", "@"}); }
  SrcInfo loc() { return SrcInfo(s.pick<std::string>({"f.codon", "g.py"}), (int)s.range(1, 99), (int)s.range(1, 99), (int)s.range(0, 9)); }
  template <class T, class... A> T *mk(A &&...a) {
    T *n = cache()->N<T>(std::forward<A>(a)...);
    kinds.insert(kindOf(n));
    decorate(n);
    return n;
  }
  void decorate(ASTNode *n) {
    if (s.chance(7, 8)) n->setSrcInfo(loc());
    if (s.chance(1, 5)) {
      int key = Attr::Module + (int)s.below(20);
      switch (s.below(5)) {
      case 0: n->setAttribute(key); break;
      case 1: n->setAttribute(key, text()); break;
      case 2: n->setAttribute(key, (int64_t)s.below(100)); break;
      case 3: {
        auto a = std::make_unique<ir::KeyValueAttribute>();
        for (int i = (int)s.below(4); i > 0; i--) a->attributes[name()] = text();
        n->setAttribute(Attr::FunctionAttributes, std::move(a));
        break;
      }
      default: {
        auto a = std::make_unique<ir::StringListAttribute>();
        for (int i = (int)s.below(4); i > 0; i--) a->values.push_back(text());
        n->setAttribute(key, std::move(a));
      }
      }
    }
    if (isExpr(n)) {
      auto *e = static_cast<Expr *>(n);
      if (s.chance(1, 4)) e->setType(pool[s.below(pool.size())]);
      if (s.chance(1, 6)) e->setDone();
      if (s.chance(1, 8) && all.size()) e->setOrigExpr(all[s.below(all.size())]);
      all.push_back(e);
    } else if (s.chance(1, 6)) static_cast<Stmt *>(n)->setDone();
  }
  Expr *opt(int d) { return s.flip() ? expr(d) : nullptr; }
  std::vector<Expr *> exprs(int d, int mn = 0) {
    std::vector<Expr *> v;
    for (int n = mn + (int)s.below(4 - mn); n > 0; n--) v.push_back(expr(d));
    return v;
  }
  SuiteStmt *suite(int d) {
    std::vector<Stmt *> v;
    for (int n = (int)s.range(0, 3); n > 0; n--) v.push_back(v.size() && s.chance(1, 12) ? nullptr : stmt(d));
    return mk<SuiteStmt>(v);
  }
  /// a suite, or another statement (which gets wrapped), or nothing
  Stmt *body(int d, bool must) {
    if (!must && s.flip()) return nullptr;
    return s.chance(1, 5) ? stmt(d) : suite(d);
  }
  std::vector<Param> params(int d) {
    std::vector<Param> v;
    for (int n = (int)s.below(4); n > 0; n--) {
      auto nm = std::string(s.weighted({8, 1, 1}), '*') + name();
      Expr *t = opt(d), *df = opt(d);
      int st = (int)s.weighted({4, 1, 1});
      if (s.chance(1, 8)) t = mk<IdExpr>("type");
      v.push_back(s.flip() ? Param(loc(), nm, t, df, st) : Param(nm, t, df, st));
    }
    return v;
  }
  std::vector<CallArg> args(int d) {
    std::vector<CallArg> v;
    for (int n = (int)s.below(4); n > 0; n--) {
      std::string nm = s.chance(1, 3) ? name() : "";
      auto *e = s.chance(1, 6) ? (Expr *)mk<EllipsisExpr>(s.pick({EllipsisExpr::PARTIAL, EllipsisExpr::STANDALONE})) : expr(d);
      v.push_back(s.flip() ? CallArg(loc(), nm, e) : CallArg(nm, e));
    }
    return v;
  }
  Expr *leaf() {
    switch (s.below(8)) {
    case 0: return mk<IdExpr>(name());
    case 1: return s.flip() ? mk<IntExpr>(s.i64()) : mk<IntExpr>(std::to_string((uint64_t)s.i64()), s.flip() ? "u8" : "");
    case 2: return s.flip() ? mk<FloatExpr>((double)s.range(-9, 9) / 4) : mk<FloatExpr>("1_0." + std::to_string(s.below(99)), s.flip() ? "z" : "");
    case 3: return mk<NoneExpr>();
    case 4: return mk<BoolExpr>(s.flip());
    case 5: return mk<StringExpr>(text(), s.chance(1, 4) ? name() : "");
    case 6: return mk<EllipsisExpr>(s.pick({EllipsisExpr::PIPE, EllipsisExpr::PARTIAL, EllipsisExpr::STANDALONE}));
    default: return mk<YieldExpr>();
    }
  }
  Expr *expr(int d) {
    if (d <= 0 || --budget <= 0) return leaf();
    int k = (int)s.below(30);
    d--;
    switch (k) {
    case 0: case 1: case 2: return leaf();
    case 3: {
      std::vector<StringExpr::String> v;
      for (int n = (int)s.below(4); n > 0; n--) {
        StringExpr::String x(text(), s.chance(1, 3) ? name() : "", opt(d));
        if (s.flip()) x.setSrcInfo(loc());
        if (s.flip()) x.format = {text(), name(), text()};
        v.push_back(x);
      }
      return mk<StringExpr>(v);
    }
    case 4: return mk<StarExpr>(expr(d));
    case 5: return mk<KeywordStarExpr>(expr(d));
    case 6: return mk<TupleExpr>(exprs(d));
    case 7: return mk<ListExpr>(exprs(d));
    case 8: return mk<SetExpr>(exprs(d));
    case 9: {
      std::vector<Expr *> v;
      for (int n = (int)s.below(3); n > 0; n--) {
        auto *a = expr(d);
        v.push_back(mk<TupleExpr>(std::vector<Expr *>{a, expr(d)}));
      }
      return mk<DictExpr>(v);
    }
    case 10: case 11: {
      std::vector<Stmt *> loops;
      for (int n = (int)s.range(1, 3), i = 0; i < n; i++) {
        if (i && s.flip()) loops.push_back(mk<IfStmt>(expr(d)));
        else {
          auto *v = expr(d);
          loops.push_back(mk<ForStmt>(v, expr(d), nullptr));
        }
      }
      if (s.chance(1, 4)) {
        auto *a = expr(d);
        return mk<GeneratorExpr>(cache(), a, expr(d), loops);
      }
      return mk<GeneratorExpr>(cache(), s.pick({GeneratorExpr::Generator, GeneratorExpr::ListGenerator, GeneratorExpr::SetGenerator, GeneratorExpr::TupleGenerator}), expr(d), loops);
    }
    case 12: {
      auto *a = expr(d), *b = expr(d);
      return mk<IfExpr>(a, b, expr(d));
    }
    case 13: return mk<UnaryExpr>(op(), expr(d));
    case 14: {
      auto *a = expr(d);
      return mk<BinaryExpr>(a, op(), expr(d), s.chance(1, 3));
    }
    case 15: {
      std::vector<std::pair<std::string, Expr *>> v;
      for (int n = (int)s.range(1, 3); n > 0; n--) v.emplace_back(v.empty() ? "" : op(), expr(d));
      return mk<ChainBinaryExpr>(v);
    }
    case 16: {
      std::vector<Pipe> v;
      for (int n = (int)s.range(1, 3); n > 0; n--) v.push_back({s.pick<std::string>({"|>", "||>"}), s.flip() ? (Expr *)mk<CallExpr>(expr(d), args(d)) : expr(d)});
      return mk<PipeExpr>(v);
    }
    case 17: {
      auto *a = expr(d);
      return mk<IndexExpr>(a, expr(d));
    }
    case 18: case 19: {
      auto *f = expr(d);
      return s.flip() ? mk<CallExpr>(f, args(d)) : mk<CallExpr>(f, exprs(d));
    }
    case 20: return mk<DotExpr>(expr(d), name());
    case 21: {
      auto *a = opt(d), *b = opt(d);
      return mk<SliceExpr>(a, b, opt(d));
    }
    case 22: {
      auto p = params(d);
      return mk<LambdaExpr>(p, expr(d));
    }
    case 23: return mk<AwaitExpr>(expr(d));
    case 24: {
      auto *a = expr(d);
      return mk<AssignExpr>(a, expr(d));
    }
    case 25: {
      auto *a = expr(d);
      return mk<RangeExpr>(a, expr(d));
    }
    case 26: case 27: {
      std::vector<Stmt *> v;
      for (int n = (int)s.below(3); n > 0; n--) v.push_back(stmt(d));
      return mk<StmtExpr>(v, expr(d));
    }
    default: {
      auto *a = expr(d);
      return mk<InstantiateExpr>(a, exprs(d));
    }
    }
  }
  ExceptStmt *except(int d) {
    auto *e = opt(d);
    return mk<ExceptStmt>(s.flip() ? name() : "", e, body(d, true));
  }
  Stmt *stmt(int d) {
    if (d <= 0 || --budget <= 0) switch (s.below(6)) {
      case 0: return mk<BreakStmt>();
      case 1: return mk<ContinueStmt>();
      case 2: return mk<GlobalStmt>(name(), s.flip());
      case 3: return mk<DirectiveStmt>(name(), text());
      case 4: return mk<CommentStmt>(text());
      default: return mk<ExprStmt>(leaf());
      }
    d--;
    switch (s.below(26)) {
    case 0: return suite(d);
    case 1: return mk<ExprStmt>(expr(d));
    case 2: case 3: {
      auto *a = expr(d), *b = opt(d);
      return mk<AssignStmt>(a, b, opt(d), s.pick({AssignStmt::Assign, AssignStmt::Update, AssignStmt::UpdateAtomic, AssignStmt::ThreadLocalAssign}));
    }
    case 4: return mk<DelStmt>(expr(d));
    case 5: return mk<PrintStmt>(exprs(d), s.flip());
    case 6: return mk<ReturnStmt>(opt(d));
    case 7: return mk<YieldStmt>(opt(d));
    case 8: {
      auto *a = expr(d);
      return mk<AssertStmt>(a, opt(d));
    }
    case 9: {
      auto *c = expr(d);
      auto *b = body(d, true);
      auto *w = mk<WhileStmt>(c, b, body(d, false));
      if (s.chance(1, 3)) {
        auto &g = const_cast<std::string &>(std::get<3>(w->match_members()));
        g = name();
      }
      return w;
    }
    case 10: case 11: {
      auto *v = expr(d), *it = expr(d);
      auto *b = body(d, true), *e = body(d, false);
      auto *dec = opt(d);
      auto *f = mk<ForStmt>(v, it, b, e, dec, args(d), s.flip());
      auto m = f->match_members();
      if (s.chance(1, 4)) const_cast<bool &>(std::get<7>(m)) = true;
      if (s.chance(1, 4)) const_cast<bool &>(std::get<8>(m)) = true;
      return f;
    }
    case 12: {
      auto *c = expr(d);
      auto *b = body(d, true);
      return mk<IfStmt>(c, b, body(d, false));
    }
    case 13: case 14: {
      std::vector<MatchCase> v;
      for (int n = (int)s.below(3); n > 0; n--) {
        auto *p = expr(d), *g = opt(d);
        v.emplace_back(p, g, body(d, true));
      }
      return mk<MatchStmt>(expr(d), v);
    }
    case 15: {
      auto *f = opt(d), *w = opt(d);
      auto p = params(d);
      return mk<ImportStmt>(f, w, p, opt(d), s.flip() ? name() : "", s.below(3), s.flip());
    }
    case 16: case 17: {
      auto *b = body(d, true);
      std::vector<ExceptStmt *> v;
      for (int n = (int)s.below(3); n > 0; n--) v.push_back(except(d));
      auto *e = body(d, false);
      return mk<TryStmt>(b, v, e, body(d, false));
    }
    case 18: {
      auto *e = opt(d);
      return mk<ThrowStmt>(e, opt(d), s.flip());
    }
    case 19: case 20: {
      auto *r = opt(d);
      auto p = params(d);
      auto *b = body(d, false);
      return mk<FunctionStmt>(name(), r, p, b, exprs(d), s.flip());
    }
    case 21: {
      auto p = params(d);
      auto *b = body(d, false);
      auto dec = exprs(d), bases = exprs(d);
      if (s.chance(1, 3)) bases.push_back(mk<IndexExpr>(mk<IdExpr>("Static"), expr(d)));
      return mk<ClassStmt>(name(), p, b, dec, bases, exprs(d));
    }
    case 22: return mk<YieldFromStmt>(expr(d));
    case 23: {
      auto v = exprs(d, 1);
      std::vector<std::string> n;
      for (size_t i = 0; i < v.size(); i++) n.push_back(s.flip() ? name() : "");
      return mk<WithStmt>(v, n, body(d, true), s.flip());
    }
    case 24: {
      auto *e = opt(d);
      return mk<CustomStmt>(name(), e, body(d, false));
    }
    default: {
      auto *l = expr(d), *r = expr(d);
      return mk<AssignMemberStmt>(l, name(), r, opt(d));
    }
    }
  }
  ASTNode *tree() {
    int d = (int)s.range(1, 5);
    return s.flip() ? (ASTNode *)expr(d) : (ASTNode *)stmt(d);
  }
};
std::string prints(ASTNode *n) { return n->toString(-1) + "\x01" + n->toString(0) + "\x01" + n->toString(3); }
uint64_t keyOf(ASTNode *n) { return pbt::fnv(n->toString(0)); }
std::string cut(const std::string &s, size_t n = 700) { return s.size() <= n ? s : s.substr(0, n) + "..."; }
std::string diffAt(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t o = i > 60 ? i - 60 : 0;
  return "…" + a.substr(o, 160) + "… vs …" + b.substr(o, 160) + "…";
}

/// one change somewhere in the tree; true if something was changed
bool mutate(Src &s, Gen &g, ASTNode *root, std::string &what) {
  std::vector<ASTNode *> ns;
  collect(root, ns);
  auto *n = ns[s.below(ns.size())];
  what = kindName[kindOf(n)];
  switch (s.below(6)) {
  case 0: { // a text field
    std::vector<std::string *> v;
    Fields f;
    f.str = [&](std::string *x) { v.push_back(x); };
    visitFields(n, f);
    if (v.empty()) return false;
    auto *x = v[s.below(v.size())];
    *x += "Z";
    what += " text";
    return true;
  }
  case 1: case 2: { // a child
    int cnt = 0, at;
    Fields c;
    c.expr = [&](Expr **) { ++cnt; };
    c.stmt = [&](Stmt **, bool) { ++cnt; };
    visitFields(n, c);
    if (!cnt) return false;
    at = (int)s.below(cnt);
    bool done = false;
    int i = 0;
    Fields f;
    f.expr = [&](Expr **e) { if (i++ == at) *e = cache()->N<IdExpr>("mutated"), done = true; };
    f.stmt = [&](Stmt **x, bool suite) {
      if (i++ == at && suite) *x = cache()->N<SuiteStmt>(cache()->N<BreakStmt>()), done = true;
    };
    visitFields(n, f);
    what += " child";
    return done;
  }
  case 3: n->setSrcInfo(SrcInfo("other", 1000, 1000, 1)); what += " location"; return true;
  case 4: { // an attribute, in place or new
    std::vector<int> ks;
    for (auto it = n->attributes_begin(); it != n->attributes_end(); ++it) ks.push_back(*it);
    std::sort(ks.begin(), ks.end());
    what += " attribute";
    if (ks.size()) {
      auto *a = n->getAttribute(ks[s.below(ks.size())]);
      if (auto *x = dynamic_cast<ir::StringValueAttribute *>(a)) return x->value += "Z", true;
      if (auto *x = dynamic_cast<ir::IntValueAttribute *>(a)) return x->value += 1000, true;
      if (auto *x = dynamic_cast<ir::StringListAttribute *>(a)) return x->values.push_back("Z"), true;
      if (auto *x = dynamic_cast<ir::KeyValueAttribute *>(a)) return x->attributes["Z"] = "Z", true;
    }
    n->setAttribute(Attr::TryPyVar, std::string("Z"));
    return true;
  }
  default:
    what += " type/done";
    if (isExpr(n)) {
      static_cast<Expr *>(n)->setType(std::make_shared<types::ClassType>(cache(), "Zed"));
      static_cast<Expr *>(n)->setDone();
    } else static_cast<Stmt *>(n)->setDone();
    return true;
  }
}

void caseCopy(Src &s, Out &o) {
  Gen g(s);
  auto *n = g.tree();
  bool clean = s.flip();
  std::string before = dump(n), text = prints(n);
  o.text = fmt::format("{}clone of {}", clean ? "clean " : "", cut(n->toString(0)));
  o.key = keyOf(n) * 2 + clean;
  std::vector<ASTNode *> a, b;
  collect(n, a);
  o.nontrivial = a.size() >= 3;
  auto *c = n->clone(clean);
  if (dump(n) != before) return o.violation("copying changed the original: " + diffAt(before, dump(n)));
  if (kindOf(c) != kindOf(n)) return o.violation("copy is of another kind");
  std::string d0 = dump(n, clean), d1 = dump(c, clean);
  if (d0 != d1) {
    o.sig = "field";
    return o.violation("copy differs: " + diffAt(d0, d1));
  }
  collect(c, b);
  std::set<ASTNode *> in(a.begin(), a.end());
  for (auto *x : b) {
    if (in.count(x)) return o.sig = "shared", o.violation(std::string("copy shares a node: ") + kindName[kindOf(x)]);
    if (x->cache != n->cache) return o.violation("copy has no cache");
    if (clean) {
      bool dirty = isExpr(x) ? static_cast<Expr *>(x)->getType() || static_cast<Expr *>(x)->isDone() : static_cast<Stmt *>(x)->isDone();
      if (dirty) return o.sig = "clean", o.violation(std::string("clean copy keeps a type or done mark on ") + kindName[kindOf(x)]);
    }
  }
  if (std::set<ASTNode *>(b.begin(), b.end()).size() != b.size()) return o.violation("a node occurs twice in the copy");
  if (!clean && prints(c) != text) return o.sig = "print", o.violation("copy prints differently: " + diffAt(text, prints(c)));
  if (prints(c) != prints(c)) return o.violation("printing twice differs");
  // a second copy of the copy, then changes on one side never show on the others
  auto *c2 = c->clone(clean);
  std::string cs = dump(c), c2s = dump(c2), ct = prints(c);
  int done = 0;
  std::string log;
  for (int i = (int)s.range(1, 4); i > 0; i--) {
    std::string w;
    if (mutate(s, g, n, w)) ++done, log += w + "; ";
  }
  o.text += " | changes: " + log;
  if (dump(c) != cs) return o.sig = "alias", o.violation("the copy changed with the original: " + log + diffAt(cs, dump(c)));
  if (prints(c) != ct) return o.sig = "alias", o.violation("the copy prints differently after a change of the original: " + log);
  std::string nd = dump(n);
  std::string w;
  mutate(s, g, c, w);
  if (dump(n) != nd) return o.sig = "alias", o.violation("the original changed with the copy: " + w);
  if (dump(c2) != c2s) return o.sig = "alias", o.violation("a copy of the copy changed: " + w);
}
pbt::Reg rCopy("C18", "copy", "the tree has at least 3 nodes", caseCopy, 5, 100, 10, setup);

// ---- visitors
struct Rec : public CallbackASTVisitor<int, int> {
  std::vector<ASTNode *> seen;
  int transform(Expr *e) override { return e ? seen.push_back(e), 0 : 0; }
  int transform(Stmt *e) override { return e ? seen.push_back(e), 0 : 0; }
};
struct Def : public ASTVisitor {
  int e = 0, s = 0;
  ASTNode *last = nullptr;
  void defaultVisit(Expr *x) override { ++e, last = x; }
  void defaultVisit(Stmt *x) override { ++s, last = x; }
};
struct Rep : public ReplacingCallbackASTVisitor {
  std::vector<std::pair<ASTNode *, ASTNode *>> done;
  int mode;
  Expr *transform(Expr *e) override {
    if (!e) return nullptr;
    auto *r = cache()->N<IdExpr>("r" + std::to_string(done.size()));
    done.push_back({e, r});
    return r;
  }
  Stmt *transform(Stmt *e) override {
    if (!e) return nullptr;
    Stmt *r;
    if (kindOf(e) == K_ExceptStmt) r = cache()->N<ExceptStmt>("r", nullptr, cache()->N<SuiteStmt>());
    else if (mode == 0) r = cache()->N<SuiteStmt>();
    else r = cache()->N<BreakStmt>();
    done.push_back({e, r});
    return r;
  }
};
/// a full replacing walk that keeps everything: must be the identity
struct Walk : public ReplacingCallbackASTVisitor {
  std::vector<ASTNode *> seen;
  Expr *transform(Expr *e) override {
    if (!e) return e;
    seen.push_back(e);
    e->accept(*this);
    return e;
  }
  Stmt *transform(Stmt *e) override {
    if (!e) return e;
    seen.push_back(e);
    e->accept(*this);
    return e;
  }
};
void caseVisit(Src &s, Out &o) {
  Gen g(s);
  auto *root = g.tree();
  std::vector<ASTNode *> ns;
  collect(root, ns);
  auto *n = ns[s.below(ns.size())];
  int k = kindOf(n);
  o.text = fmt::format("visits of {}", cut(n->toString(0)));
  o.key = keyOf(n);
  KindVisitor kv;
  n->accept(kv);
  if (kv.k != k || kv.n != 1) return o.violation(fmt::format("accept of a {} calls the visit of {} ({} calls)", kindName[k], kv.k < 0 ? "nothing" : kindName[kv.k], kv.n));
  Def dv;
  n->accept(dv);
  if (dv.e != isExpr(n) || dv.s != !isExpr(n) || dv.last != n) return o.violation(fmt::format("default visit of {} is not called once", kindName[k]));
  // casts follow the class
#define X(T)                                                                                                           \
  if ((cast<T>(n) != nullptr) != (k == K_##T)) return o.violation(fmt::format("a {} casts to " #T, kindName[k]));
  EXPRS(X) STMTS(X)
#undef X
  if ((cast<Expr>(n) != nullptr) != isExpr(n) || (cast<Stmt>(n) != nullptr) == isExpr(n)) return o.violation("cast to the base class");
  // pieces of an f-string are expanded by the scoping visitor and are not children to the callback visitors;
  // directives, comments have none
  auto ch = k == K_StringExpr ? std::vector<ASTNode *>() : children(n);
  o.nontrivial = ch.size() >= 2;
  Rec rv;
  n->accept(rv);
  auto sorted = [](std::vector<ASTNode *> v) { return std::sort(v.begin(), v.end()), v; };
  if (sorted(rv.seen) != sorted(ch)) {
    o.sig = kindName[k];
    return o.violation(fmt::format("visitor sees {} children of {}, it has {}", rv.seen.size(), kindName[k], ch.size()));
  }
  std::string before = dump(root);
  Walk w;
  if (isExpr(root)) w.transform(static_cast<Expr *>(root));
  else w.transform(static_cast<Stmt *>(root));
  if (dump(root) != before) return o.violation("an identity walk changed the tree: " + diffAt(before, dump(root)));
  std::vector<ASTNode *> reach;
  std::function<void(ASTNode *)> rec = [&](ASTNode *x) {
    reach.push_back(x);
    if (kindOf(x) != K_StringExpr)
      for (auto *c : children(x)) rec(c);
  };
  rec(root);
  if (sorted(reach) != sorted(w.seen)) return o.violation(fmt::format("an identity walk visits {} nodes of {}", w.seen.size(), reach.size()));
  // every child replaced
  Rep rp;
  rp.mode = (int)s.below(2);
  Fields f;
  std::vector<ASTNode *> oldKids, newKids;
  std::vector<bool> suite;
  auto list = [&](std::vector<ASTNode *> &v) {
    Fields f;
    f.expr = [&](Expr **e) { v.push_back(*e); };
    f.stmt = [&](Stmt **x, bool su) { v.push_back(*x), suite.push_back(su); };
    visitFields(n, f);
  };
  // a function's cached signature is text, not a child
  list(oldKids);
  n->accept(rp);
  if (k == K_StringExpr) return;
  list(newKids);
  if (oldKids.size() != newKids.size()) return o.violation("replacing changed the number of children");
  std::map<ASTNode *, ASTNode *> m(rp.done.begin(), rp.done.end());
  for (size_t i = 0; i < oldKids.size(); i++) {
    auto *want = oldKids[i] ? m[oldKids[i]] : nullptr;
    auto *got = newKids[i];
    bool ok = got == want;
    if (!ok && got && want && kindOf(got) == K_SuiteStmt && kindOf(want) == K_BreakStmt) {
      auto *su = static_cast<SuiteStmt *>(got);
      ok = su->size() == 1 && (*su)[0] == want;
    }
    if (!ok) {
      o.sig = std::string("replace-") + kindName[k];
      return o.violation(fmt::format("child {} of {} is not what the visitor returned", i, kindName[k]));
    }
  }
}
pbt::Reg rVisit("C18", "visit", "the visited node has at least 2 children", caseVisit, 3, 100, 10, setup);

// ---- printing tells names, literals and operators apart
struct Vis { std::string *s; ASTNode *n; };
void visible(ASTNode *n, bool inl, std::vector<Vis> &v) {
  int k = kindOf(n);
  if (k == K_YieldExpr) return;
  Fields f;
  int idx = 0;
  f.str = [&](std::string *s) {
    if (k == K_WhileStmt) return;                    // internal
    if (k == K_StringExpr && idx++ % 5 >= 2) return; // format parts
    v.push_back({s, n});
  };
  bool in2 = k == K_TupleExpr || k == K_ListExpr || k == K_SetExpr || k == K_DictExpr || k == K_InstantiateExpr || k == K_PrintStmt;
  f.expr = [&](Expr **e) {
    if (k == K_StringExpr || !*e) return;
    if (k == K_AssignMemberStmt) { // the type is not printed
      auto *am = static_cast<AssignMemberStmt *>(n);
      if (*e == am->getTypeExpr()) return;
    }
    if (k == K_ForStmt) {
      auto *x = static_cast<ForStmt *>(n);
      if (*e != x->getVar() && *e != x->getIter() && *e != x->getDecorator()) return;
    }
    visible(*e, inl || in2, v);
  };
  f.stmt = [&](Stmt **e, bool) {
    if (!*e || inl || in2) return;
    if (k == K_WhileStmt || k == K_ForStmt) // an empty else is not printed
      if (auto *su = cast<SuiteStmt>(*e))
        if (!su->firstInBlock()) return;
    visible(*e, inl, v);
  };
  if (k == K_ForStmt) { // the arguments of a decorator are internal
    auto *x = static_cast<ForStmt *>(n);
    f.str = [](std::string *) {};
    (void)x;
  }
  visitFields(n, f);
}
void casePrint(Src &s, Out &o) {
  Gen g(s);
  auto *n = g.tree();
  auto *c = n->clone(false);
  std::vector<Vis> v;
  visible(c, false, v);
  o.text = cut(n->toString(0));
  o.key = keyOf(n);
  if (v.empty()) return;
  auto &x = v[s.below(v.size())];
  o.nontrivial = true;
  std::string was = *x.s;
  if (x.s->empty() || s.flip()) *x.s += (char)('0' + s.below(70));
  else (*x.s)[s.below(x.s->size())] ^= (char)(1 << s.below(7));
  if (kindOf(x.n) != K_StringExpr)
    for (auto &ch : *x.s)
      if (!isalnum((unsigned char)ch)) ch = 'q';
  if (*x.s == was) return;
  if (getenv("PBT_DUMP")) o.text += dump(n);
  o.text += fmt::format(" | {}: {} -> {}", kindName[kindOf(x.n)], escape(was), escape(*x.s));
  // a string's own location and the value and prefix are text; nothing else changed
  if (n->toString(0) == c->toString(0)) {
    o.sig = kindName[kindOf(x.n)];
    return o.violation(fmt::format("{} prints the same with {} and {}", kindName[kindOf(x.n)], escape(was), escape(*x.s)));
  }
}
pbt::Reg rPrint("C18", "print", "one name, literal or operator was changed", casePrint, 2, 100, 10, setup);

// ---- literals and text helpers
void caseText(Src &s, Out &o) {
  switch (s.below(4)) {
  case 0: { // escape / unescape
    auto gen = [&] {
      std::string r;
      for (int n = (int)s.below(7); n > 0; n--) {
        switch (s.below(4)) {
        case 0: r += (char)s.below(256); break;
        case 1: r += (char)s.below(32); break;
        case 2: r += "0123456789abcdefxXn\\'\"{}"[s.below(24)]; break;
        default: r += "fa1"[s.below(3)];
        }
      }
      return r;
    };
    std::string a = gen(), b = gen();
    o.text = "escape " + escape(a) + " / " + escape(b);
    o.nontrivial = a.size() > 1;
    for (auto &x : {a, b}) {
      std::string e = escape(x), u;
      try {
        u = unescape(e);
      } catch (std::exception &ex) { u = std::string("exception ") + ex.what(); }
      for (unsigned char ch : e)
        if (ch < 32 || ch >= 127) return o.violation("escaped text is not printable");
      if (u != x) return o.sig = "escape", o.violation("unescape(escape(s)) is not s: escape gives " + e);
    }
    if (a != b && escape(a) == escape(b)) return o.sig = "escape", o.violation("two strings have the same escaped text " + escape(a));
    break;
  }
  case 1: { // integer literals
    int base = s.pick({10, 2, 8, 16});
    std::string d;
    int n = base == 2 ? (int)s.range(1, 70) : (int)s.range(1, 24);
    for (int i = 0; i < n; i++) d += "0123456789abcdef"[s.below(base)];
    if (base == 10 && d[0] == '0') d = d.size() > 1 ? "1" + d : d;
    if (s.chance(1, 3)) d = base == 10 ? s.pick<std::string>({"18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "0"}) : d;
    if (base == 16 && s.flip())
      for (auto &c : d) c = (char)toupper(c);
    std::string t = base == 10 ? "" : base == 2 ? (s.flip() ? "0b" : "0B") : base == 8 ? (s.flip() ? "0o" : "0O") : (s.flip() ? "0x" : "0X");
    for (size_t i = 0; i < d.size(); i++) {
      t += d[i];
      if (i + 1 < d.size() && s.chance(1, 8)) t += '_';
    }
    unsigned __int128 v = 0;
    bool big = false;
    for (char c : d) {
      v = v * base + (isdigit((unsigned char)c) ? c - '0' : tolower(c) - 'a' + 10);
      if (v >> 64) big = true, v &= ~0ull;
    }
    o.text = "int literal " + t;
    o.nontrivial = d.size() > 1;
    auto *e = cache()->N<IntExpr>(t, "");
    if (e->hasStoredValue() == big) return o.violation("value of " + t + (big ? " should not fit" : " should fit"));
    if (!big && (uint64_t)e->getValue() != (uint64_t)v) return o.violation(fmt::format("value of {} is {}", t, e->getValue()));
    break;
  }
  case 2: { // float literals
    std::string t;
    auto digits = [&](int mn) {
      std::string r;
      for (int n = (int)s.range(mn, 12); n > 0; n--) {
        r += (char)('0' + s.below(10));
        if (n > 1 && s.chance(1, 8)) r += '_';
      }
      return r;
    };
    bool dot = s.flip();
    t = digits(dot ? 0 : 1);
    bool some = t.size();
    if (dot) t += "." + digits(some ? 0 : 1);
    if (!dot || s.flip()) t += (s.flip() ? "e" : "E") + s.pick<std::string>({"", "-", "+"}) + std::to_string(s.below(s.chance(1, 4) ? 400 : 30));
    std::string p;
    for (char c : t)
      if (c != '_') p += c;
    double want = strtod(p.c_str(), nullptr);
    o.text = "float literal " + t;
    o.nontrivial = true;
    auto *e = cache()->N<FloatExpr>(t, "");
    if (!e->hasStoredValue()) return o.violation(t + " has no value");
    double got = e->getValue();
    if (memcmp(&got, &want, 8)) return o.violation(fmt::format("value of {} is {:.17g}, not {:.17g}", t, got, want));
    break;
  }
  default: { // helpers of declarations
    Gen g(s);
    std::vector<Param> ps;
    int star = -1, kw = -1;
    for (int n = (int)s.below(6), i = 0; i < n; i++) {
      int st = (int)s.weighted({4, 1, 1});
      if (st == 1 && star < 0) star = i;
      if (st == 2 && kw < 0) kw = i;
      ps.emplace_back(std::string(st, '*') + g.name(), g.opt(1), nullptr, (int)s.weighted({5, 1, 1}));
    }
    std::string doc = g.text();
    bool hasDoc = s.flip();
    Stmt *body = hasDoc ? (Stmt *)cache()->N<SuiteStmt>(cache()->N<ExprStmt>(cache()->N<StringExpr>(doc))) : g.suite(1);
    auto *f = cache()->N<FunctionStmt>("f", nullptr, ps, body);
    o.text = "function " + cut(f->toString(0), 300);
    o.nontrivial = ps.size() > 1;
    if (f->getStarArgs() != (star < 0 ? ps.size() : star)) return o.violation(fmt::format("*args found at {} instead of {}", f->getStarArgs(), star));
    if (f->getKwStarArgs() != (kw < 0 ? ps.size() : kw)) return o.violation(fmt::format("**kwargs found at {} instead of {}", f->getKwStarArgs(), kw));
    if (hasDoc && f->getDocstr() != doc) return o.violation("docstring lost");
    for (auto &p : ps) {
      auto [st, nm] = p.getNameWithStars();
      if (std::string(st, '*') + nm != p.name || (nm.size() && nm[0] == '*')) return o.violation("stars of " + p.name);
    }
    // suites: flatten keeps order and drops nothing; addStmt appends
    auto *su = g.suite(2);
    std::vector<Stmt *> want;
    for (auto *x : *su) {
      if (auto *in = cast<SuiteStmt>(x)) for (auto *y : *in) want.push_back(y);
      else if (x) want.push_back(x);
    }
    su->flatten();
    if (std::vector<Stmt *>(su->begin(), su->end()) != want) return o.violation("flatten");
    auto *add = s.flip() ? g.stmt(1) : nullptr;
    if (s.flip()) su->setDone();
    bool wasDone = su->isDone();
    su->addStmt(add);
    if (add) want.push_back(add);
    if (std::vector<Stmt *>(su->begin(), su->end()) != want || su->isDone() != (wasDone && !add)) return o.violation("addStmt");
    auto *st = g.stmt(2);
    auto *wr = SuiteStmt::wrap(st);
    if (kindOf(st) == K_SuiteStmt ? wr != st : wr->size() != 1 || (*wr)[0] != st || locText(wr->getSrcInfo()) != locText(st->getSrcInfo())) return o.violation("wrap");
    // comprehension: depth and final expression
    int loops = 0;
    std::vector<Stmt *> ls;
    for (int n = (int)s.range(1, 4), i = 0; i < n; i++, loops++) {
      if (i && s.flip()) ls.push_back(cache()->N<IfStmt>(cache()->N<IdExpr>("c")));
      else ls.push_back(cache()->N<ForStmt>(cache()->N<IdExpr>("v"), cache()->N<IdExpr>("it"), nullptr));
    }
    auto *fin = g.leaf();
    auto *ge = cache()->N<GeneratorExpr>(cache(), GeneratorExpr::ListGenerator, fin, ls);
    if (ge->loopCount() != loops || ge->getFinalExpr() != fin) return o.violation(fmt::format("comprehension of {} parts has {}", loops, ge->loopCount()));
  }
  }
}
pbt::Reg rText("C18", "text", "strings or literals of more than one character, functions with several parameters", caseText, 1, 200, 10, setup);
} // namespace
