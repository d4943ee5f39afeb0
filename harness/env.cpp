#include "ir.h"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace vir {
using namespace codon::ir;
World world;

static uint64_t bitsOf(double d) {
  if (std::isnan(d)) return 0x7ff8000000000000ull;
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static uint64_t mix(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
  return x;
}
int64_t World::obs(int64_t tag, int64_t v) {
  if (log.size() < 100000) log.push_back({tag, (uint64_t)v});
  return (int64_t)(mix(seed + ++n * 77) % 7) - 1;
}
double World::obsf(int64_t tag, double v) {
  if (log.size() < 100000) log.push_back({tag, bitsOf(v)});
  return (double)(int64_t)(mix(seed + ++n * 77) % 9) * 0.5 - 1;
}
int64_t World::inp(int64_t tag) {
  int64_t r = (int64_t)(mix(seed + ++n * 131) % 9) - 2;
  if (log.size() < 100000) log.push_back({tag, (uint64_t)r});
  return r;
}
std::string show(const std::vector<Event> &e, size_t from) {
  std::string s;
  for (size_t i = from; i < e.size() && i < from + 30; i++)
    s += "(" + std::to_string(e[i].tag) + "," + std::to_string((int64_t)e[i].bits) + ") ";
  if (e.size() > from + 30) s += "... total " + std::to_string(e.size());
  return s;
}

T *Env::fty(T *ret, std::vector<T *> args) {
  if (full) return M->getFuncType(ret, args);
  std::string n = "Fn[" + ret->getName();
  for (auto *a : args) n += "," + a->getName();
  return M->unsafeGetFuncType(n + "]", ret, args);
}
T *Env::genT(T *base) { return full ? M->getGeneratorType(base) : M->unsafeGetGeneratorType(base); }
T *Env::ptrT(T *base) { return full ? M->getPointerType(base) : M->unsafeGetPointerType(base); }
Value *Env::callF(Func *f, std::vector<Value *> args) { return M->Nr<CallInstr>(M->Nr<VarValue>(f), std::move(args)); }
Value *Env::call(const std::string &n, std::vector<Value *> args) {
  auto it = p.find(n);
  if (it == p.end()) { fprintf(stderr, "no primitive %s\n", n.c_str()); abort(); }
  return callF(it->second, std::move(args));
}
BodiedFunc *Env::func(const std::string &name, T *ret, std::vector<T *> args, bool generator) {
  auto *f = M->Nr<BodiedFunc>(name);
  std::vector<std::string> names;
  for (size_t k = 0; k < args.size(); k++) names.push_back("a" + std::to_string(k));
  f->realize(fty(ret, args), names);
  f->setUnmangledName(name);
  f->setGenerator(generator);
  f->setBody(M->Nr<SeriesFlow>());
  return f;
}
Value *Env::zero(T *t) {
  if (t->is(i)) return M->getInt(0);
  if (t->is(f)) return M->getFloat(0);
  if (t->is(b)) return M->getBool(false);
  if (t->is(tup)) return call("tnew", {M->getInt(0), M->getFloat(0)});
  if (tup2 && t->is(tup2)) return call("t2new", {zero(tup), M->getInt(0)});
  if (t->is(node)) return call("nnew", {M->getInt(0)});
  if (poly && t->is(poly)) return call("pnew", {M->getInt(0)});
  for (size_t k = 0; k < exc.size(); k++)
    if (t->is(exc[k])) return call("enew" + std::to_string(k), {M->getInt(0)});
  return nullptr;
}
int fieldIndex(const T *t, const std::string &name) {
  auto *m = cast<codon::ir::types::MemberedType>(t);
  int k = 0;
  for (auto &f : *m) {
    if (f.getName() == name) return k;
    ++k;
  }
  return -1;
}

namespace {
struct PrimDef { const char *name, *magic, *ret; std::vector<std::string> args; const char *body; };
const std::vector<PrimDef> &prims() {
  static std::vector<PrimDef> d;
  if (!d.empty()) return d;
  auto bin = [&](const char *n, const char *magic, const char *t, const char *op) {
    d.push_back({n, magic, t, {t, t}, strdup((std::string("%r = ") + op + " %a, %b\nret " + (*t == 'i' ? "i64" : "double") + " %r").c_str())});
  };
  bin("i+", "__add__", "i", "add i64"); bin("i-", "__sub__", "i", "sub i64"); bin("i*", "__mul__", "i", "mul i64");
  bin("i//", "__floordiv__", "i", "sdiv i64"); bin("i%", "__mod__", "i", "srem i64");
  bin("i<<", "__lshift__", "i", "shl i64"); bin("i>>", "__rshift__", "i", "ashr i64");
  bin("i&", "__and__", "i", "and i64"); bin("i|", "__or__", "i", "or i64"); bin("i^", "__xor__", "i", "xor i64");
  bin("f+", "__add__", "f", "fadd double"); bin("f-", "__sub__", "f", "fsub double");
  bin("f*", "__mul__", "f", "fmul double"); bin("f/", "__truediv__", "f", "fdiv double");
  auto cmp = [&](const char *n, const char *magic, const char *t, const char *op) {
    d.push_back({n, magic, "b", {t, t}, strdup((std::string("%c = ") + op + " %a, %b\n%r = zext i1 %c to i8\nret i8 %r").c_str())});
  };
  cmp("i==", "__eq__", "i", "icmp eq i64"); cmp("i!=", "__ne__", "i", "icmp ne i64"); cmp("i<", "__lt__", "i", "icmp slt i64");
  cmp("i<=", "__le__", "i", "icmp sle i64"); cmp("i>", "__gt__", "i", "icmp sgt i64"); cmp("i>=", "__ge__", "i", "icmp sge i64");
  cmp("f==", "__eq__", "f", "fcmp oeq double"); cmp("f!=", "__ne__", "f", "fcmp une double"); cmp("f<", "__lt__", "f", "fcmp olt double");
  cmp("f<=", "__le__", "f", "fcmp ole double"); cmp("f>", "__gt__", "f", "fcmp ogt double"); cmp("f>=", "__ge__", "f", "fcmp oge double");
  d.push_back({"ineg", "__neg__", "i", {"i"}, "%r = sub i64 0, %a\nret i64 %r"});
  d.push_back({"i~", "__invert__", "i", {"i"}, "%r = xor i64 %a, -1\nret i64 %r"});
  d.push_back({"fneg", "__neg__", "f", {"f"}, "%r = fneg double %a\nret double %r"});
  d.push_back({"i2f", "__float__", "f", {"i"}, "%r = sitofp i64 %a to double\nret double %r"});
  d.push_back({"b2i", "__int__", "i", {"b"}, "%r = zext i8 %a to i64\nret i64 %r"});
  d.push_back({"b&", "__and__", "b", {"b", "b"}, "%r = and i8 %a, %b\nret i8 %r"});
  d.push_back({"b|", "__or__", "b", {"b", "b"}, "%r = or i8 %a, %b\nret i8 %r"});
  d.push_back({"b^", "__xor__", "b", {"b", "b"}, "%r = xor i8 %a, %b\nret i8 %r"});
  d.push_back({"b~", "__invert__", "b", {"b"}, "%r = xor i8 %a, 1\nret i8 %r"});
  return d;
}
int64_t wrap(unsigned __int128 v) { return (int64_t)(uint64_t)v; }
} // namespace

/// meaning of a primitive by short name
static Prim meaning(const std::string &n, Env *e) {
#define II(op) [](std::vector<Val> &a) { uint64_t x = a[0].i, y = a[1].i; (void)x; (void)y; return Val::I_((int64_t)(op)); }
#define IS(op) [](std::vector<Val> &a) { int64_t x = a[0].i, y = a[1].i; return Val::I_(op); }
#define IB(op) [](std::vector<Val> &a) { int64_t x = a[0].i, y = a[1].i; return Val::B_(op); }
#define FF(op) [](std::vector<Val> &a) { double x = a[0].f, y = a[1].f; return Val::F_(op); }
#define FB(op) [](std::vector<Val> &a) { double x = a[0].f, y = a[1].f; return Val::B_(op); }
  if (n == "i+") return II(x + y);
  if (n == "i-") return II(x - y);
  if (n == "i*") return II(x * y);
  if (n == "i//") return IS(x / y);
  if (n == "i%") return IS(x % y);
  if (n == "i<<") return II(x << y);
  if (n == "i>>") return IS(x >> y);
  if (n == "i&") return II(x & y);
  if (n == "i|") return II(x | y);
  if (n == "i^") return II(x ^ y);
  if (n == "f+") return FF(x + y);
  if (n == "f-") return FF(x - y);
  if (n == "f*") return FF(x * y);
  if (n == "f/") return FF(x / y);
  if (n == "i==") return IB(x == y);
  if (n == "i!=") return IB(x != y);
  if (n == "i<") return IB(x < y);
  if (n == "i<=") return IB(x <= y);
  if (n == "i>") return IB(x > y);
  if (n == "i>=") return IB(x >= y);
  if (n == "f==") return FB(x == y);
  if (n == "f!=") return FB(x != y);
  if (n == "f<") return FB(x < y);
  if (n == "f<=") return FB(x <= y);
  if (n == "f>") return FB(x > y);
  if (n == "f>=") return FB(x >= y);
  if (n == "ineg") return [](std::vector<Val> &a) { return Val::I_((int64_t)(0 - (uint64_t)a[0].i)); };
  if (n == "i~") return [](std::vector<Val> &a) { return Val::I_(~a[0].i); };
  if (n == "fneg") return [](std::vector<Val> &a) { return Val::F_(-a[0].f); };
  if (n == "i2f") return [](std::vector<Val> &a) { return Val::F_((double)a[0].i); };
  if (n == "b2i") return [](std::vector<Val> &a) { return Val::I_(a[0].i); };
  if (n == "b&") return [](std::vector<Val> &a) { return Val::B_(a[0].i & a[1].i); };
  if (n == "b|") return [](std::vector<Val> &a) { return Val::B_(a[0].i | a[1].i); };
  if (n == "b^") return [](std::vector<Val> &a) { return Val::B_(a[0].i ^ a[1].i); };
  if (n == "b~") return [](std::vector<Val> &a) { return Val::B_(!a[0].i); };
  if (n == "tnew" || n == "t2new") return [](std::vector<Val> &a) { Val r; r.k = Val::REC; r.rec = a; return r; };
  auto mk = [](T *t) {
    int n = 0, ia = fieldIndex(t, "a"), ib = fieldIndex(t, "b");
    for (auto &f : *cast<codon::ir::types::MemberedType>(t)) (void)f, ++n;
    return [t, n, ia, ib](std::vector<Val> &a) {
      Val r;
      r.k = Val::REF;
      r.ref = std::make_shared<Obj>();
      r.ref->type = t;
      r.ref->f.resize(n);
      r.ref->f[ia] = a[0];
      r.ref->f[ib] = Val::F_(0);
      return r;
    };
  };
  if (n == "nnew") return mk(e->node);
  if (n == "pnew") return mk(e->poly);
  if (n.rfind("enew", 0) == 0) return mk(e->exc[n[4] - '0']);
  auto at = [](Val &p) -> Val & {
    Val *v = &p.cell->v;
    for (int k : p.path) v = v->k == Val::REF ? &v->ref->f[k] : &v->rec[k];
    return *v;
  };
  if (n == "pld" || n == "pfld") return [at](std::vector<Val> &a) { return at(a[0]); };
  if (n == "pst" || n == "pfst") return [at](std::vector<Val> &a) { at(a[0]) = a[1]; return a[1]; };
  fprintf(stderr, "no meaning for %s\n", n.c_str());
  abort();
}

void Env::external() {
  auto ext = [&](const char *n, T *ret, std::vector<T *> args) {
    auto *f = M->Nr<ExternalFunc>(n);
    std::vector<std::string> names;
    for (size_t k = 0; k < args.size(); k++) names.push_back("a" + std::to_string(k));
    f->realize(fty(ret, args), names);
    f->setUnmangledName(n);
    f->setGlobal();
    return f;
  };
  obs = ext("irh_obs", i, {i, i});
  obsf = ext("irh_obsf", f, {i, f});
  inp = ext("irh_inp", i, {i});
}

bool Env::excMatch(const T *c, const T *t) const {
  for (std::string n = t->getName();;) {
    if (c->getName() == n) return true;
    auto it = excParent.find(n);
    if (it == excParent.end()) return false;
    n = it->second;
  }
}

void Env::addMethods() {
  auto ty = [&](const std::string &s) { return s == "i" ? i : s == "f" ? f : b; };
  for (auto &d : prims()) {
    std::vector<T *> a;
    for (auto &s : d.args) a.push_back(ty(s));
    auto *fn = M->getOrRealizeMethod(a[0], d.magic, a);
    if (!fn) { fprintf(stderr, "no %s on %s\n", d.magic, a[0]->getName().c_str()); abort(); }
    p[d.name] = fn;
  }
  for (auto &[n, fn] : p) sem[fn] = meaning(n, this);
}

std::unique_ptr<Env> Env::bare(Module *M) {
  auto e = std::make_unique<Env>();
  e->M = M;
  e->i = M->getIntType(); e->f = M->getFloatType(); e->b = M->getBoolType(); e->v = M->getVoidType();
  auto rec = [&](const std::string &n, std::vector<T *> ts, std::vector<std::string> ns, bool ref) {
    auto *t = cast<codon::ir::types::MemberedType>(M->unsafeGetMemberedType(n, ref));
    t->realize(ts, ns);
    return t;
  };
  e->tup = rec("Tuple[int,float]", {e->i, e->f}, {"item1", "item2"}, false);
  e->tup2 = rec("Tuple[Tuple[int,float],int]", {e->tup, e->i}, {"item1", "item2"}, false);
  e->node = rec("Nd", {e->i, e->f}, {"a", "b"}, true);
  auto *pt = rec("Pd", {e->i, e->f}, {"a", "b"}, true);
  cast<codon::ir::types::RefType>(pt)->setPolymorphic();
  e->poly = pt;
  e->pi = e->ptrT(e->i);
  e->pf = e->ptrT(e->f);
  // exception classes: Ex1 derives from Ex0, Ex2 is unrelated
  e->cache = std::make_unique<codon::ast::Cache>();
  M->setCache(e->cache.get());
  static const int parent[] = {-1, 0, -1};
  for (int k = 0; k < 3; k++) {
    std::string n = "Ex" + std::to_string(k);
    auto *t = rec(n, {e->i, e->f}, {"a", "b"}, true);
    cast<codon::ir::types::RefType>(t)->setPolymorphic();
    auto ct = std::make_shared<codon::ast::types::ClassType>(e->cache.get(), n);
    auto r = std::make_shared<codon::ast::Cache::Class::ClassRealization>();
    r->type = ct;
    r->ir = t;
    r->id = 101 + k;
    e->cache->classes[n].realizations[ct->realizedName()] = r;
    t->setAstType(ct);
    e->exc.push_back(t);
    if (parent[k] >= 0) e->excParent[n] = "Ex" + std::to_string(parent[k]);
  }
  auto ty = [&](const std::string &s) { return s == "i" ? e->i : s == "f" ? e->f : e->b; };
  static const std::vector<std::string> names = {"a", "b", "c", "d"};
  auto llvm = [&](const std::string &n, const std::string &magic, T *parent, T *ret, std::vector<T *> args, const std::string &body,
                  const std::string &decl = "") {
    auto *f = M->Nr<LLVMFunc>(magic);
    f->realize(e->fty(ret, args), {names.begin(), names.begin() + args.size()});
    f->setUnmangledName(magic);
    f->setParentType(parent);
    f->setLLVMBody(body);
    f->setLLVMDeclarations(decl);
    f->setGlobal();
    e->p[n] = f;
  };
  for (auto &d : prims()) {
    std::vector<T *> a;
    for (auto &s : d.args) a.push_back(ty(s));
    llvm(d.name, d.magic, a[0], ty(d.ret), a, d.body);
  }
  auto inew = [&](const std::string &n, T *t, std::vector<T *> args) {
    auto *f = M->Nr<InternalFunc>("__new__");
    f->realize(e->fty(t, args), {names.begin(), names.begin() + args.size()});
    f->setUnmangledName("__new__");
    f->setParentType(t);
    f->setGlobal();
    e->p[n] = f;
  };
  inew("tnew", e->tup, {e->i, e->f});
  inew("t2new", e->tup2, {e->tup, e->i});
  const std::string alloc = "declare ptr @seq_alloc(i64)";
  const std::string mk = "%p = call ptr @seq_alloc(i64 16)\nstore i64 %a, ptr %p\n%q = getelementptr i8, ptr %p, i64 8\nstore double 0.0, ptr %q\n";
  llvm("nnew", "__new__", e->node, e->node, {e->i}, mk + "ret ptr %p", alloc);
  for (size_t k = 0; k < e->exc.size(); k++)
  {
    std::string n = std::to_string(k), ids = "0";
    for (int q = parent[k]; q >= 0; q = parent[q]) ids = std::to_string(101 + q) + ", i64 " + ids;
    int cnt = std::count(ids.begin(), ids.end(), ',') + 1;
    std::string decl = alloc + "\n@irh.par" + n + " = private constant [" + std::to_string(cnt) + " x i64] [i64 " + ids + "]\n@irh.nm" + n +
                       " = private constant [3 x i8] c\"Ex" + n + "\"\n@irh.ti" + n + " = private constant {{i64, ptr, i64, i64, ptr}} {{i64 " +
                       std::to_string(101 + k) + ", ptr @irh.par" + n + ", i64 " + std::to_string(cnt - 1) + ", i64 3, ptr @irh.nm" + n + "}}";
    llvm("enew" + n, "__new__", e->exc[k], e->exc[k], {e->i},
         mk + "%h = call ptr @seq_alloc(i64 16)\nstore ptr %p, ptr %h\n%g = getelementptr i8, ptr %h, i64 8\nstore ptr @irh.ti" + n + ", ptr %g\nret ptr %h", decl);
  }
  llvm("pnew", "__new__", e->poly, e->poly, {e->i},
       mk + "%h = call ptr @seq_alloc(i64 16)\nstore ptr %p, ptr %h\n%g = getelementptr i8, ptr %h, i64 8\nstore ptr null, ptr %g\nret ptr %h", alloc);
  llvm("pld", "__getitem__", e->pi, e->i, {e->pi}, "%r = load i64, ptr %a\nret i64 %r");
  llvm("pst", "__setitem__", e->pi, e->i, {e->pi, e->i}, "store i64 %b, ptr %a\nret i64 %b");
  llvm("pfld", "__getitem__", e->pf, e->f, {e->pf}, "%r = load double, ptr %a\nret double %r");
  llvm("pfst", "__setitem__", e->pf, e->f, {e->pf, e->f}, "store double %b, ptr %a\nret double %b");
  for (auto &[n, f] : e->p) e->sem[f] = meaning(n, e.get());
  e->external();
  return e;
}
} // namespace vir

extern "C" {
int64_t irh_obs(int64_t tag, int64_t v) { return vir::world.obs(tag, v); }
double irh_obsf(int64_t tag, double v) { return vir::world.obsf(tag, v); }
int64_t irh_inp(int64_t tag) { return vir::world.inp(tag); }
}
