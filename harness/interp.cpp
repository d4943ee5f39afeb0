// Reference interpreter for the IR: a direct reading of what each node means.
#include "ir.h"
#include <cmath>
#include <cstring>
#include <sys/mman.h>
#include <ucontext.h>

namespace vir {
using namespace codon::ir;

namespace {
constexpr size_t STACK = 512 << 10;
struct Brk { const Value *loop; };
struct Cnt { const Value *loop; };
struct Ret { Val v; };
struct Final {}; // final yield: generator ends
struct Thrown { Exc e; };
std::vector<void *> stackPool;
} // namespace

struct Coro {
  Interp *in;
  Frame frame;
  ucontext_t ctx, back;
  void *stack = nullptr;
  bool started = false, done = false, fuelOut = false;
  std::unique_ptr<Exc> thrown;
  std::string unsupported;
  Val promise;
  Coro *prev = nullptr;
  ~Coro() {
    if (stack) stackPool.push_back(stack);
  }
};

std::string show(const Val &v, int d) {
  if (d < 0) return "..";
  switch (v.k) {
  case Val::U: return "undef";
  case Val::I: return std::to_string(v.i);
  case Val::F: { char b[40]; snprintf(b, 40, "%.17g", v.f); return b; }
  case Val::B: return v.i ? "True" : "False";
  case Val::REC: { std::string s = "("; for (auto &x : v.rec) s += show(x, d - 1) + ","; return s + ")"; }
  case Val::REF: { if (!v.ref) return "null"; std::string s = "<" + v.ref->type->getName() + ":"; for (auto &x : v.ref->f) s += show(x, d - 1) + ","; return s + ">"; }
  case Val::FN: return "fn " + v.fn->getName();
  case Val::GEN: return "gen";
  case Val::PTR: return "ptr";
  }
  return "?";
}
bool same(const Val &a, const Val &b, int d) {
  if (d < 0) return true;
  if (a.k != b.k) return false;
  switch (a.k) {
  case Val::I: case Val::B: return a.i == b.i;
  case Val::F: return (std::isnan(a.f) && std::isnan(b.f)) || memcmp(&a.f, &b.f, 8) == 0;
  case Val::REC:
    if (a.rec.size() != b.rec.size()) return false;
    for (size_t k = 0; k < a.rec.size(); k++) if (!same(a.rec[k], b.rec[k], d - 1)) return false;
    return true;
  case Val::REF:
    if (!a.ref || !b.ref) return !a.ref == !b.ref;
    if (a.ref->type->getName() != b.ref->type->getName()) return false;
    for (size_t k = 0; k < a.ref->f.size(); k++) if (!same(a.ref->f[k], b.ref->f[k], d - 1)) return false;
    return true;
  default: return true;
  }
}
std::string diff(const Outcome &a, const Outcome &b) {
  for (size_t i = 0; i < std::max(a.log.size(), b.log.size()); i++)
    if (i >= a.log.size() || i >= b.log.size() || !(a.log[i] == b.log[i]))
      return "event " + std::to_string(i) + " differs: expected " + (i < a.log.size() ? show(a.log, i) : "end") + " | got " +
             (i < b.log.size() ? show(b.log, i) : "end");
  if (a.threw != b.threw || a.excType != b.excType)
    return "exception differs: expected " + (a.threw ? a.excType : "none") + " got " + (b.threw ? b.excType : "none");
  if (!same(a.ret, b.ret)) return "result differs: expected " + show(a.ret) + " got " + show(b.ret);
  return "";
}

Interp::Interp(Env &env, uint64_t seed, long fuel) : env(env), fuel(fuel) { w.reset(seed); }
Interp::~Interp() {}

static Val zeroVal(const T *t) {
  if (!t) return {};
  const std::string &n = t->getName();
  if (n == "int") return Val::I_(0);
  if (n == "float") return Val::F_(0);
  if (n == "bool") return Val::B_(false);
  if (auto *r = cast<codon::ir::types::RecordType>(t)) {
    Val v;
    v.k = Val::REC;
    for (auto &f : *r) v.rec.push_back(zeroVal(f.getType()));
    return v;
  }
  if (cast<codon::ir::types::RefType>(t)) { Val v; v.k = Val::REF; return v; }
  return {};
}

std::shared_ptr<Cell> Interp::cell(Frame &f, const Var *v) {
  auto &m = v->isGlobal() ? globals : f.vars;
  auto &c = m[v->getId()];
  if (!c) {
    c = std::make_shared<Cell>();
    if (v->isGlobal()) c->v = zeroVal(v->getType());
  }
  return c;
}

static void coroEntry(unsigned lo, unsigned hi) {
  auto *c = (Coro *)(((uint64_t)hi << 32) | lo);
  try {
    c->in->runBody(c->frame);
  } catch (Ret &) {
  } catch (Final &) {
  } catch (Thrown &t) { c->thrown = std::make_unique<Exc>(t.e);
  } catch (Fuel &) { c->fuelOut = true;
  } catch (Unsupported &u) { c->unsupported = u.what;
  }
  c->done = true;
  swapcontext(&c->ctx, &c->back);
  abort();
}

bool Interp::resume(Coro &c) {
  if (c.done) throw Unsupported{"resume of a finished generator"};
  if (!c.started) {
    c.started = true;
    if (!stackPool.empty()) { c.stack = stackPool.back(); stackPool.pop_back(); }
    else c.stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&c.ctx);
    c.ctx.uc_stack.ss_sp = c.stack;
    c.ctx.uc_stack.ss_size = STACK;
    c.ctx.uc_link = nullptr;
    uint64_t p = (uint64_t)&c;
    makecontext(&c.ctx, (void (*)())coroEntry, 2, (unsigned)p, (unsigned)(p >> 32));
  }
  c.prev = cur;
  cur = &c;
  swapcontext(&c.back, &c.ctx);
  cur = c.prev;
  if (c.fuelOut) throw Fuel{};
  if (!c.unsupported.empty()) throw Unsupported{c.unsupported};
  if (c.thrown) { Exc e = *c.thrown; throw Thrown{e}; }
  return !c.done;
}

Val Interp::runBody(Frame &f) {
  if (h) h->enter(f);
  try {
    eval(f, f.fn->getBody());
  } catch (Ret &r) {
    Val v = r.v;
    if (h) h->leave(f);
    return v;
  } catch (...) {
    if (h) h->leave(f);
    throw;
  }
  if (h) h->leave(f);
  return zeroVal(cast<codon::ir::types::FuncType>(f.fn->getType())->getReturnType());
}

Val Interp::callFn(const Func *fn, std::vector<Val> args) {
  if (--fuel < 0) throw Fuel{};
  if (fn == env.obs || fn == env.inp || fn == env.obsf) {
    if (h) h->external(fn);
    if (fn == env.obs) return Val::I_(w.obs(args[0].i, args[1].i));
    if (fn == env.inp) return Val::I_(w.inp(args[0].i));
    return Val::F_(w.obsf(args[0].i, args[1].f));
  }
  auto it = env.sem.find(fn);
  if (it != env.sem.end()) {
    if (h && (fn->getUnmangledName() == "__setitem__")) h->store(args[0], args[1]);
    return it->second(args);
  }
  if (env.full && fn->getParentType() && cast<codon::ir::types::PointerType>(fn->getParentType()) && args.size() >= 2 && args[0].k == Val::PTR &&
      (fn->getUnmangledName() == "__getitem__" || fn->getUnmangledName() == "__setitem__")) { // Ptr[T].__getitem__(p, 0), __setitem__(p, 0, v)
    if (args[1].i != 0) throw Unsupported{"pointer arithmetic"};
    Val *at = &args[0].cell->v;
    for (int k : args[0].path) at = at->k == Val::REF ? &at->ref->f[k] : &at->rec[k];
    if (args.size() == 2) return *at;
    if (h) h->store(args[0], args[2]);
    *at = args[2];
    return {};
  }
  auto *b = cast<BodiedFunc>(fn);
  if (!b) throw Unsupported{"call of " + fn->getName()};
  if (depth > 60) throw Fuel{};
  auto bind = [&](Frame &fr) {
    fr.fn = b;
    fr.serial = ++serial;
    size_t k = 0;
    for (auto a = b->arg_begin(); a != b->arg_end(); ++a) {
      auto c = cell(fr, *a);
      c->v = k < args.size() ? args[k] : Val();
      ++k;
    }
  };
  if (b->isGenerator()) {
    auto c = std::make_shared<Coro>();
    c->in = this;
    bind(c->frame);
    c->frame.coro = c.get();
    Val v;
    v.k = Val::GEN;
    v.gen = c;
    coros.push_back(c);
    return v;
  }
  Frame fr;
  bind(fr);
  ++depth;
  try {
    Val v = runBody(fr);
    --depth;
    return v;
  } catch (...) {
    --depth;
    throw;
  }
}

Val Interp::tryFlow(Frame &f, const TryCatchFlow *x) {
  enum { N, EXC, BRK, CNT, RET, FIN } p = N;
  Exc exc{};
  const Value *loop = nullptr;
  Val ret;
  auto guarded = [&](const Value *v) {
    try { eval(f, v); }
    catch (Thrown &t) { p = EXC; exc = t.e; }
    catch (Brk &b) { p = BRK; loop = b.loop; }
    catch (Cnt &c) { p = CNT; loop = c.loop; }
    catch (Ret &r) { p = RET; ret = r.v; }
    catch (Final &) { p = FIN; }
  };
  guarded(x->getBody());
  if (p == EXC) {
    const TryCatchFlow::Catch *hit = nullptr;
    for (auto &c : *x)
      if (!c.getType() || env.excMatch(c.getType(), exc.type)) { hit = &c; break; }
    if (hit) {
      p = N;
      f.catches.push_back(exc);
      if (auto *var = const_cast<TryCatchFlow::Catch *>(hit)->getVar()) {
        cell(f, var)->v = exc.v;
        if (h) h->assign(f, var, x, exc.v);
      }
      guarded(hit->getHandler());
      f.catches.pop_back();
    }
  } else if (p == N && x->getElse()) {
    guarded(x->getElse());
  }
  if (x->getFinally()) eval(f, x->getFinally());
  switch (p) {
  case N: break;
  case EXC: throw Thrown{exc};
  case BRK: throw Brk{loop};
  case CNT: throw Cnt{loop};
  case RET: throw Ret{ret};
  case FIN: throw Final{};
  }
  return {};
}

void Interp::pipeline(Frame &f, const std::vector<const PipelineFlow::Stage *> &st, size_t i, Val in) {
  if (i >= st.size()) return;
  auto *s = st[i];
  auto call = [&](Val &input) {
    Val fn = eval(f, s->getCallee());
    std::vector<Val> args;
    for (auto *a : *s) args.push_back(a ? eval(f, a) : input);
    return callFn(fn.fn, args);
  };
  if (i == 0) { // the value of the callee feeds the rest
    Val v = eval(f, s->getCallee());
    pipeline(f, st, 1, v);
    return;
  }
  if (st[i - 1]->isGenerator()) {
    auto g = in.gen;
    if (!g) throw Unsupported{"pipeline over a non-generator"};
    while (resume(*g)) {
      if (--fuel < 0) throw Fuel{};
      Val x = g->promise;
      pipeline(f, st, i + 1, call(x));
    }
  } else
    pipeline(f, st, i + 1, call(in));
}

Val Interp::eval(Frame &f, const Value *v) {
  if (--fuel < 0) throw Fuel{};
  if (!h) return evalX(f, v);
  h->evalBegin(f, v);
  Val r = evalX(f, v);
  h->evalEnd(f, v, r);
  return r;
}

Val Interp::evalX(Frame &f, const Value *v) {
  if (auto *x = cast<IntConst>(v)) return Val::I_(x->getVal());
  if (auto *x = cast<FloatConst>(v)) return Val::F_(x->getVal());
  if (auto *x = cast<BoolConst>(v)) return Val::B_(x->getVal());
  if (auto *x = cast<VarValue>(v)) {
    auto *var = x->getVar();
    if (auto *fn = cast<Func>(var)) { Val r; r.k = Val::FN; r.fn = fn; return r; }
    Val r = cell(f, var)->v;
    if (h) h->read(f, x, r);
    return r;
  }
  if (auto *x = cast<PointerValue>(v)) {
    Val r;
    r.k = Val::PTR;
    r.cell = cell(f, x->getVar());
    const T *t = x->getVar()->getType();
    for (auto &fl : x->getFields()) {
      r.path.push_back(fieldIndex(t, fl));
      t = cast<codon::ir::types::MemberedType>(t)->getMemberType(fl);
    }
    return r;
  }
  if (auto *x = cast<CallInstr>(v)) {
    Val fn = eval(f, x->getCallee());
    std::vector<Val> args;
    for (auto *a : *x) args.push_back(eval(f, a));
    if (fn.k != Val::FN || !fn.fn) throw Unsupported{"call of a non-function"};
    return callFn(fn.fn, std::move(args));
  }
  if (auto *x = cast<SeriesFlow>(v)) {
    for (auto *s : *x) eval(f, s);
    return {};
  }
  if (auto *x = cast<AssignInstr>(v)) {
    Val r = eval(f, x->getRhs());
    cell(f, x->getLhs())->v = r;
    if (h) h->assign(f, x->getLhs(), x, r);
    return {};
  }
  if (auto *x = cast<ExtractInstr>(v)) {
    Val o = eval(f, x->getVal());
    int k = fieldIndex(x->getVal()->getType(), x->getField());
    if (o.k == Val::REF) { if (!o.ref) throw Unsupported{"null reference"}; return o.ref->f.at(k); }
    if (o.k != Val::REC) throw Unsupported{"extract"};
    return o.rec.at(k);
  }
  if (auto *x = cast<InsertInstr>(v)) {
    Val o = eval(f, x->getLhs());
    Val r = eval(f, x->getRhs());
    if (o.k != Val::REF || !o.ref) throw Unsupported{"insert"};
    o.ref->f.at(fieldIndex(x->getLhs()->getType(), x->getField())) = r;
    if (h) h->store(o, r);
    return o;
  }
  if (auto *x = cast<IfFlow>(v)) {
    if (eval(f, x->getCond()).i & 1) eval(f, x->getTrueBranch());
    else if (x->getFalseBranch()) eval(f, x->getFalseBranch());
    return {};
  }
  auto body = [&](const Value *b, const Value *loop, bool &brk) { // false: leave the loop
    try { eval(f, b); }
    catch (Brk &e) { if (e.loop && e.loop->getId() != loop->getId()) throw; brk = true; }
    catch (Cnt &e) { if (e.loop && e.loop->getId() != loop->getId()) throw; }
  };
  if (auto *x = cast<WhileFlow>(v)) {
    bool brk = false;
    while (!brk && (eval(f, x->getCond()).i & 1)) body(x->getBody(), x, brk);
    return {};
  }
  if (auto *x = cast<ImperativeForFlow>(v)) {
    int64_t i = eval(f, x->getStart()).i, e = eval(f, x->getEnd()).i;
    bool brk = false;
    while (!brk && (x->getStep() > 0 ? i < e : i > e)) {
      if (--fuel < 0) throw Fuel{};
      Val iv = Val::I_(i);
      cell(f, x->getVar())->v = iv;
      if (h) h->assign(f, x->getVar(), x, iv);
      body(x->getBody(), x, brk);
      i = (int64_t)((uint64_t)i + (uint64_t)x->getStep());
    }
    return {};
  }
  if (auto *x = cast<ForFlow>(v)) {
    Val it = eval(f, x->getIter());
    if (it.k != Val::GEN) throw Unsupported{"for over a non-generator"};
    auto g = it.gen;
    bool brk = false;
    while (!brk && resume(*g)) {
      if (--fuel < 0) throw Fuel{};
      cell(f, x->getVar())->v = g->promise;
      if (h) h->assign(f, x->getVar(), x, g->promise);
      body(x->getBody(), x, brk);
    }
    return {};
  }
  if (auto *x = cast<TryCatchFlow>(v)) return tryFlow(f, x);
  if (auto *x = cast<PipelineFlow>(v)) {
    std::vector<const PipelineFlow::Stage *> st;
    for (auto &s : *x) st.push_back(&s);
    pipeline(f, st, 0, {});
    return {};
  }
  if (auto *x = cast<TernaryInstr>(v)) return (eval(f, x->getCond()).i & 1) ? eval(f, x->getTrueValue()) : eval(f, x->getFalseValue());
  if (auto *x = cast<FlowInstr>(v)) { eval(f, x->getFlow()); return eval(f, x->getValue()); }
  if (auto *x = cast<BreakInstr>(v)) throw Brk{x->getLoop()};
  if (auto *x = cast<ContinueInstr>(v)) throw Cnt{x->getLoop()};
  if (auto *x = cast<ReturnInstr>(v)) {
    Val r;
    if (x->getValue()) r = eval(f, x->getValue());
    throw Ret{r};
  }
  if (auto *x = cast<YieldInstr>(v)) {
    if (!f.coro) throw Unsupported{"yield outside a generator"};
    if (x->getValue()) f.coro->promise = eval(f, x->getValue());
    if (x->isFinal()) throw Final{};
    Coro *c = f.coro;
    swapcontext(&c->ctx, &c->back);
    return {};
  }
  if (auto *x = cast<YieldInInstr>(v)) {
    Coro *c = f.coro;
    if (!c) throw Unsupported{"yield outside a generator"};
    if (x->isSuspending()) swapcontext(&c->ctx, &c->back);
    return c->promise;
  }
  if (auto *x = cast<ThrowInstr>(v)) {
    if (x->getValue()) {
      Val r = eval(f, x->getValue());
      if (h) h->thrown();
      throw Thrown{{const_cast<T *>(r.k == Val::REF && r.ref && r.ref->type ? r.ref->type : x->getValue()->getType()), r}};
    }
    if (f.catches.empty()) throw Unsupported{"rethrow outside a handler"};
    if (h) h->thrown();
    throw Thrown{f.catches.back()};
  }
  if (auto *x = cast<TypePropertyInstr>(v)) {
    auto *t = x->getInspectType();
    std::function<bool(const T *)> atomic = [&](const T *t) -> bool {
      if (cast<codon::ir::types::PrimitiveType>(t)) return true;
      if (auto *r = cast<codon::ir::types::RecordType>(t)) {
        for (auto &fl : *r) if (!atomic(fl.getType())) return false;
        return true;
      }
      return false;
    };
    std::function<int(const T *)> size = [&](const T *t) -> int {
      if (t->getName() == "bool" || t->getName() == "byte") return 1;
      if (auto *r = cast<codon::ir::types::RecordType>(t)) {
        int s = 0;
        for (auto &fl : *r) { int z = size(fl.getType()); s = (s + (z >= 8 ? 8 : z) - 1) / (z >= 8 ? 8 : z) * (z >= 8 ? 8 : z) + z; }
        return (s + 7) / 8 * 8;
      }
      return 8;
    };
    if (x->getProperty() == TypePropertyInstr::SIZEOF) return Val::I_(size(t));
    if (x->getProperty() == TypePropertyInstr::IS_ATOMIC) return Val::B_(atomic(t));
    if (auto *r = cast<codon::ir::types::RefType>(t)) return Val::B_(atomic(r->getContents()));
    return Val::B_(true);
  }
  throw Unsupported{"node " + v->referenceString()};
}

Outcome Interp::run(const Func *fn, std::vector<Val> args) {
  Outcome o;
  try {
    o.ret = callFn(fn, std::move(args));
  } catch (Thrown &t) { o.threw = true; o.excType = t.e.type->getName(); o.ret = t.e.v;
  } catch (Fuel &) { o.fuelOut = true;
  } catch (Unsupported &u) { o.unsupported = u.what;
  }
  o.log = w.log;
  return o;
}
Outcome interpret(Env &env, const Func *fn, std::vector<Val> args, uint64_t seed, long fuel, Hooks *h) {
  Interp in(env, seed, fuel);
  in.h = h;
  return in.run(fn, std::move(args));
}
} // namespace vir
