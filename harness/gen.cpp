// Random, well-formed, terminating IR programs.
#include "ir.h"
#include "codon/cir/util/format.h"
#include <sstream>

namespace vir {
using namespace codon::ir;

struct Gen {
  Env &e;
  pbt::Src &s;
  Opts o;
  Prog p;
  struct FS {
    BodiedFunc *f = nullptr;
    T *ret = nullptr;
    bool gen = false;
    std::vector<Var *> i, f64, b, t, t2, n, pd, fn;
    std::vector<Value *> loops;
    int inCatch = 0, inFin = 0, tryDepth = 0, budget = 0;
    bool noExit = false;
  } c;
  std::vector<std::pair<BodiedFunc *, T *>> callable; // functions with args (int,float)
  Module *M;
  int tag = 0;
  Gen(Env &e, pbt::Src &s, const Opts &o) : e(e), s(s), o(o), M(e.M) {}

  Var *local(T *t, const std::string &n) {
    auto *v = M->Nr<Var>(t, false, false, false, n);
    c.f->push_back(v);
    return v;
  }
  Value *K(int64_t v) { return M->getInt(v); }
  int64_t smallInt() { return s.chance(1, 8) ? s.i64() : s.range(-2, 6); }

  // -------- expressions
  Value *ex(T *t, int d) {
    if (t->is(e.i)) return intE(d);
    if (t->is(e.f)) return fltE(d);
    if (t->is(e.b)) return boolE(d);
    if (t->is(e.tup)) return tupE(d);
    if (e.tup2 && t->is(e.tup2)) return tup2E(d);
    if (t->is(e.node)) return nodeE(d);
    if (e.poly && t->is(e.poly)) return polyE(d);
    return e.zero(t);
  }
  Value *intE(int d) {
    if (d <= 0) {
      switch (s.weighted({3, 3, 1})) {
      case 0: return K(smallInt());
      case 1: return c.i.empty() ? K(1) : e.var(s.pick(c.i));
      default: return p.gi.empty() || !o.glob ? K(smallInt()) : e.var(s.pick(p.gi));
      }
    }
    switch (s.below(19)) {
    case 0: case 1: return K(smallInt());
    case 2: case 3: case 4: return intE(0);
    case 5: return e.call("i+", {intE(d - 1), intE(d - 1)});
    case 6: return e.call("i-", {intE(d - 1), intE(d - 1)});
    case 7: return e.call(s.pick({"i*", "i&", "i|", "i^"}), {intE(d - 1), intE(d - 1)});
    case 8: return e.call(s.pick({"ineg", "i~"}), {intE(d - 1)});
    case 9: { // division with a divisor that is 1..8
      Value *dv = s.flip() ? K(s.range(1, 9)) : e.call("i+", {e.call("i&", {intE(d - 1), K(7)}), K(1)});
      return e.call(s.pick({"i//", "i%"}), {intE(d - 1), dv});
    }
    case 10: return e.call(s.pick({"i<<", "i>>"}), {intE(d - 1), K(s.range(0, 9))});
    case 11:
      if (!o.obs) return intE(d - 1);
      return s.flip() ? e.callF(e.obs, {K(++tag), intE(d - 1)}) : e.callF(e.inp, {K(++tag)});
    case 12: return M->Nr<TernaryInstr>(boolE(d - 1), intE(d - 1), intE(d - 1));
    case 13: return M->Nr<ExtractInstr>(s.flip() ? tupE(d - 1) : tupE(0), "item1");
    case 14:
      if (o.refs) return M->Nr<ExtractInstr>(o.poly && e.poly && s.chance(1, 3) ? polyE(d - 1) : nodeE(d - 1), "a");
      return intE(d - 1);
    case 15: return callE(e.i, d);
    case 16: { // evaluate statements first
      auto *ser = M->Nr<SeriesFlow>();
      auto *val = intE(d - 1);
      auto save = c.noExit;
      c.noExit = true; // leaving the middle of an expression is covered by statements
      int n = (int)s.range(1, 2);
      for (int k = 0; k < n && c.budget > 0; k++) stmt(ser, d - 1);
      c.noExit = save;
      return M->Nr<FlowInstr>(ser, val);
    }
    case 17:
      if (o.ptr) return e.call("pld", {ptrE()});
      return intE(d - 1);
    default: return e.call("b2i", {boolE(d - 1)});
    }
  }
  Value *fltE(int d) {
    if (!o.flt) return M->getFloat(1);
    if (d <= 0) return s.flip() || c.f64.empty() ? M->getFloat(s.chance(1, 6) ? s.f64() : (double)s.range(-4, 8) / 2) : e.var(s.pick(c.f64));
    switch (s.below(11)) {
    case 0: case 1: case 2: return fltE(0);
    case 3: case 4: return e.call(s.pick({"f+", "f-", "f*", "f/"}), {fltE(d - 1), fltE(d - 1)});
    case 5: return e.call("fneg", {fltE(d - 1)});
    case 6: return e.call("i2f", {intE(d - 1)});
    case 7: return o.obs ? e.callF(e.obsf, {K(++tag), fltE(d - 1)}) : fltE(0);
    case 8: return M->Nr<TernaryInstr>(boolE(d - 1), fltE(d - 1), fltE(d - 1));
    case 9: return s.flip() || !o.refs ? M->Nr<ExtractInstr>(tupE(d - 1), "item2") : M->Nr<ExtractInstr>(nodeE(d - 1), "b");
    default: return callE(e.f, d);
    }
  }
  Value *boolE(int d) {
    if (d <= 0) return s.flip() || c.b.empty() ? M->getBool(s.flip()) : e.var(s.pick(c.b));
    switch (s.below(8)) {
    case 0: return boolE(0);
    case 1: case 2: case 3: return e.call(s.pick({"i==", "i!=", "i<", "i<=", "i>", "i>="}), {intE(d - 1), intE(d - 1)});
    case 4: return o.flt ? e.call(s.pick({"f==", "f!=", "f<", "f<=", "f>", "f>="}), {fltE(d - 1), fltE(d - 1)}) : boolE(d - 1);
    case 5: return e.call(s.pick({"b&", "b|", "b^"}), {boolE(d - 1), boolE(d - 1)});
    case 6: return e.call("b~", {boolE(d - 1)});
    default: return M->Nr<TernaryInstr>(boolE(d - 1), boolE(d - 1), boolE(d - 1));
    }
  }
  Value *tupE(int d) {
    if (d <= 0 && !c.t.empty()) return e.var(s.pick(c.t));
    if (d > 1 && e.tup2 && !c.t2.empty() && s.chance(1, 4)) return M->Nr<ExtractInstr>(tup2E(d - 1), "item1");
    if (d > 0 && s.chance(1, 5)) return M->Nr<TernaryInstr>(boolE(d - 1), tupE(d - 1), tupE(d - 1));
    return e.call("tnew", {intE(d - 1), fltE(d - 1)});
  }
  Value *tup2E(int d) {
    if (!c.t2.empty() && (d <= 0 || s.flip())) return e.var(s.pick(c.t2));
    return e.call("t2new", {tupE(d - 1), intE(d - 1)});
  }
  Value *nodeE(int d) {
    if (o.glob && !p.gn.empty() && s.chance(1, 4)) return e.var(s.pick(p.gn));
    if (!c.n.empty() && (d <= 0 || s.chance(3, 4))) return e.var(s.pick(c.n));
    if (d > 0 && s.chance(1, 3)) return M->Nr<TernaryInstr>(boolE(d - 1), nodeE(d - 1), nodeE(d - 1));
    return e.call("nnew", {intE(d - 1)});
  }
  Value *polyE(int d) {
    if (!c.pd.empty() && s.chance(3, 4)) return e.var(s.pick(c.pd));
    return e.call("pnew", {intE(d - 1)});
  }
  Value *ptrE() {
    if (!c.t2.empty() && s.chance(1, 4)) return M->Nr<PointerValue>(s.pick(c.t2), std::vector<std::string>{"item1", "item1"});
    if (!c.t.empty() && s.chance(1, 3)) return M->Nr<PointerValue>(s.pick(c.t), std::vector<std::string>{"item1"});
    if (o.glob && !p.gi.empty() && s.chance(1, 5)) return M->Nr<PointerValue>(s.pick(p.gi));
    return M->Nr<PointerValue>(s.pick(c.i));
  }
  Value *callE(T *t, int d) {
    if (!o.call) return ex(t, d - 1);
    std::vector<BodiedFunc *> fs;
    for (auto &[f, r] : callable)
      if (r->is(t)) fs.push_back(f);
    if (fs.empty()) return ex(t, d - 1);
    auto *f = s.pick(fs);
    if (t->is(e.i) && o.fn && !c.fn.empty() && s.chance(1, 3))
      return M->Nr<CallInstr>(e.var(s.pick(c.fn)), std::vector<Value *>{intE(d - 1), fltE(d - 1)});
    return e.callF(f, {intE(d - 1), fltE(d - 1)});
  }
  /// a generator-typed expression (element type int)
  Value *genE(int d) { return e.callF(s.pick(p.gens), {intE(d - 1), fltE(d - 1)}); }

  // -------- statements
  void block(SeriesFlow *ser, int d, int n) {
    for (int k = 0; k < n && c.budget > 0; k++) stmt(ser, d);
  }
  SeriesFlow *blk(int d, int n) {
    auto *ser = M->Nr<SeriesFlow>();
    block(ser, d, n);
    return ser;
  }
  int len() { return (int)s.range(1, 3); }
  void assign(SeriesFlow *ser, int d) {
    switch (s.weighted({6, o.flt ? 3 : 0, 2, 2, e.tup2 ? 1 : 0, o.refs ? 1 : 0, o.poly && e.poly ? 1 : 0, o.fn && !c.fn.empty() ? 1 : 0, o.glob && !p.gi.empty() ? 2 : 0})) {
    case 0: ser->push_back(M->Nr<AssignInstr>(s.pick(c.i), intE(d))); break;
    case 1: ser->push_back(M->Nr<AssignInstr>(s.pick(c.f64), fltE(d))); break;
    case 2: ser->push_back(M->Nr<AssignInstr>(s.pick(c.b), boolE(d))); break;
    case 3: ser->push_back(M->Nr<AssignInstr>(s.pick(c.t), tupE(d))); break;
    case 4: ser->push_back(M->Nr<AssignInstr>(s.pick(c.t2), tup2E(d))); break;
    case 5: ser->push_back(M->Nr<AssignInstr>(s.pick(c.n), nodeE(d))); break;
    case 6: ser->push_back(M->Nr<AssignInstr>(s.pick(c.pd), polyE(d))); break;
    case 7: ser->push_back(M->Nr<AssignInstr>(s.pick(c.fn), e.var(pickFn()))); break;
    default: {
      if (!p.gn.empty() && s.chance(1, 4)) ser->push_back(M->Nr<AssignInstr>(s.pick(p.gn), nodeE(d)));
      else if (!p.gf.empty() && s.chance(1, 4)) ser->push_back(M->Nr<AssignInstr>(s.pick(p.gf), fltE(d)));
      else ser->push_back(M->Nr<AssignInstr>(s.pick(p.gi), intE(d)));
    }
    }
  }
  Func *pickFn() {
    std::vector<BodiedFunc *> fs;
    for (auto &[f, r] : callable)
      if (r->is(e.i)) fs.push_back(f);
    if (fs.empty()) return nullptr;
    return s.pick(fs);
  }
  bool pickable() const {
    for (auto &[f, r] : callable) if (r->is(e.i)) return true;
    return false;
  }
  bool canExit() const { return !c.noExit && !c.inFin; }
  void stmt(SeriesFlow *ser, int d) {
    if (--c.budget < 0) return;
    if (d <= 0) {
      if (o.obs && s.flip()) ser->push_back(e.callF(e.obs, {K(++tag), intE(0)}));
      else assign(ser, 1);
      return;
    }
    int wTry = o.exc ? (o.moreTry ? 12 : 3) : 0, wGen = o.gens && !p.gens.empty() ? 2 : 0;
    switch (s.weighted({6, 4, 4, 3, 3, wTry, wGen, o.exc ? 2 : 0, 2, !c.loops.empty() ? 3 : 0, c.gen ? 4 : 0, wGen && o.pipe ? 1 : 0, o.refs ? 2 : 0, o.ptr ? 1 : 0, o.voidf ? 1 : 0})) {
    case 0: assign(ser, d); break;
    case 1:
      if (!o.obs) { assign(ser, d); break; }
      if (o.flt && s.chance(1, 4)) ser->push_back(e.callF(e.obsf, {K(++tag), fltE(d)}));
      else ser->push_back(e.callF(e.obs, {K(++tag), intE(d)}));
      break;
    case 2: { // if
      auto *cond = boolE(d - 1);
      auto *t = blk(d - 1, len());
      ser->push_back(M->Nr<IfFlow>(cond, t, s.flip() ? blk(d - 1, len()) : nullptr));
      break;
    }
    case 3: { // bounded while
      auto *ctr = local(e.i, "w" + std::to_string(++tag));
      ser->push_back(M->Nr<AssignInstr>(ctr, K(0)));
      Value *cond = e.call("i<", {e.var(ctr), K(s.range(0, 4))});
      if (s.flip()) cond = s.flip() ? e.call("b&", {cond, boolE(d - 1)}) : M->Nr<TernaryInstr>(cond, boolE(d - 1), M->getBool(false));
      auto *body = M->Nr<SeriesFlow>();
      auto *w = M->Nr<WhileFlow>(cond, body);
      body->push_back(M->Nr<AssignInstr>(ctr, e.call("i+", {e.var(ctr), K(1)})));
      c.loops.push_back(w);
      block(body, d - 1, len());
      c.loops.pop_back();
      ser->push_back(w);
      break;
    }
    case 4: { // counted loop
      Value *st = s.flip() ? K(s.range(-2, 3)) : e.call("i&", {intE(d - 1), K(3)});
      Value *en = s.flip() ? K(s.range(-2, 5)) : e.call("i&", {intE(d - 1), K(3)});
      auto *body = M->Nr<SeriesFlow>();
      auto *var = s.chance(1, 3) ? s.pick(c.i) : local(e.i, "k" + std::to_string(++tag));
      auto *w = M->Nr<ImperativeForFlow>(st, s.pick({1, 2, -1, -2, 3}), en, body, var);
      c.loops.push_back(w);
      bool fresh = std::find(c.i.begin(), c.i.end(), var) == c.i.end();
      if (fresh) c.i.push_back(var);
      block(body, d - 1, len());
      if (fresh) c.i.erase(std::find(c.i.begin(), c.i.end(), var)); // only defined inside the loop
      c.loops.pop_back();
      ser->push_back(w);
      break;
    }
    case 5: tryStmt(ser, d); break;
    case 6: { // for over a generator
      auto *it = genE(d);
      auto *body = M->Nr<SeriesFlow>();
      auto *var = s.chance(1, 3) ? s.pick(c.i) : local(e.i, "g" + std::to_string(++tag));
      auto *w = M->Nr<ForFlow>(it, body, var);
      bool fresh = std::find(c.i.begin(), c.i.end(), var) == c.i.end();
      if (fresh) c.i.push_back(var);
      c.loops.push_back(w);
      block(body, d - 1, len());
      c.loops.pop_back();
      if (fresh) c.i.erase(std::find(c.i.begin(), c.i.end(), var));
      ser->push_back(w);
      break;
    }
    case 7: { // throw, usually conditional
      if (c.inFin) { assign(ser, d); break; }
      Value *th;
      if (c.inCatch && s.chance(1, 3)) th = M->Nr<ThrowInstr>();
      else th = M->Nr<ThrowInstr>(e.call("enew" + std::to_string(s.below(e.exc.size())), {intE(d - 1)}));
      auto *b = M->Nr<SeriesFlow>();
      b->push_back(th);
      ser->push_back(s.chance(1, 4) ? (Value *)th : (Value *)M->Nr<IfFlow>(boolE(d - 1), b));
      break;
    }
    case 8: { // return
      if (!canExit()) { assign(ser, d); break; }
      Value *r = c.gen || !c.ret ? M->Nr<ReturnInstr>() : M->Nr<ReturnInstr>(ex(c.ret, d - 1));
      auto *b = M->Nr<SeriesFlow>();
      b->push_back(r);
      ser->push_back(s.chance(1, 5) ? r : (Value *)M->Nr<IfFlow>(boolE(d - 1), b));
      break;
    }
    case 9: { // break / continue
      if (!canExit()) { assign(ser, d); break; }
      Value *l = s.flip() ? nullptr : s.pick(c.loops);
      Value *x = s.flip() ? (Value *)M->Nr<BreakInstr>(l) : (Value *)M->Nr<ContinueInstr>(l);
      auto *b = M->Nr<SeriesFlow>();
      b->push_back(x);
      ser->push_back(s.chance(1, 5) ? x : (Value *)M->Nr<IfFlow>(boolE(d - 1), b));
      break;
    }
    case 10:
      if (c.inFin) { assign(ser, d); break; }
      if (o.yieldIn && s.chance(1, 6)) { // promise read back without suspension right after a yield
        ser->push_back(M->Nr<YieldInstr>(intE(d - 1)));
        ser->push_back(M->Nr<AssignInstr>(s.pick(c.i), M->Nr<YieldInInstr>(e.i, false)));
      } else if (s.chance(1, 10) && canExit())
        ser->push_back(M->Nr<IfFlow>(boolE(d - 1), util::series((Value *)M->Nr<YieldInstr>(nullptr, true))));
      else
        ser->push_back(M->Nr<YieldInstr>(intE(d - 1)));
      break;
    case 11: { // pipeline: generator |> f |> f
      std::vector<PipelineFlow::Stage> st;
      st.emplace_back(genE(d), std::vector<Value *>{}, true, false);
      bool more = true;
      for (int k = 0; more && k < 3; k++) {
        if (k < 2 && s.chance(1, 4)) {
          st.emplace_back(e.var(s.pick(p.gens)), std::vector<Value *>{nullptr, fltE(d - 1)}, true, false);
        } else if (pickable() && s.chance(1, 3)) {
          st.emplace_back(e.var(pickFn()), std::vector<Value *>{nullptr, fltE(d - 1)}, false, false);
        } else {
          st.emplace_back(e.var(e.obs), std::vector<Value *>{K(++tag), nullptr}, false, false);
        }
        more = s.flip();
      }
      if (st.back().isGenerator()) st.emplace_back(e.var(e.obs), std::vector<Value *>{K(++tag), nullptr}, false, false);
      ser->push_back(M->Nr<PipelineFlow>(st));
      break;
    }
    case 12: { // heap store
      bool po = o.poly && e.poly && s.chance(1, 3);
      auto *tgt = po ? polyE(d - 1) : nodeE(d - 1);
      if (o.flt && s.chance(1, 3)) ser->push_back(M->Nr<InsertInstr>(tgt, "b", fltE(d - 1)));
      else ser->push_back(M->Nr<InsertInstr>(tgt, "a", intE(d - 1)));
      break;
    }
    case 13: ser->push_back(e.call("pst", {ptrE(), intE(d - 1)})); break;
    default: {
      std::vector<BodiedFunc *> fs;
      for (auto &[f, r] : callable) if (o.call) fs.push_back(f);
      if (fs.empty()) { assign(ser, d); break; }
      ser->push_back(e.callF(s.pick(fs), {intE(d - 1), fltE(d - 1)}));
    }
    }
  }
  void tryStmt(SeriesFlow *ser, int d) {
    if (c.inFin && !o.finTry) { assign(ser, d); return; }
    bool fin = o.fin && (o.moreTry ? s.chance(3, 4) : s.flip());
    ++c.tryDepth;
    auto *body = blk(d - 1, len());
    int nc = (int)s.range(fin ? 0 : 1, 3);
    SeriesFlow *els = nullptr, *fn = nullptr;
    std::vector<std::tuple<SeriesFlow *, T *, Var *>> cs;
    std::vector<size_t> order = {0, 1, 2};
    if (s.flip()) std::swap(order[0], order[1]);
    if (s.flip()) std::swap(order[1], order[2]);
    bool all = false;
    for (int k = 0; k < nc; k++) {
      bool ca = !all && s.chance(1, 3);
      T *t = ca ? nullptr : e.exc[order[k]];
      all |= ca;
      Var *v = !ca && s.flip() ? local(t, "x" + std::to_string(++tag)) : nullptr;
      ++c.inCatch;
      auto *hd = M->Nr<SeriesFlow>();
      if (v) hd->push_back(o.obs ? (Value *)e.callF(e.obs, {K(++tag), M->Nr<ExtractInstr>(e.var(v), "a")})
                                 : (Value *)M->Nr<AssignInstr>(s.pick(c.i), M->Nr<ExtractInstr>(e.var(v), "a")));
      block(hd, d - 1, len());
      --c.inCatch;
      cs.emplace_back(hd, t, v);
    }
    if (s.chance(1, 3)) els = blk(d - 1, len());
    --c.tryDepth;
    if (fin) {
      auto loops = c.loops;
      c.loops.clear();
      ++c.inFin;
      int ic = c.inCatch;
      c.inCatch = 0;
      fn = blk(d - 1, len());
      c.inCatch = ic;
      --c.inFin;
      c.loops = loops;
    }
    auto *tc = M->Nr<TryCatchFlow>(body, fn ? fn : M->Nr<SeriesFlow>(), els);
    for (auto &[h, t, v] : cs) tc->push_back(TryCatchFlow::Catch(h, t, v));
    ser->push_back(tc);
  }

  BodiedFunc *function(int k, T *ret, bool gen) {
    c = FS();
    std::string n = (gen ? "gen" : "fun") + std::to_string(k) + "_" + std::to_string(++e.counter);
    c.f = e.func(n, gen ? e.genT(e.i) : (ret ? ret : e.v), {e.i, e.f}, gen);
    c.ret = ret;
    c.gen = gen;
    c.budget = o.stmts;
    auto *body = cast<SeriesFlow>(c.f->getBody());
    auto def = [&](std::vector<Var *> &vs, T *t, const std::string &n, Value *init) {
      auto *v = local(t, n);
      vs.push_back(v);
      body->push_back(M->Nr<AssignInstr>(v, init));
    };
    auto a = c.f->arg_begin();
    Var *a0 = *a++, *a1 = *a;
    def(c.i, e.i, "i0", e.var(a0));
    def(c.i, e.i, "i1", K(s.range(0, 3)));
    c.i.push_back(a0);
    def(c.f64, e.f, "f0", e.var(a1));
    def(c.b, e.b, "b0", M->getBool(false));
    def(c.t, e.tup, "t0", e.zero(e.tup));
    if (e.tup2) def(c.t2, e.tup2, "u0", e.zero(e.tup2));
    if (o.refs) { def(c.n, e.node, "n0", e.call("nnew", {K(1)})); def(c.n, e.node, "n1", e.var(c.n[0])); }
    if (o.poly && e.poly) def(c.pd, e.poly, "p0", e.call("pnew", {K(2)}));
    bool anyInt = false;
    for (auto &[f, r] : callable) anyInt |= r->is(e.i);
    if (o.fn && o.call && anyInt) def(c.fn, pickFn()->getType(), "fp", e.var(pickFn()));
    if (o.recurse && !gen && ret && ret->is(e.i) && s.chance(1, 3)) { // 0 < a0 < 3: call itself with a smaller argument
      auto *v = s.pick(c.i);
      auto *again = M->Nr<AssignInstr>(v, e.callF(c.f, {e.call("i-", {e.var(a0), K(1)}), e.var(a1)}));
      body->push_back(M->Nr<IfFlow>(e.call("b&", {e.call("i<", {K(0), e.var(a0)}), e.call("i<", {e.var(a0), K(3)})}), util::series((Value *)again)));
    }
    block(body, o.depth, (int)s.range(2, 6));
    if (gen) {
      body->push_back(M->Nr<YieldInstr>(intE(1)));
    } else if (ret && (o.fall ? s.chance(4, 5) : s.chance(9, 10)))
      body->push_back(M->Nr<ReturnInstr>(ex(ret, 2)));
    else if (ret && o.fall) p.falls.insert(c.f);
    return c.f;
  }

  void run() {
    if (o.glob) {
      static int gid = 0;
      auto g = [&](T *t, const char *n) {
        auto *v = M->Nr<Var>(t, true, false, s.chance(1, 6) && !e.full, std::string(n) + std::to_string(++gid));
        return v;
      };
      p.gi = {g(e.i, "gi"), g(e.i, "gj")};
      if (o.flt) p.gf = {g(e.f, "gf")};
      if (o.refs) p.gn = {g(e.node, "gn")};
    }
    int n = (int)s.range(1, o.funcs);
    for (int k = 0; k < n; k++) {
      if (o.gens && s.chance(1, 3)) {
        auto *f = function(k, nullptr, true);
        p.gens.push_back(f);
      } else {
        T *ret = s.pick({e.i, e.i, e.f, e.tup, e.b});
        if (!o.flt) ret = e.i;
        if (o.voidf && s.chance(1, 6)) ret = nullptr;
        auto *f = function(k, ret, false);
        p.fns.push_back(f);
        callable.push_back({f, ret && !p.falls.count(f) ? ret : e.v});
      }
    }
    // entry
    c = FS();
    c.f = e.func("entry" + std::to_string(++e.counter), e.i, {});
    p.entry = c.f;
    auto *b = cast<SeriesFlow>(c.f->getBody());
    for (auto *g : p.gi) b->push_back(M->Nr<AssignInstr>(g, K(3)));
    for (auto *g : p.gf) b->push_back(M->Nr<AssignInstr>(g, M->getFloat(0.5)));
    for (auto *g : p.gn) b->push_back(M->Nr<AssignInstr>(g, e.call("nnew", {K(4)})));
    auto guard = [&](SeriesFlow *body, int k) {
      auto *tc = M->Nr<TryCatchFlow>(body, M->Nr<SeriesFlow>());
      for (size_t x = 0; x < e.exc.size(); x++) {
        auto *v = local(e.exc[x], "e");
        tc->push_back(TryCatchFlow::Catch(util::series((Value *)e.callF(e.obs, {K(9000 + 10 * k + (int)x), M->Nr<ExtractInstr>(e.var(v), "a")})), e.exc[x], v));
      }
      b->push_back(tc);
    };
    int k = 0;
    auto observe = [&](Value *v, int tag) -> Value * {
      T *t = v->getType();
      if (t->is(e.i)) return e.callF(e.obs, {K(tag), v});
      if (t->is(e.f)) return e.callF(e.obsf, {K(tag), v});
      if (t->is(e.b)) return e.callF(e.obs, {K(tag), e.call("b2i", {v})});
      if (t->is(e.tup)) {
        auto *x = local(e.tup, "r");
        return M->Nr<FlowInstr>(util::series((Value *)M->Nr<AssignInstr>(x, v), (Value *)e.callF(e.obs, {K(tag), M->Nr<ExtractInstr>(e.var(x), "item1")})),
                                e.callF(e.obsf, {K(tag), M->Nr<ExtractInstr>(e.var(x), "item2")}));
      }
      return v;
    };
    for (auto *f : p.fns) {
      int calls = (int)s.range(1, 2);
      for (int q = 0; q < calls; q++) {
        auto *body = M->Nr<SeriesFlow>();
        Value *cl = e.callF(f, {K(s.range(-3, 6)), M->getFloat((double)s.range(-2, 5) / 2)});
        body->push_back(p.falls.count(f) ? cl : observe(cl, 8000 + k));
        guard(body, ++k);
      }
    }
    for (auto *g : p.gens) {
      auto *body = M->Nr<SeriesFlow>();
      auto *v = local(e.i, "gv");
      auto *ctr = local(e.i, "gc");
      auto *lb = M->Nr<SeriesFlow>();
      body->push_back(M->Nr<AssignInstr>(ctr, K(0)));
      auto *fl = M->Nr<ForFlow>(e.callF(g, {K(s.range(-3, 6)), M->getFloat(1)}), lb, v);
      lb->push_back(e.callF(e.obs, {K(7000 + k), e.var(v)}));
      lb->push_back(M->Nr<AssignInstr>(ctr, e.call("i+", {e.var(ctr), K(1)})));
      lb->push_back(M->Nr<IfFlow>(e.call("i>", {e.var(ctr), K(s.range(1, 12))}), util::series((Value *)M->Nr<BreakInstr>())));
      body->push_back(fl);
      guard(body, ++k);
    }
    for (auto *g : p.gi) b->push_back(e.callF(e.obs, {K(9900), e.var(g)}));
    for (auto *g : p.gf) b->push_back(e.callF(e.obsf, {K(9901), e.var(g)}));
    for (auto *g : p.gn) b->push_back(e.callF(e.obs, {K(9902), M->Nr<ExtractInstr>(e.var(g), "a")}));
    b->push_back(M->Nr<ReturnInstr>(K(0)));
  }
};

Prog generate(Env &env, pbt::Src &src, const Opts &o) {
  Gen g(env, src, o);
  g.run();
  return g.p;
}

std::string dump(const Prog &p) {
  std::ostringstream os;
  for (auto *f : p.fns) { util::format(os, f); os << "\n"; }
  for (auto *f : p.gens) { util::format(os, f); os << "\n"; }
  if (p.entry) util::format(os, p.entry);
  return os.str();
}
} // namespace vir
