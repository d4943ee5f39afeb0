#include "soup.h"
#include "codon/cir/util/cloning.h"
#include "codon/cir/util/format.h"
#include "codon/cir/util/matching.h"
#include <cmath>
#include <cstring>
#include <sstream>

namespace vir {
using codon::SrcInfo;
const char MyInstr::NodeId = 0;
const char MyFlow::NodeId = 0;
const char MyConst::NodeId = 0;
bool MyInstr::match(const Value *o) const {
  auto *m = cast<MyInstr>(o);
  return m && m->k == k && m->v->getId() == v->getId() && m->t->is(t) && util::match(const_cast<Value *>(static_cast<const Value *>(x)), m->x);
}
Value *MyInstr::doClone(util::CloneVisitor &cv) const { return getModule()->N<MyInstr>(this, cv.clone(x), cv.clone(v), t, k, getName()); }
std::ostream &MyInstr::doFormat(std::ostream &os) const { return os << "(myinstr " << k << " " << v->referenceString() << " " << t->getName() << " " << *x << ")"; }
bool MyFlow::match(const Value *o) const {
  auto *m = cast<MyFlow>(o);
  return m && m->k == k && util::match(const_cast<Value *>(static_cast<const Value *>(x)), m->x);
}
Value *MyFlow::doClone(util::CloneVisitor &cv) const { return getModule()->N<MyFlow>(this, cv.clone(x), k, getName()); }
std::ostream &MyFlow::doFormat(std::ostream &os) const { return os << "(myflow " << k << " " << *x << ")"; }
bool MyConst::match(const Value *o) const { auto *m = cast<MyConst>(o); return m && m->k == k && m->getType()->is(getType()); }
Value *MyConst::doClone(util::CloneVisitor &cv) const { return getModule()->N<MyConst>(this, k, getType(), getName()); }
std::ostream &MyConst::doFormat(std::ostream &os) const { return os << "(myconst " << k << ")"; }

static void schedDesc(Desc &d, const transform::parallel::OMPSched *s) {
  if (!s) { d.unprinted += " nosched"; d.scalars += " seq"; return; }
  std::ostringstream os;
  os << " sched " << s->code << s->dynamic << s->ordered << "," << s->collapse << "," << s->gpu;
  d.scalars += " par";
  d.unprinted += os.str();
  d.kids.push_back(s->threads);
  d.kids.push_back(s->chunk);
}
static std::string fbits(double x) {
  uint64_t u;
  memcpy(&u, &x, 8);
  if (std::isnan(x)) u = 0x7ff8000000000000ull;
  return std::to_string(u);
}
Desc describe(const Value *v) {
  Desc d;
  auto T_ = [&](const T *t) {
    d.typeNames.push_back(t ? t->getName() : "-");
    if (t) d.types.push_back(const_cast<T *>(t));
  };
  if (auto *x = cast<IntConst>(v)) { d.kind = "int"; d.scalars = std::to_string(x->getVal()); T_(x->getType()); }
  else if (auto *x = cast<FloatConst>(v)) { d.kind = "float"; d.scalars = fbits(x->getVal()); T_(x->getType()); }
  else if (auto *x = cast<BoolConst>(v)) { d.kind = "bool"; d.scalars = std::to_string(x->getVal()); T_(x->getType()); }
  else if (auto *x = cast<StringConst>(v)) { d.kind = "str"; d.scalars = x->getVal(); T_(x->getType()); }
  else if (auto *x = cast<MyConst>(v)) { d.kind = "myconst"; d.scalars = std::to_string(x->k); T_(x->getType()); }
  else if (auto *x = cast<MyInstr>(v)) { d.kind = "myinstr"; d.scalars = std::to_string(x->k); d.kids = {x->x}; d.vars = {x->v}; T_(x->t); }
  else if (auto *x = cast<MyFlow>(v)) { d.kind = "myflow"; d.scalars = std::to_string(x->k); d.kids = {x->x}; }
  else if (auto *x = cast<VarValue>(v)) { d.kind = "var"; d.vars = {x->getVar()}; }
  else if (auto *x = cast<PointerValue>(v)) {
    d.kind = "ptr"; d.vars = {x->getVar()};
    d.scalars = std::to_string(x->getFields().size());
    for (auto &f : x->getFields()) d.scalars += "/" + f;
  }
  else if (auto *x = cast<SeriesFlow>(v)) { d.kind = "series"; for (auto *k : *x) d.kids.push_back(k); }
  else if (auto *x = cast<IfFlow>(v)) { d.kind = "if"; d.kids = {x->getCond(), x->getTrueBranch(), x->getFalseBranch()}; }
  else if (auto *x = cast<WhileFlow>(v)) { d.kind = "while"; d.kids = {x->getCond(), x->getBody()}; }
  else if (auto *x = cast<ForFlow>(v)) {
    d.kind = "for"; d.kids = {x->getIter(), x->getBody()}; d.vars = {x->getVar()}; d.scalars = std::to_string(x->isAsync());
    schedDesc(d, x->getSchedule());
  }
  else if (auto *x = cast<ImperativeForFlow>(v)) {
    d.kind = "impfor"; d.kids = {x->getStart(), x->getEnd(), x->getBody()}; d.vars = {x->getVar()}; d.scalars = std::to_string(x->getStep());
    schedDesc(d, x->getSchedule());
  }
  else if (auto *x = cast<TryCatchFlow>(v)) {
    d.kind = "try"; d.kids = {x->getBody(), x->getElse(), x->getFinally()};
    for (auto &c : *x) { d.kids.push_back(c.getHandler()); T_(c.getType()); d.vars.push_back(c.getVar()); }
  }
  else if (auto *x = cast<PipelineFlow>(v)) {
    d.kind = "pipe";
    for (auto &s : *x) {
      d.scalars += std::string("|") + (s.isGenerator() ? "g" : "f") + (s.isParallel() ? "p" : "s");
      d.kids.push_back(s.getCallee());
      int n = 0;
      for (auto *a : s) { d.kids.push_back(a); ++n; }
      d.scalars += std::to_string(n);
    }
  }
  else if (auto *x = cast<AssignInstr>(v)) { d.kind = "assign"; d.vars = {x->getLhs()}; d.kids = {x->getRhs()}; }
  else if (auto *x = cast<ExtractInstr>(v)) { d.kind = "extract"; d.kids = {x->getVal()}; d.scalars = x->getField(); }
  else if (auto *x = cast<InsertInstr>(v)) { d.kind = "insert"; d.kids = {x->getLhs(), x->getRhs()}; d.scalars = x->getField(); }
  else if (auto *x = cast<CallInstr>(v)) { d.kind = "call"; d.kids = {x->getCallee()}; for (auto *a : *x) d.kids.push_back(a); }
  else if (auto *x = cast<StackAllocInstr>(v)) { d.kind = "salloc"; d.scalars = std::to_string(x->getCount()); T_(x->getArrayType()); }
  else if (auto *x = cast<TypePropertyInstr>(v)) { d.kind = "prop"; d.scalars = std::to_string((int)x->getProperty()); T_(x->getInspectType()); }
  else if (auto *x = cast<YieldInInstr>(v)) { d.kind = "yieldin"; d.unprinted = std::to_string(x->isSuspending()); T_(x->getType()); }
  else if (auto *x = cast<TernaryInstr>(v)) { d.kind = "tern"; d.kids = {x->getCond(), x->getTrueValue(), x->getFalseValue()}; }
  else if (auto *x = cast<BreakInstr>(v)) { d.kind = "break"; d.loops = {x->getLoop()}; }
  else if (auto *x = cast<ContinueInstr>(v)) { d.kind = "continue"; d.loops = {x->getLoop()}; }
  else if (auto *x = cast<ReturnInstr>(v)) { d.kind = "return"; d.kids = {x->getValue()}; }
  else if (auto *x = cast<YieldInstr>(v)) { d.kind = "yield"; d.kids = {x->getValue()}; d.unprinted = std::to_string(x->isFinal()); }
  else if (auto *x = cast<AwaitInstr>(v)) { d.kind = "await"; d.kids = {x->getValue()}; d.scalars = std::to_string(x->isGenerator()); T_(x->getType()); }
  else if (auto *x = cast<ThrowInstr>(v)) { d.kind = "throw"; d.kids = {x->getValue()}; }
  else if (auto *x = cast<FlowInstr>(v)) { d.kind = "flowinstr"; d.kids = {x->getFlow(), x->getValue()}; }
  else d.kind = "?";
  return d;
}
Desc describe(const Var *v) {
  Desc d;
  auto T_ = [&](const T *t) {
    d.typeNames.push_back(t ? t->getName() : "-");
    if (t) d.types.push_back(const_cast<T *>(t));
  };
  std::ostringstream os;
  os << v->isGlobal() << v->isExternal() << v->isThreadLocal();
  T_(v->getType());
  if (auto *f = cast<Func>(v)) {
    os << f->isGenerator() << f->isAsync() << "/" << f->getUnmangledName();
    T_(f->getParentType());
    for (auto it = f->arg_begin(); it != f->arg_end(); ++it) d.vars.push_back(*it);
    os << "/" << d.vars.size();
    if (auto *b = cast<BodiedFunc>(f)) {
      d.kind = "bodied";
      os << b->isJIT();
      for (auto *x : *b) d.vars.push_back(x);
      d.kids = {b->getBody()};
    } else if (auto *l = cast<LLVMFunc>(f)) {
      d.kind = "llvm";
      os << "/" << l->getLLVMBody() << "/" << l->getLLVMDeclarations();
      for (auto it = l->literal_begin(); it != l->literal_end(); ++it) {
        if (it->isType()) { os << "/T"; T_(it->getTypeValue()); }
        else if (it->isStatic()) os << "/I" << it->getStaticValue();
        else os << "/S" << it->getStaticStringValue();
      }
    } else if (isA<ExternalFunc>(f)) d.kind = "external";
    else if (isA<InternalFunc>(f)) d.kind = "internal";
    else d.kind = "func";
  } else d.kind = "variable";
  d.scalars = os.str();
  return d;
}

static std::vector<const Value *> attrValues(const Node *n) {
  std::vector<const Value *> r;
  if (auto *a = n->getAttribute<TupleLiteralAttribute>()) for (auto *x : a->elements) r.push_back(x);
  if (auto *a = n->getAttribute<ListLiteralAttribute>()) for (auto &x : a->elements) r.push_back(x.value);
  if (auto *a = n->getAttribute<SetLiteralAttribute>()) for (auto &x : a->elements) r.push_back(x.value);
  if (auto *a = n->getAttribute<DictLiteralAttribute>()) for (auto &x : a->elements) { r.push_back(x.key); r.push_back(x.value); }
  if (auto *a = n->getAttribute<PartialFunctionAttribute>()) for (auto *x : a->args) r.push_back(x);
  return r;
}
std::string attrText(const Node *n, bool withValues) {
  std::map<std::string, std::string> m;
  auto put = [&](const std::string &k, const std::string &v) { m[k] = v; };
  if (auto *a = n->getAttribute<SrcInfoAttribute>())
    put("src", a->info.file + ":" + std::to_string(a->info.line) + ":" + std::to_string(a->info.col) + ":" + std::to_string(a->info.len));
  if (auto *a = n->getAttribute<StringValueAttribute>()) put("string", a->value);
  if (auto *a = n->getAttribute<DocstringAttribute>()) put("doc", a->docstring);
  if (auto *a = n->getAttribute<IntValueAttribute>()) put("int", std::to_string(a->value));
  if (auto *a = n->getAttribute<KeyValueAttribute>()) {
    std::map<std::string, std::string> o(a->attributes.begin(), a->attributes.end());
    std::string s;
    for (auto &[k, v] : o) s += k + "=" + v + ";";
    put("kv", s);
  }
  if (auto *a = n->getAttribute<StringListAttribute>()) { std::string s; for (auto &x : a->values) s += x + ";"; put("list", s); }
  if (auto *a = n->getAttribute<MemberAttribute>()) {
    std::string s;
    for (auto &[k, v] : a->memberSrcInfo) s += k + "=" + v.file + ":" + std::to_string(v.line) + ";";
    put("member", s);
  }
  if (auto *a = n->getAttribute<TupleLiteralAttribute>()) put("tuple", std::to_string(a->elements.size()));
  auto stars = [](auto &es) { std::string s; for (auto &x : es) s += x.star ? "*" : "."; return s; };
  if (auto *a = n->getAttribute<ListLiteralAttribute>()) put("listlit", stars(a->elements));
  if (auto *a = n->getAttribute<SetLiteralAttribute>()) put("setlit", stars(a->elements));
  if (auto *a = n->getAttribute<DictLiteralAttribute>()) put("dictlit", std::to_string(a->elements.size()));
  if (auto *a = n->getAttribute<PartialFunctionAttribute>()) put("partial", a->name + std::to_string(a->args.size()));
  std::string s;
  for (auto &[k, v] : m) s += k + "{" + v + "}";
  if (withValues)
    for (auto *v : attrValues(n)) s += v ? "<" + std::to_string(v->getId()) + ">" : "<>";
  return s;
}

static void dumpInto(std::ostringstream &os, const Value *v, std::set<codon::ir::id_t> &seen, int depth) {
  if (!v) { os << "null "; return; }
  os << "(#" << v->getId();
  if (!seen.insert(v->getId()).second || depth > 60) { os << ")"; return; }
  Desc d = describe(v);
  os << " " << d.kind << " '" << v->getName() << "' " << d.scalars << " " << d.unprinted << " " << attrText(v, true);
  for (auto &t : d.typeNames) os << " :" << t;
  for (auto *x : d.vars) os << " $" << (x ? x->getId() : -1);
  for (auto *x : d.loops) os << " @" << (x ? x->getId() : -1);
  for (auto *k : d.kids) dumpInto(os, k, seen, depth + 1);
  for (auto *k : attrValues(v)) dumpInto(os, k, seen, depth + 1);
  os << ")";
}
std::string fullDump(const Value *v) {
  std::ostringstream os;
  std::set<codon::ir::id_t> seen;
  dumpInto(os, v, seen, 0);
  return os.str();
}
std::string fullDump(const Func *f) {
  std::ostringstream os;
  auto var = [&](const Var *x) {
    Desc d = describe(x);
    os << "[" << x->getId() << " " << d.kind << " " << x->getName() << " " << d.scalars << " " << attrText(x, true);
    for (auto &t : d.typeNames) os << " :" << t;
    os << "]";
  };
  var(f);
  for (auto *v : describe(f).vars) var(v);
  std::set<codon::ir::id_t> seen;
  for (auto *k : attrValues(f)) dumpInto(os, k, seen, 0);
  for (auto *k : describe(f).kids) dumpInto(os, k, seen, 0);
  return os.str();
}

bool TreeCmp::attrs(const Node *a, const Node *b, const std::string &path) {
  auto ta = attrText(a, false), tb = attrText(b, false);
  if (ta != tb) { err = path + ": attributes " + ta + " / " + tb; return false; }
  auto va = attrValues(a), vb = attrValues(b);
  for (size_t i = 0; i < va.size(); i++)
    if (!same(va[i], vb[i], path + "/attr" + std::to_string(i))) return false;
  return true;
}
bool TreeCmp::same(const Value *a, const Value *b, const std::string &path) {
  auto no = [&](const std::string &w) { if (err.empty()) err = path + ": " + w; return false; };
  if (!a || !b) return (!a && !b) ? true : no("null against a node");
  auto it = vals.find(a->getId());
  if (it != vals.end() && fresh) return it->second->getId() == b->getId() ? true : no("one node has two images");
  vals[a->getId()] = b;
  if (fresh && a->getId() == b->getId()) return no("same node on both sides");
  Desc x = describe(a), y = describe(b);
  if (printedOnly) {
    auto konst = [](const Value *v) -> std::string {
      if (auto *c = cast<IntConst>(v)) return fmt::format("{}", c->getVal());
      if (auto *c = cast<FloatConst>(v)) return fmt::format("{}", c->getVal());
      return "";
    };
    if (auto k = konst(a); !k.empty() && k == konst(b)) return true;
    for (auto *d : {&x, &y}) {
      d->unprinted.clear();
      d->loops.clear();
      if (isA<Const>(a)) d->typeNames.clear();
      if (d->kind == "for") d->kids.resize(2);
      if (d->kind == "impfor") d->kids.resize(3);
      if (d->kind == "prop" && d->scalars == "1") d->scalars = "unknown";
    }
  }
  if (x.kind != y.kind) return no("kind " + x.kind + " / " + y.kind);
  if (x.scalars != y.scalars || x.unprinted != y.unprinted) return no(x.kind + " fields '" + x.scalars + x.unprinted + "' / '" + y.scalars + y.unprinted + "'");
  if (x.typeNames != y.typeNames) return no(x.kind + " types");
  if ((strict || valueNames) && a->getName() != b->getName()) return no(x.kind + " name '" + a->getName() + "' / '" + b->getName() + "'");
  if (x.vars.size() != y.vars.size() || x.kids.size() != y.kids.size()) return no(x.kind + " size");
  for (size_t i = 0; i < x.vars.size(); i++) {
    if (!x.vars[i] || !y.vars[i]) { if (x.vars[i] || y.vars[i]) return no("variable against none"); continue; }
    if (!varOK(x.vars[i], y.vars[i])) return no(x.kind + " variable " + x.vars[i]->referenceString() + " / " + y.vars[i]->referenceString());
  }
  loopPairs.push_back({a, b});
  bool ok = true;
  for (size_t i = 0; ok && i < x.loops.size(); i++) {
    auto *p = x.loops[i], *q = y.loops[i];
    if (!p || !q) { ok = !p && !q; if (!ok) no("loop of " + x.kind); continue; }
    bool found = false;
    for (auto l = loopPairs.rbegin(); l != loopPairs.rend(); ++l)
      if (l->first->getId() == p->getId() || l->second->getId() == q->getId()) {
        found = true;
        ok = l->first->getId() == p->getId() && l->second->getId() == q->getId();
        break;
      }
    if (!found) ok = p->getId() == q->getId();
    if (!ok) no("loop of " + x.kind);
  }
  for (size_t i = 0; ok && i < x.kids.size(); i++) ok = same(x.kids[i], y.kids[i], path + "/" + x.kind + std::to_string(i));
  if (ok && strict) ok = attrs(a, b, path + "/" + x.kind);
  loopPairs.pop_back();
  return ok;
}

std::vector<Value *> allValues(Value *root) {
  std::vector<Value *> r;
  std::set<codon::ir::id_t> seen;
  std::function<void(Value *)> go = [&](Value *v) {
    if (!v || !seen.insert(v->getId()).second) return;
    r.push_back(v);
    for (auto *k : describe(v).kids) go(const_cast<Value *>(k));
  };
  go(root);
  return r;
}

// ------------------------------------------------------------------ generation
Soup::Soup(Env &e, pbt::Src &s) : e(e), s(s), M(e.M) {
  ts = {e.i, e.f, e.b, e.tup, e.node, e.pi, e.exc[0], e.exc[1], e.exc[2], M->getByteType()};
  auto c = e.M->getCache();
  (void)c;
  for (int k = 0; k < 3; k++)
    globals.push_back(deco(M->Nr<Var>(type(), true, s.flip(), s.flip(), "g" + std::to_string(k))));
  funcs = {e.obs, e.obsf, e.inp, e.p["i+"], e.p["i-"], e.p["f+"], e.p["tnew"]};
}
std::string Soup::name() {
  static const char *n[] = {"", "a", "b", "x.y", "loop"};
  return n[s.below(5)];
}
static std::string word(pbt::Src &s) {
  static const char *n[] = {"", "k", "item1", "v\"q", "two words", "a\\b", "\n"};
  return n[s.below(7)];
}
void Soup::decorate(Node *n) {
  if (s.chance(1, 4)) n->setName(name());
  if (s.chance(1, 3)) {
    SrcInfo i;
    i.file = s.flip() ? "a.codon" : "b.codon";
    i.line = (int)s.range(1, 9);
    i.col = (int)s.range(1, 5);
    i.len = (int)s.range(0, 3);
    n->setSrcInfo(i);
  }
  if (!attrsOn || !s.chance(1, 4)) return;
  // literal attributes refer to operands of the node they sit on
  auto val = [&]() -> Value * {
    std::vector<Value *> ks;
    if (auto *v = cast<Value>(n))
      for (auto *k : describe(v).kids)
        if (k) ks.push_back(const_cast<Value *>(k));
    return ks.empty() ? M->getInt(1) : s.pick(ks);
  };
  switch (s.below(10)) {
  case 0: n->setAttribute(std::make_unique<IntValueAttribute>(s.range(-3, 9))); break;
  case 1: n->setAttribute(std::make_unique<StringValueAttribute>(word(s))); break;
  case 2: n->setAttribute(std::make_unique<DocstringAttribute>(word(s))); break;
  case 3: n->setAttribute(std::make_unique<KeyValueAttribute>(std::unordered_map<std::string, std::string>{{word(s), word(s)}, {"z", word(s)}})); break;
  case 4: n->setAttribute(std::make_unique<StringListAttribute>(std::vector<std::string>{word(s), word(s)})); break;
  case 5: {
    SrcInfo i;
    i.file = word(s);
    i.line = (int)s.range(0, 9);
    n->setAttribute(std::make_unique<MemberAttribute>(std::map<std::string, SrcInfo>{{word(s), i}}));
    break;
  }
  case 6: { std::vector<Value *> v; int k = (int)s.range(0, 2); while (k--) v.push_back(val()); n->setAttribute(std::make_unique<TupleLiteralAttribute>(v)); break; }
  case 7: {
    std::vector<LiteralElement> v;
    int k = (int)s.range(0, 2);
    while (k--) v.push_back({val(), s.flip()});
    if (s.flip()) n->setAttribute(std::make_unique<ListLiteralAttribute>(v));
    else n->setAttribute(std::make_unique<SetLiteralAttribute>(v));
    break;
  }
  case 8: {
    std::vector<DictLiteralAttribute::KeyValuePair> v;
    int k = (int)s.range(0, 2);
    while (k--) v.push_back({val(), s.flip() ? val() : nullptr});
    n->setAttribute(std::make_unique<DictLiteralAttribute>(v));
    break;
  }
  default: {
    std::vector<Value *> v;
    int k = (int)s.range(0, 2);
    while (k--) v.push_back(s.flip() ? val() : nullptr);
    n->setAttribute(std::make_unique<PartialFunctionAttribute>(word(s), v));
  }
  }
}
Var *Soup::local() {
  if (!locals.empty() && s.chance(2, 3)) return s.pick(locals);
  if (!cur) return s.pick(globals);
  auto *v = deco(M->Nr<Var>(type(), false, s.chance(1, 6), s.chance(1, 6), "v" + std::to_string(locals.size())));
  locals.push_back(v);
  cur->push_back(v);
  return v;
}
Var *Soup::anyVar() {
  switch (s.weighted({4, 2, 1})) {
  case 0: return local();
  case 1: return s.pick(globals);
  default: return s.pick(funcs);
  }
}
std::unique_ptr<transform::parallel::OMPSched> Soup::sched(int d) {
  if (!s.chance(1, 3)) return {};
  auto r = std::make_unique<transform::parallel::OMPSched>((int)s.range(1, 40), s.flip(), s.flip() ? value(d - 1) : nullptr, s.flip() ? value(d - 1) : nullptr, s.flip(),
                                                           s.range(0, 3), s.flip());
  return r;
}
SeriesFlow *Soup::series(int d) {
  auto *r = M->Nr<SeriesFlow>();
  int n = (int)s.range(0, 3);
  while (n-- && budget > 0) r->push_back(value(d - 1));
  return deco(r);
}
Flow *Soup::flow(int d) {
  if (d <= 0 || --budget <= 0) return deco(M->Nr<SeriesFlow>());
  switch (s.weighted({4, 2, 2, 2, 2, 2, 1, 1})) {
  case 0: return series(d);
  case 1: return deco(M->Nr<IfFlow>(value(d - 1), flow(d - 1), optFlow(d - 1)));
  case 2: {
    auto *w = M->Nr<WhileFlow>(value(d - 1), nullptr);
    loops.push_back(w);
    w->setBody(flow(d - 1));
    loops.pop_back();
    return deco(w);
  }
  case 3: {
    auto *w = M->Nr<ForFlow>(value(d - 1), nullptr, local());
    loops.push_back(w);
    w->setBody(flow(d - 1));
    loops.pop_back();
    w->setSchedule(sched(d));
    w->setAsync(s.flip());
    return deco(w);
  }
  case 4: {
    auto *w = M->Nr<ImperativeForFlow>(value(d - 1), s.range(-2, 3), value(d - 1), nullptr, local());
    loops.push_back(w);
    w->setBody(flow(d - 1));
    loops.pop_back();
    w->setSchedule(sched(d));
    return deco(w);
  }
  case 5: {
    auto *t = M->Nr<TryCatchFlow>(flow(d - 1), optFlow(d - 1), optFlow(d - 1));
    int n = (int)s.range(0, 3);
    while (n--) t->emplace_back(flow(d - 1), s.flip() ? type() : nullptr, s.flip() ? local() : nullptr);
    return deco(t);
  }
  case 6: {
    std::vector<PipelineFlow::Stage> st;
    int n = (int)s.range(1, 3);
    for (int k = 0; k < n; k++) {
      std::vector<Value *> a;
      int m = (int)s.range(0, 2);
      while (m--) a.push_back(opt(d - 1));
      st.emplace_back(value(d - 1), a, s.flip(), s.flip());
    }
    return deco(M->Nr<PipelineFlow>(st));
  }
  default: return deco(M->Nr<MyFlow>(plainCustom ? M->getInt(3) : value(d - 1), s.range(0, 3)));
  }
}
Value *Soup::value(int d) {
  if (share && !made.empty() && s.chance(1, 12)) return s.pick(made);
  Value *r = nullptr;
  if (d <= 0 || --budget <= 0) {
    switch (s.below(8)) {
    case 0: case 1: r = M->Nr<VarValue>(anyVar()); break;
    case 2: r = M->Nr<PointerValue>(local(), s.flip() ? std::vector<std::string>{} : std::vector<std::string>{s.pick({std::string("item1"), std::string("a")})}); break;
    case 3: r = M->getFloat(s.f64()); break;
    case 4: r = M->getBool(s.flip()); break;
    case 5: r = M->getString(word(s)); break;
    case 6: r = M->Nr<MyConst>(s.range(0, 3), type()); break;
    default: r = M->Nr<IntConst>(s.i64(), s.chance(1, 4) ? type() : e.i);
    }
    if (budget > 0) decorate(r);
    made.push_back(r);
    return r;
  }
  switch (s.below(19)) {
  case 0: case 1: return value(0);
  case 2: case 3: return flow(d);
  case 4: r = M->Nr<AssignInstr>(local(), value(d - 1)); break;
  case 5: r = M->Nr<ExtractInstr>(value(d - 1), s.pick({std::string("a"), std::string("b"), std::string("item1")})); break;
  case 6: r = M->Nr<InsertInstr>(value(d - 1), s.pick({std::string("a"), std::string("b")}), value(d - 1)); break;
  case 7: case 8: {
    std::vector<Value *> a;
    int n = (int)s.range(0, 3);
    while (n--) a.push_back(value(d - 1));
    r = M->Nr<CallInstr>(s.chance(1, 5) ? value(d - 1) : (Value *)M->Nr<VarValue>(s.pick(funcs)), a);
    break;
  }
  case 9: r = M->Nr<StackAllocInstr>(type(), s.range(0, 9)); break;
  case 10: r = M->Nr<TypePropertyInstr>(type(), s.pick({TypePropertyInstr::IS_ATOMIC, TypePropertyInstr::IS_CONTENT_ATOMIC, TypePropertyInstr::SIZEOF})); break;
  case 11: r = M->Nr<YieldInInstr>(type(), s.flip()); break;
  case 12: r = M->Nr<TernaryInstr>(value(d - 1), value(d - 1), value(d - 1)); break;
  case 13: {
    Value *l = loops.empty() || share || !exitTargets || s.chance(1, 3) ? nullptr : s.pick(loops);
    if (s.flip()) r = M->Nr<BreakInstr>(l);
    else r = M->Nr<ContinueInstr>(l);
    break;
  }
  case 14: r = M->Nr<ReturnInstr>(opt(d - 1)); break;
  case 15: r = M->Nr<YieldInstr>(opt(d - 1), s.flip()); break;
  case 16: r = s.flip() ? (Value *)M->Nr<AwaitInstr>(value(d - 1), type(), s.flip()) : M->Nr<ThrowInstr>(opt(d - 1)); break;
  case 17: r = M->Nr<FlowInstr>(flow(d - 1), value(d - 1)); break;
  default: r = M->Nr<MyInstr>(plainCustom ? M->getInt(4) : value(d - 1), plainCustom ? globals[0] : local(), type(), s.range(0, 3));
  }
  decorate(r);
  made.push_back(r);
  return r;
}
BodiedFunc *Soup::bodied(int d) {
  auto *f = M->Nr<BodiedFunc>("f" + std::to_string(e.counter++));
  auto oldCur = cur;
  auto oldL = locals;
  auto oldLoops = loops;
  auto oldMade = made;
  cur = f;
  locals.clear();
  loops.clear();
  made.clear();
  std::vector<T *> as;
  std::vector<std::string> ns;
  int n = (int)s.range(0, 3);
  for (int k = 0; k < n; k++) { as.push_back(type()); ns.push_back(s.chance(1, 8) ? "arg0" : "arg" + std::to_string(k)); }
  f->realize(e.fty(type(), as), ns);
  for (auto it = f->arg_begin(); it != f->arg_end(); ++it) locals.push_back(*it);
  f->setUnmangledName(word(s));
  f->setGenerator(s.chance(1, 3));
  f->setAsync(s.chance(1, 3));
  f->setJIT(s.chance(1, 4));
  if (s.flip()) f->setParentType(type());
  funcs.push_back(f); // recursion
  if (!s.chance(1, 12)) f->setBody(s.chance(1, 4) ? flow(d) : series(d));
  funcs.pop_back();
  decorate(f);
  cur = oldCur;
  locals = oldL;
  loops = oldLoops;
  made = oldMade;
  return f;
}
Func *Soup::other() {
  std::vector<T *> as;
  std::vector<std::string> ns;
  int n = (int)s.range(0, 3);
  for (int k = 0; k < n; k++) { as.push_back(type()); ns.push_back("arg" + std::to_string(k)); }
  Func *f;
  switch (s.below(3)) {
  case 0: f = M->Nr<ExternalFunc>("x" + std::to_string(e.counter++)); break;
  case 1: f = M->Nr<InternalFunc>("n" + std::to_string(e.counter++)); break;
  default: {
    auto *l = M->Nr<LLVMFunc>("l" + std::to_string(e.counter++));
    l->setLLVMBody("ret " + word(s));
    l->setLLVMDeclarations(word(s));
    std::vector<types::Generic> lits;
    int k = (int)s.range(0, 3);
    while (k--)
      switch (s.below(3)) {
      case 0: lits.emplace_back(s.range(-2, 5)); break;
      case 1: lits.emplace_back(word(s)); break;
      default: lits.emplace_back(type());
      }
    l->setLLVMLiterals(lits);
    f = l;
  }
  }
  f->realize(e.fty(type(), as), ns);
  f->setUnmangledName(word(s));
  f->setGenerator(s.chance(1, 3));
  f->setAsync(s.chance(1, 3));
  if (s.flip()) f->setParentType(type());
  decorate(f);
  return f;
}

std::string Soup::mutateFunc(Func *f) {
  switch (s.below(7)) {
  case 0: f->setGenerator(!f->isGenerator()); return "generator";
  case 1: f->setAsync(!f->isAsync()); return "async";
  case 2: f->setUnmangledName(f->getUnmangledName() + "_"); return "unmangled";
  case 3: f->setParentType(f->getParentType() ? nullptr : e.i); return "parent";
  case 4: f->setName(f->getName() + "_"); return "name";
  case 5: if (auto *a = f->getAttribute<KeyValueAttribute>()) a->attributes["new"] = "1"; else f->setAttribute(std::make_unique<IntValueAttribute>(77)); return "attr";
  default:
    if (auto *b = cast<BodiedFunc>(f)) { b->setJIT(!b->isJIT()); return "jit"; }
    if (auto *l = cast<LLVMFunc>(f)) { l->setLLVMBody(l->getLLVMBody() + " "); return "llvm body"; }
    f->setGlobal(!f->isGlobal());
    return "global";
  }
}

std::string Soup::mutate(Value *v, bool &printed) {
  printed = true;
  auto L = [&]() -> Value * { budget = 3; return value(0); };
  auto F = [&]() -> Flow * { budget = 4; return flow(1); };
  auto schedMut = [&](auto *x) -> std::string {
    printed = false;
    if (!x->getSchedule()) { x->setParallel(); printed = true; return "parallel"; }
    auto *c = x->getSchedule();
    switch (s.below(8)) {
    case 0: c->code += 1; return "sched code";
    case 1: c->dynamic = !c->dynamic; return "sched dynamic";
    case 2: c->threads = c->threads ? nullptr : L(); return "sched threads";
    case 3: c->chunk = c->chunk ? nullptr : L(); return "sched chunk";
    case 4: c->ordered = !c->ordered; return "sched ordered";
    case 5: c->collapse += 1; return "sched collapse";
    case 6: c->gpu = !c->gpu; return "sched gpu";
    default: x->setParallel(false); printed = true; return "sequential";
    }
  };
  if (auto *x = cast<IntConst>(v)) { x->setVal(s.flip() ? x->getVal() ^ (1ll << s.below(64)) : L()->getId()); return "int value"; }
  if (auto *x = cast<FloatConst>(v)) { if (std::isnan(x->getVal())) x->setVal(1.5); else x->setVal(s.chance(1, 3) ? -x->getVal() : s.f64()); printed = !std::isnan(x->getVal()); return "float value"; }
  if (auto *x = cast<BoolConst>(v)) { x->setVal(!x->getVal()); return "bool value"; }
  if (auto *x = cast<StringConst>(v)) { x->setVal(s.flip() ? x->getVal() + "\\" : word(s)); return "string value"; }
  if (auto *x = cast<MyConst>(v)) { x->k ^= 1; return "custom const"; }
  if (auto *x = cast<MyInstr>(v)) { if (plainCustom || s.flip()) x->k ^= 1; else x->v = anyVar(); return "custom instr"; }
  if (auto *x = cast<MyFlow>(v)) { x->k ^= 1; return "custom flow"; }
  if (auto *x = cast<VarValue>(v)) { x->setVar(anyVar()); return "variable"; }
  if (auto *x = cast<PointerValue>(v)) {
    if (s.flip()) { x->setVar(anyVar()); return "pointer variable"; }
    auto f = x->getFields();
    f.push_back("zz");
    x->setFields(f);
    return "pointer fields";
  }
  if (auto *x = cast<SeriesFlow>(v)) {
    size_t n = std::distance(x->begin(), x->end());
    switch (n ? s.below(3) : 0) {
    case 0: { auto it = x->begin(); std::advance(it, s.below(n + 1)); x->insert(it, L()); return "insert into series"; }
    case 1: { auto it = x->begin(); std::advance(it, s.below(n)); x->erase(it); return "erase from series"; }
    default: { auto a = x->begin(); std::advance(a, s.below(n)); auto b = x->begin(); std::advance(b, s.below(n)); std::swap(*a, *b); return "swap in series"; }
    }
  }
  if (auto *x = cast<IfFlow>(v)) {
    switch (s.below(4)) {
    case 0: x->setCond(L()); return "if cond";
    case 1: x->setTrueBranch(F()); return "if true";
    case 2: x->setFalseBranch(x->getFalseBranch() ? nullptr : F()); return "if false";
    default: if (x->getFalseBranch()) { auto *t = x->getTrueBranch(); x->setTrueBranch(x->getFalseBranch()); x->setFalseBranch(t); } return "if swap";
    }
  }
  if (auto *x = cast<WhileFlow>(v)) { if (s.flip()) x->setCond(L()); else x->setBody(F()); return "while part"; }
  if (auto *x = cast<ForFlow>(v)) {
    switch (s.below(5)) {
    case 0: x->setIter(L()); return "for iter";
    case 1: x->setBody(F()); return "for body";
    case 2: x->setVar(local()); return "for var";
    case 3: x->setAsync(!x->isAsync()); return "for async";
    default: return schedMut(x);
    }
  }
  if (auto *x = cast<ImperativeForFlow>(v)) {
    switch (s.below(6)) {
    case 0: x->setStart(L()); return "impfor start";
    case 1: x->setEnd(L()); return "impfor end";
    case 2: x->setBody(F()); return "impfor body";
    case 3: x->setVar(local()); return "impfor var";
    case 4: x->setStep(x->getStep() + s.range(1, 2)); return "impfor step";
    default: return schedMut(x);
    }
  }
  if (auto *x = cast<TryCatchFlow>(v)) {
    size_t n = std::distance(x->begin(), x->end());
    auto nth = [&]() { auto it = x->begin(); std::advance(it, s.below(n)); return it; };
    switch (s.below(n ? 9 : 4)) {
    case 0: x->setBody(F()); return "try body";
    case 1: x->setElse(x->getElse() ? nullptr : F()); return "try else";
    case 2: x->setFinally(x->getFinally() ? nullptr : F()); return "try finally";
    case 3: x->emplace_back(F(), s.flip() ? type() : nullptr, s.flip() ? local() : nullptr); return "add catch";
    case 4: x->erase(nth()); return "remove catch";
    case 5: nth()->setType(s.chance(1, 3) ? nullptr : type()); return "catch type";
    case 6: nth()->setVar(s.chance(1, 3) ? nullptr : local()); return "catch var";
    case 7: nth()->setHandler(F()); return "catch handler";
    default: { auto a = nth(), b = nth(); std::swap(*a, *b); return "swap catches"; }
    }
  }
  if (auto *x = cast<PipelineFlow>(v)) {
    size_t n = std::distance(x->begin(), x->end());
    if (!n) { x->emplace_back(L(), std::vector<Value *>{}, false, false); return "add stage"; }
    auto it = x->begin();
    std::advance(it, s.below(n));
    switch (s.below(7)) {
    case 0: it->setCallee(L()); return "stage callee";
    case 1: it->setGenerator(!it->isGenerator()); return "stage generator";
    case 2: it->setParallel(!it->isParallel()); return "stage parallel";
    case 3: it->push_back(s.flip() ? nullptr : L()); return "stage arg added";
    case 4: if (it->begin() == it->end()) return ""; it->erase(it->begin()); return "stage arg removed";
    case 5: x->erase(it); return "stage removed";
    default: x->emplace_back(L(), std::vector<Value *>{nullptr}, false, false); return "stage added";
    }
  }
  if (auto *x = cast<AssignInstr>(v)) { if (s.flip()) x->setLhs(local()); else x->setRhs(L()); return "assign part"; }
  if (auto *x = cast<ExtractInstr>(v)) { if (s.flip()) x->setField(x->getField() == "a" ? "b" : "a"); else x->setVal(L()); return "extract part"; }
  if (auto *x = cast<InsertInstr>(v)) {
    switch (s.below(3)) {
    case 0: x->setField(x->getField() == "a" ? "b" : "a"); return "insert field";
    case 1: x->setLhs(L()); return "insert lhs";
    default: x->setRhs(L()); return "insert rhs";
    }
  }
  if (auto *x = cast<CallInstr>(v)) {
    switch (s.below(4)) {
    case 0: x->setCallee(M->Nr<VarValue>(s.pick(funcs))); return "callee";
    case 1: x->push_back(L()); return "call arg added";
    case 2: { std::vector<Value *> a(x->begin(), x->end()); if (a.empty()) return ""; a.pop_back(); x->setArgs(a); return "call arg removed"; }
    default: { std::vector<Value *> a(x->begin(), x->end()); if (a.size() < 2) return ""; std::swap(a[0], a[1]); x->setArgs(a); return "call args swapped"; }
    }
  }
  if (auto *x = cast<StackAllocInstr>(v)) { if (s.flip()) x->setCount(x->getCount() + 1); else x->setArrayType(type()); return "stack alloc part"; }
  if (auto *x = cast<TypePropertyInstr>(v)) {
    if (s.flip()) { x->setProperty(x->getProperty() == TypePropertyInstr::SIZEOF ? TypePropertyInstr::IS_ATOMIC : TypePropertyInstr::SIZEOF); return "property"; }
    x->setInspectType(type());
    return "property type";
  }
  if (auto *x = cast<YieldInInstr>(v)) { if (s.flip()) { x->setSuspending(!x->isSuspending()); printed = false; } else x->setType(type()); return "yieldin part"; }
  if (auto *x = cast<TernaryInstr>(v)) {
    switch (s.below(4)) {
    case 0: x->setCond(L()); return "ternary cond";
    case 1: x->setTrueValue(L()); return "ternary true";
    case 2: x->setFalseValue(L()); return "ternary false";
    default: { auto *t = x->getTrueValue(); x->setTrueValue(x->getFalseValue()); x->setFalseValue(t); return "ternary swap"; }
    }
  }
  if (auto *x = cast<BreakInstr>(v)) { x->setLoop(x->getLoop() ? nullptr : F()); return "break loop"; }
  if (auto *x = cast<ContinueInstr>(v)) { x->setLoop(x->getLoop() ? nullptr : F()); return "continue loop"; }
  if (auto *x = cast<ReturnInstr>(v)) { x->setValue(x->getValue() ? nullptr : L()); return "return value"; }
  if (auto *x = cast<YieldInstr>(v)) { if (s.flip()) { x->setFinal(!x->isFinal()); printed = false; return "yield final"; } x->setValue(x->getValue() ? nullptr : L()); return "yield value"; }
  if (auto *x = cast<AwaitInstr>(v)) {
    switch (s.below(3)) {
    case 0: x->setGenerator(!x->isGenerator()); return "await generator";
    case 1: x->setType(type()); return "await type";
    default: x->setValue(L()); return "await value";
    }
  }
  if (auto *x = cast<ThrowInstr>(v)) { x->setValue(x->getValue() ? nullptr : L()); return "throw value"; }
  if (auto *x = cast<FlowInstr>(v)) { if (s.flip()) x->setFlow(F()); else x->setValue(L()); return "flowinstr part"; }
  return "";
}
} // namespace vir
