// Random IR node trees of every kind (not meant to be executed), an independent description of a node, and edits.
#pragma once
#include "ir.h"
#include "codon/cir/attribute.h"
#include "codon/cir/dsl/codegen.h"
#include "codon/cir/dsl/nodes.h"
#include "codon/cir/transform/parallel/schedule.h"

namespace vir {
/// custom nodes as a plug-in would define them
struct MyInstr : public AcceptorExtend<MyInstr, dsl::CustomInstr> {
  static const char NodeId;
  Value *x; Var *v; T *t; int64_t k;
  MyInstr(Value *x, Var *v, T *t, int64_t k, std::string name = "") : AcceptorExtend(std::move(name)), x(x), v(v), t(t), k(k) {}
  std::unique_ptr<dsl::codegen::ValueBuilder> getBuilder() const override { return {}; }
  std::unique_ptr<dsl::codegen::CFBuilder> getCFBuilder() const override { return {}; }
  bool match(const Value *o) const override;
  Value *doClone(util::CloneVisitor &cv) const override;
  std::ostream &doFormat(std::ostream &os) const override;
  types::Type *doGetType() const override { return t; }
  std::vector<Value *> doGetUsedValues() const override { return {x}; }
  int doReplaceUsedValue(codon::ir::id_t id, Value *n) override { if (x->getId() != id) return 0; x = n; return 1; }
  std::vector<Var *> doGetUsedVariables() const override { return {v}; }
  int doReplaceUsedVariable(codon::ir::id_t id, Var *n) override { if (v->getId() != id) return 0; v = n; return 1; }
  std::vector<T *> doGetUsedTypes() const override { return {t}; }
  int doReplaceUsedType(const std::string &n, T *nt) override { if (t->getName() != n) return 0; t = nt; return 1; }
};
struct MyFlow : public AcceptorExtend<MyFlow, dsl::CustomFlow> {
  static const char NodeId;
  Value *x; int64_t k;
  MyFlow(Value *x, int64_t k, std::string name = "") : AcceptorExtend(std::move(name)), x(x), k(k) {}
  std::unique_ptr<dsl::codegen::ValueBuilder> getBuilder() const override { return {}; }
  std::unique_ptr<dsl::codegen::CFBuilder> getCFBuilder() const override { return {}; }
  bool match(const Value *o) const override;
  Value *doClone(util::CloneVisitor &cv) const override;
  std::ostream &doFormat(std::ostream &os) const override;
  std::vector<Value *> doGetUsedValues() const override { return {x}; }
  int doReplaceUsedValue(codon::ir::id_t id, Value *n) override { if (x->getId() != id) return 0; x = n; return 1; }
};
struct MyConst : public AcceptorExtend<MyConst, dsl::CustomConst> {
  static const char NodeId;
  int64_t k;
  MyConst(int64_t k, T *t, std::string name = "") : AcceptorExtend(t, std::move(name)), k(k) {}
  std::unique_ptr<dsl::codegen::ValueBuilder> getBuilder() const override { return {}; }
  bool match(const Value *o) const override;
  Value *doClone(util::CloneVisitor &cv) const override;
  std::ostream &doFormat(std::ostream &os) const override;
};

/// everything a node is made of
struct Desc {
  std::string kind, scalars, unprinted; // unprinted: scalar fields the text form leaves out
  std::vector<T *> types;                // not null
  std::vector<const Var *> vars;         // may be null (catch without variable)
  std::vector<const Value *> kids;       // may be null
  std::vector<const Value *> loops;      // target of break/continue, may be null
  std::vector<std::string> typeNames;    // by position, "-" for null
};
Desc describe(const Value *v);
Desc describe(const Var *v);

/// full dump of a tree: own format, with identities
std::string fullDump(const Value *v);
std::string fullDump(const Func *f);
std::string attrText(const Node *n, bool withValues);

struct TreeCmp {
  bool strict = false;    // names, locations and attributes as well
  bool valueNames = false;
  bool printedOnly = false; // what the text form shows: no schedules, loop identities, constant types, hidden flags
  std::function<bool(const Var *, const Var *)> varOK;
  std::map<codon::ir::id_t, const Value *> vals;
  bool fresh = true; // kids must be different objects
  std::string err;
  bool same(const Value *a, const Value *b, const std::string &path = "");
  std::vector<std::pair<const Value *, const Value *>> loopPairs;
  bool attrs(const Node *a, const Node *b, const std::string &path);
};

struct Soup {
  Env &e;
  pbt::Src &s;
  Module *M;
  std::vector<Var *> globals, locals;
  std::vector<Func *> funcs;
  std::vector<T *> ts;
  std::vector<Value *> loops;
  std::vector<Value *> made; // every value, for sharing
  BodiedFunc *cur = nullptr;
  int budget = 40;
  bool share = false, attrsOn = true, exitTargets = true;
  bool plainCustom = false; // custom nodes with constant operands only (they compare themselves, without the caller's options)
  Soup(Env &e, pbt::Src &s);
  std::string name();
  template <class N> N *deco(N *n) { decorate(n); return n; }
  void decorate(Node *n);
  Var *anyVar();
  Var *local();
  T *type() { return s.pick(ts); }
  Value *value(int d);
  Value *opt(int d) { return s.chance(1, 3) ? nullptr : value(d); }
  Flow *flow(int d);
  Flow *optFlow(int d) { return s.flip() ? nullptr : flow(d); }
  SeriesFlow *series(int d);
  std::unique_ptr<transform::parallel::OMPSched> sched(int d);
  BodiedFunc *bodied(int d);
  Func *other();
  /// one random change to one field of one node; empty if nothing was done
  std::string mutate(Value *v, bool &printed);
  std::string mutateFunc(Func *f);
};
/// every value reachable through kids
std::vector<Value *> allValues(Value *root);
} // namespace vir
