// Shared IR environment, random IR generator and reference interpreter.
#pragma once
#include "core.h"
#include <array>
#include <memory>
#include <set>
#include <unordered_map>

#include "codon/cir/cir.h"
#include "codon/cir/util/irtools.h"
#include "codon/parser/ast/types/class.h"
#include "codon/parser/cache.h"

namespace vir {
using namespace codon::ir;
using T = codon::ir::types::Type;

// ---------------------------------------------------------------- observations
struct Event {
  int64_t tag;
  uint64_t bits;
  bool operator==(const Event &o) const { return tag == o.tag && bits == o.bits; }
};
/// what the outside world sees of an execution, and the answers it gives
struct World {
  std::vector<Event> log;
  uint64_t seed = 0, n = 0;
  void reset(uint64_t s) { log.clear(); seed = s; n = 0; }
  int64_t obs(int64_t tag, int64_t v);
  double obsf(int64_t tag, double v);
  int64_t inp(int64_t tag);
};
extern World world; // used by the extern "C" functions that machine code calls
std::string show(const std::vector<Event> &e, size_t from = 0);

// ---------------------------------------------------------------- values
struct Val;
struct Obj { std::vector<Val> f; const T *type = nullptr; };
struct Cell;
struct Coro;
struct Val {
  enum K : uint8_t { U, I, F, B, REC, REF, FN, GEN, PTR } k = U;
  int64_t i = 0;
  double f = 0;
  std::vector<Val> rec;
  std::shared_ptr<Obj> ref;
  const Func *fn = nullptr;
  std::shared_ptr<Coro> gen;
  std::shared_ptr<Cell> cell; // PTR
  std::vector<int> path;      // PTR: field path inside the cell
  static Val I_(int64_t v) { Val r; r.k = I; r.i = v; return r; }
  static Val F_(double v) { Val r; r.k = F; r.f = v; return r; }
  static Val B_(bool v) { Val r; r.k = B; r.i = v; return r; }
};
struct Cell { Val v; };
std::string show(const Val &v, int depth = 3);
bool same(const Val &a, const Val &b, int depth = 6);

using Prim = std::function<Val(std::vector<Val> &)>;

// ---------------------------------------------------------------- environment
/// The types and primitive functions that generated code may use.
struct Env {
  Module *M = nullptr;
  bool full = false; // true: real standard library behind the module
  T *i = nullptr, *f = nullptr, *b = nullptr, *v = nullptr, *tup = nullptr, *node = nullptr, *poly = nullptr, *pi = nullptr,
    *pf = nullptr, *tup2 = nullptr;
  std::vector<T *> exc;
  std::map<std::string, Func *> p;             // primitives by short name
  std::unordered_map<const Func *, Prim> sem;  // their meaning
  Func *obs = nullptr, *obsf = nullptr, *inp = nullptr;
  T *fty(T *ret, std::vector<T *> args);
  T *genT(T *base);
  T *ptrT(T *base);
  Value *call(const std::string &name, std::vector<Value *> args);
  Value *callF(Func *f, std::vector<Value *> args);
  Value *var(Var *v) { return M->Nr<VarValue>(v); }
  BodiedFunc *func(const std::string &name, T *ret, std::vector<T *> args, bool generator = false);
  Value *zero(T *t);
  static std::unique_ptr<Env> bare(Module *M);
  static std::unique_ptr<Env> stdlib(Module *M);
  void external();
  void addMethods();
  int counter = 0;
  std::unique_ptr<codon::ast::Cache> cache; // bare only: gives exception types their run-time identity
  std::map<std::string, std::string> excParent; // exception type -> base
  bool excMatch(const T *caught, const T *thrown) const;
};
/// record/ref field index by name
int fieldIndex(const T *t, const std::string &name);

/// compile the prelude against the real standard library, once per process; false if that fails
bool stdlibSetup();
} // namespace vir
namespace codon { class Compiler; }
namespace vir {
codon::Compiler *stdCompiler();

// ---------------------------------------------------------------- generator
struct Opts {
  int funcs = 3, stmts = 10, depth = 4;
  bool gens = true, exc = true, pipe = true, ptr = true, refs = true, flt = true, fn = true, voidf = true, poly = true, glob = true;
  bool yieldIn = true;
  bool fin = true;        // finally blocks
  bool finTry = true;     // try inside finally
  bool moreTry = false;   // mostly try statements
  bool call = true;       // calls between generated functions
  bool obs = true;        // calls to the outside world
  bool recurse = false;   // functions that call themselves
  bool fall = false;      // value functions that fall off the end (their value is not used)
  bool attrs = false;     // source positions and attributes on nodes
};
struct Prog {
  std::vector<BodiedFunc *> fns; // callable, in order of creation
  std::vector<BodiedFunc *> gens;
  std::vector<Var *> gi, gf, gn;
  std::set<BodiedFunc *> falls; // may fall off the end
  BodiedFunc *entry = nullptr; // int entry()
  int id = 0;
};
struct Gen;
/// generate a program into env.M; `entry` runs every function with catch-all protection and observes all results
Prog generate(Env &env, pbt::Src &src, const Opts &o);
std::string dump(const Prog &p);

// ---------------------------------------------------------------- interpreter
struct Fuel {};
struct Unsupported { std::string what; };
struct Exc { T *type; Val v; };
struct Frame {
  const BodiedFunc *fn;
  std::unordered_map<codon::ir::id_t, std::shared_ptr<Cell>> vars;
  std::vector<Exc> catches;
  Coro *coro = nullptr;
  uint64_t serial = 0;
};
struct Hooks {
  virtual ~Hooks() = default;
  virtual void enter(Frame &) {}
  virtual void leave(Frame &) {}
  virtual void evalBegin(Frame &, const Value *) {}
  virtual void evalEnd(Frame &, const Value *, const Val &) {}
  virtual void assign(Frame &, const Var *, const Value *node, const Val &) {} // node: the instruction/flow that writes
  virtual void read(Frame &, const VarValue *, const Val &) {}
  virtual void external(const Func *) {}
  virtual void store(const Val &target, const Val &value) {} // heap/pointer store
  virtual void thrown() {}
};
struct Outcome {
  bool fuelOut = false, threw = false;
  std::string excType, unsupported;
  Val ret;
  std::vector<Event> log;
};
struct Interp {
  Env &env;
  Hooks *h = nullptr;
  World w;
  long fuel;
  std::unordered_map<codon::ir::id_t, std::shared_ptr<Cell>> globals;
  Coro *cur = nullptr;
  std::vector<std::shared_ptr<Coro>> coros;
  uint64_t serial = 0;
  int depth = 0;
  explicit Interp(Env &env, uint64_t seed, long fuel = 20000);
  ~Interp();
  Val eval(Frame &f, const Value *v);
  Val evalX(Frame &f, const Value *v);
  Val callFn(const Func *fn, std::vector<Val> args);
  Val runBody(Frame &f);
  bool resume(Coro &c); // false when done
  std::shared_ptr<Cell> cell(Frame &f, const Var *v);
  Val tryFlow(Frame &f, const TryCatchFlow *x);
  void pipeline(Frame &f, const std::vector<const PipelineFlow::Stage *> &st, size_t i, Val in);
  Outcome run(const Func *fn, std::vector<Val> args);
};
/// interpret fn() in a fresh world
Outcome interpret(Env &env, const Func *fn, std::vector<Val> args, uint64_t seed, long fuel = 20000, Hooks *h = nullptr);
/// first difference between two outcomes, empty if none
std::string diff(const Outcome &a, const Outcome &b);
} // namespace vir
