#include <cstdlib>
#include <cstring>
// The environment with the real standard library behind the module: types and functions come from compiled Codon source.
#include "ir.h"
#include "codon/compiler/compiler.h"
#include "llvm/Support/Error.h"

namespace vir {
using namespace codon::ir;
static const char *PRELUDE = R"(
from C import irh_obs(int, int) -> int
from C import irh_obsf(int, float) -> float
from C import irh_inp(int) -> int
class Nd:
    a: int
    b: float
    def __init__(self, a: int):
        self.a = a
        self.b = 0.0
class Ex0(Exception):
    a: int
    b: float
    def __init__(self, a: int):
        super().__init__("Ex0")
        self.a = a
        self.b = 0.0
class Ex1(Ex0):
    def __init__(self, a: int):
        super().__init__(a)
class Ex2(Exception):
    a: int
    b: float
    def __init__(self, a: int):
        super().__init__("Ex2")
        self.a = a
        self.b = 0.0
def irh_nnew(a: int) -> Nd:
    return Nd(a)
def irh_enew0(a: int) -> Ex0:
    return Ex0(a)
def irh_enew1(a: int) -> Ex1:
    return Ex1(a)
def irh_enew2(a: int) -> Ex2:
    return Ex2(a)
def irh_pld(p: Ptr[int]) -> int:
    return p[0]
def irh_pst(p: Ptr[int], v: int) -> int:
    p[0] = v
    return v
def irh_pfld(p: Ptr[float]) -> float:
    return p[0]
def irh_pfst(p: Ptr[float], v: float) -> float:
    p[0] = v
    return v
)";
static std::unique_ptr<codon::Compiler> comp;
codon::Compiler *stdCompiler() { return comp.get(); }

bool stdlibSetup() {
  if (comp) return true;
  setenv("CODON_PATH", "/repo/stdlib", 0);
  std::string code = PRELUDE;
  // use everything once, so that it exists in the module
  code += "irh_obs(1, 2); irh_obsf(1, 2.0); irh_inp(1)\n";
  code += "irh_pst(__ptr__(0) if False else Ptr[int](1), 1); irh_pld(Ptr[int](1)); irh_pfst(Ptr[float](1), 1.0); irh_pfld(Ptr[float](1))\n";
  code += "try:\n    raise irh_enew0(irh_nnew(1).a)\nexcept Ex1:\n    pass\nexcept Ex0:\n    pass\nexcept Ex2:\n    pass\n";
  code += "irh_enew1(1); irh_enew2(1)\n";
  size_t k = code.find("__ptr__(0) if False else ");
  if (k != std::string::npos) code.erase(k, strlen("__ptr__(0) if False else "));
  auto c = std::make_unique<codon::Compiler>("/verif/irh", codon::Compiler::Mode::RELEASE);
  if (auto err = c->parseCode("-", code)) {
    std::string m;
    llvm::raw_string_ostream os(m);
    llvm::handleAllErrors(std::move(err), [&](const codon::error::ParserErrorInfo &e) {
      for (auto &g : e.getErrors())
        for (auto &x : g) os << x.getMessage() << " at " << x.getLine() << "; ";
    }, [&](const llvm::ErrorInfoBase &e) { os << e.message(); });
    fprintf(stderr, "prelude does not compile: %s\n", m.c_str());
    return false;
  }
  comp = std::move(c);
  return true;
}

std::unique_ptr<Env> Env::stdlib(Module *M) {
  auto e = std::make_unique<Env>();
  e->M = M;
  e->full = true;
  e->i = M->getIntType(); e->f = M->getFloatType(); e->b = M->getBoolType(); e->v = M->getNoneType();
  e->tup = M->getTupleType({e->i, e->f});
  e->tup2 = M->getTupleType({e->tup, e->i});
  auto need = [](T *t, const char *n) {
    if (!t) { fprintf(stderr, "no type %s\n", n); abort(); }
    return t;
  };
  e->pi = need(M->getPointerType(e->i), "Ptr[int]");
  e->pf = need(M->getPointerType(e->f), "Ptr[float]");
  std::map<std::string, Func *> byName;
  for (auto *v : *M)
    if (auto *f = cast<Func>(v)) {
      auto n = f->getUnmangledName();
      if (n.rfind("irh_", 0) == 0) byName[n] = f;
    }
  auto fn = [&](const std::string &n) {
    auto it = byName.find(n);
    if (it == byName.end()) { fprintf(stderr, "no function %s\n", n.c_str()); abort(); }
    return it->second;
  };
  auto retT = [](Func *f) { return cast<types::FuncType>(f->getType())->getReturnType(); };
  e->node = retT(fn("irh_nnew"));
  static const int parent[] = {-1, 0, -1};
  for (int k = 0; k < 3; k++) e->exc.push_back(retT(fn("irh_enew" + std::to_string(k))));
  for (int k = 0; k < 3; k++)
    if (parent[k] >= 0) e->excParent[e->exc[k]->getName()] = e->exc[parent[k]]->getName();
  for (auto n : {"nnew", "enew0", "enew1", "enew2", "pld", "pst", "pfld", "pfst"}) e->p[n] = fn(std::string("irh_") + n);
  auto tnew = [&](T *t, std::vector<T *> args) {
    auto *f = M->getOrRealizeMethod(t, "__new__", args);
    if (!f) { fprintf(stderr, "no __new__ for %s\n", t->getName().c_str()); abort(); }
    return f;
  };
  e->p["tnew"] = tnew(e->tup, {e->i, e->f});
  e->p["t2new"] = tnew(e->tup2, {e->tup, e->i});
  e->addMethods();
  e->obs = fn("irh_obs"); e->obsf = fn("irh_obsf"); e->inp = fn("irh_inp");
  return e;
}
} // namespace vir
