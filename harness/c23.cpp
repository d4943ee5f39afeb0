// C23: machine code does what the IR says (and the bare-module parts of C03, C13).
#include "ir.h"
#include "codon/cir/llvm/llvisitor.h"
#include "codon/cir/llvm/llvm.h"

using namespace vir;
using namespace codon::ir;

extern "C" void seq_init(int flags);

namespace {
void setup() {
  static bool done = false;
  if (done) return;
  done = true;
  LLVMVisitor warm; // initialises the LLVM targets once, before the children are forked
}

void machine(const Opts &o, pbt::Src &src, pbt::Out &out) {
  Module M("t");
  auto env = Env::bare(&M);
  Prog p = generate(*env, src, o);
  bool debug = src.flip();
  uint64_t seed = src.below(1000);
  cast<BodiedFunc>(M.getMainFunc());
  pbt::announce(dump(p));
  Outcome exp = interpret(*env, p.entry, {}, seed, 30000);
  out.text = dump(p) + "\n" + (debug ? "debug" : "optimised") + " seed " + std::to_string(seed);
  if (exp.fuelOut || !exp.unsupported.empty()) {
    if (!exp.unsupported.empty()) out.text += "\nunsupported: " + exp.unsupported;
    out.discard = true;
    return;
  }
  out.nontrivial = exp.log.size() >= 6;
  pbt::announce(out.text);
  auto *mainFn = cast<BodiedFunc>(M.getMainFunc());
  auto *ser = M.Nr<SeriesFlow>();
  ser->push_back(env->callF(p.entry, {}));
  mainFn->setBody(ser);
  if (!mainFn->getType() || true) mainFn->realize(env->fty(env->v, {}), {});
  auto *argT = cast<codon::ir::types::MemberedType>(M.unsafeGetArrayType(M.getStringType()));
  M.getArgVar()->setType(const_cast<codon::ir::types::MemberedType *>(argT));
  M.getArgVar()->setGlobal();
  world.reset(seed);
  LLVMVisitor v;
  v.setDebug(debug);
  v.setJIT(true);
  M.accept(v);
  v.run();
  Outcome got;
  got.log = world.log;
  got.ret = exp.ret;
  auto d = diff(exp, got);
  if (!d.empty()) out.fail = "mismatch: machine code against the meaning of the IR: " + d;
}
Opts all() { return Opts(); }
Opts flow() { Opts o; o.gens = o.exc = o.pipe = false; o.funcs = 2; o.stmts = 14; return o; }
Opts exc() { Opts o; o.moreTry = true; o.gens = o.pipe = false; o.funcs = 2; o.stmts = 16; o.poly = false; o.ptr = false; o.voidf = false; return o; }
Opts gens() { Opts o; o.exc = false; o.funcs = 4; o.stmts = 10; o.poly = false; return o; }
const char *RULE = "the program makes at least 6 observable calls";
pbt::Reg r1("C23", "mixed", RULE, [](pbt::Src &s, pbt::Out &o) { machine(all(), s, o); }, 3, 20, 20, setup);
pbt::Reg r2("C23", "flow", RULE, [](pbt::Src &s, pbt::Out &o) { machine(flow(), s, o); }, 2, 20, 20, setup);
pbt::Reg r3("C23", "exceptions", RULE, [](pbt::Src &s, pbt::Out &o) { machine(exc(), s, o); }, 3, 20, 20, setup);
pbt::Reg r4("C23", "generators", RULE, [](pbt::Src &s, pbt::Out &o) { machine(gens(), s, o); }, 2, 20, 20, setup);
} // namespace
