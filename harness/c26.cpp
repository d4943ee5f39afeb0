// C26: the memory manager for run-time loaded code against a model of what each graph asked for.
#include "core.h"
#include "codon/compiler/memory_manager.h"
#include "llvm/ExecutionEngine/JITLink/JITLink.h"
#include "llvm/ExecutionEngine/JITLink/x86_64.h"
#include "llvm/ExecutionEngine/Orc/Shared/SimplePackedSerialization.h"
#include "llvm/ExecutionEngine/Orc/Shared/WrapperFunctionUtils.h"
#include <algorithm>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>

using namespace llvm;
using namespace llvm::jitlink;
namespace sh = llvm::orc::shared;

namespace {
std::vector<std::pair<uintptr_t, uintptr_t>> roots;
bool watch = false;
} // namespace
// seen instead of the run-time library's functions (the executable's definitions come first), which they call
extern "C" void seq_gc_add_roots(void *a, void *b) {
  if (watch) { roots.push_back({(uintptr_t)a, (uintptr_t)b}); return; }
  static auto real = (void (*)(void *, void *))dlsym(RTLD_NEXT, "seq_gc_add_roots");
  if (real) real(a, b);
}
extern "C" void seq_gc_remove_roots(void *a, void *b) {
  if (watch) {
    roots.erase(std::remove_if(roots.begin(), roots.end(), [&](auto &r) { return r.first >= (uintptr_t)a && r.second <= (uintptr_t)b; }), roots.end());
    return;
  }
  static auto real = (void (*)(void *, void *))dlsym(RTLD_NEXT, "seq_gc_remove_roots");
  if (real) real(a, b);
}

namespace {
std::vector<uint64_t> ran; // actions, in the order they ran
sh::CWrapperFunctionResult act(const char *data, size_t size) {
  return sh::WrapperFunction<sh::SPSError(uint64_t)>::handle(data, size, [](uint64_t id) -> Error {
           ran.push_back(id);
           if (id % 1000 == 999) return make_error<StringError>("asked to fail", inconvertibleErrorCode());
           return Error::success();
         })
      .release();
}
sh::WrapperFunctionCall call(uint64_t id) {
  return cantFail(sh::WrapperFunctionCall::Create<sh::SPSArgList<uint64_t>>(orc::ExecutorAddr::fromPtr(&act), id));
}
struct MapEnt { uintptr_t a, b; int prot; };
std::vector<MapEnt> maps() {
  std::vector<MapEnt> r;
  std::ifstream f("/proc/self/maps");
  std::string l;
  while (std::getline(f, l)) {
    unsigned long a, b;
    char p[8];
    if (sscanf(l.c_str(), "%lx-%lx %4s", &a, &b, p) == 3) r.push_back({a, b, (p[0] == 'r') | (p[1] == 'w') << 1 | (p[2] == 'x') << 2});
  }
  return r;
}
struct Blk {
  Block *b;
  std::string content; // empty for zero fill
  uint64_t size, align, off, addr = 0;
  int prot;
  bool zero, standard;
};
struct Obj {
  int id;
  std::unique_ptr<LinkGraph> g;
  std::vector<Blk> blks;
  std::vector<uint64_t> fin, dea; // expected actions (0: none), pairwise
  int failAt = -1;
  std::unique_ptr<JITLinkMemoryManager::InFlightAlloc> flight;
  JITLinkMemoryManager::FinalizedAlloc done;
  int state = 0; // 1 allocated, 2 finalised, 3 gone
};

void history(pbt::Src &src, pbt::Out &out) {
  watch = true;
  roots.clear();
  ran.clear();
  auto mm = codon::BoehmGCJITLinkMemoryManager::Create();
  if (!mm) return out.violation("create: failed");
  const uint64_t page = 4096;
  auto ssp = std::make_shared<orc::SymbolStringPool>();
  std::vector<std::unique_ptr<Obj>> objs;
  std::string err;
  auto fail = [&](const std::string &s) { if (err.empty()) err = s; };
  auto contents = [&](Obj &o, const char *when) {
    for (auto &b : o.blks) {
      if (!b.size || (o.state == 2 && !b.standard)) continue;
      if (o.state == 2 && !(b.prot & 1)) continue; // not readable
      const char *p = (const char *)b.addr;
      for (uint64_t i = 0; i < b.size; i++)
        if (p[i] != (b.zero ? 0 : b.content[i])) return fail("content: object " + std::to_string(o.id) + " byte " + std::to_string(i) + " of a " + (b.zero ? "zero-fill" : "content") + " block of " + std::to_string(b.size) + " is wrong " + when);
    }
  };
  auto covered = [&](Obj &o, const char *when) {
    for (auto &b : o.blks) {
      if (!b.size || !b.standard || !(b.prot & 2)) continue;
      bool ok = false;
      for (auto &r : roots) ok |= r.first <= b.addr && b.addr + b.size <= r.second;
      if (!ok) return fail("roots: a writable block of object " + std::to_string(o.id) + " is not known to the collector " + when);
    }
  };
  auto checkAll = [&](const char *when) {
    auto ms = maps();
    std::vector<std::pair<uint64_t, uint64_t>> spans;
    for (auto &po : objs) {
      auto &o = *po;
      if (o.state != 1 && o.state != 2) continue;
      contents(o, when);
      covered(o, when);
      for (auto &b : o.blks) {
        if (!b.size || (o.state == 2 && !b.standard)) continue;
        spans.push_back({b.addr, b.addr + b.size});
        if (o.state != 2) continue;
        for (uint64_t a = b.addr & ~(page - 1); a < b.addr + b.size; a += page) {
          int prot = -1;
          for (auto &m : ms) if (m.a <= a && a < m.b) prot = m.prot;
          int want = b.prot;
          if (prot != want) return fail("protection: a block that asked for rwx bits " + std::to_string(want) + " has " + std::to_string(prot) + " " + when);
        }
      }
    }
    std::sort(spans.begin(), spans.end());
    for (size_t i = 1; i < spans.size(); i++)
      if (spans[i].first < spans[i - 1].second) fail(std::string("overlap: two blocks share memory ") + when);
    // nothing released may stay a root
    for (auto &r : roots) {
      if (r.first >= r.second) continue;
      bool mapped = false;
      for (auto &m : ms) mapped |= m.a < r.second && r.first < m.b;
      if (!mapped) fail(std::string("stale-root: the collector was told about memory that is not mapped any more ") + when);
    }
  };
  int steps = (int)src.range(2, 14);
  std::string text;
  int allocs = 0, finals = 0, frees = 0, writable = 0;
  for (int s = 0; s < steps && err.empty(); s++) {
    std::vector<Obj *> st[4];
    for (auto &o : objs) st[o->state].push_back(o.get());
    switch (src.weighted({4, st[1].empty() ? 0 : 4, st[2].empty() ? 0 : 2, st[1].empty() ? 0 : 1})) {
    case 0: {
      auto o = std::make_unique<Obj>();
      o->id = (int)objs.size();
      o->g = std::make_unique<LinkGraph>("g" + std::to_string(o->id), ssp, Triple("x86_64-unknown-linux-gnu"), SubtargetFeatures(), x86_64::getEdgeKindName);
      int secs = (int)src.range(1, 5);
      text += "allocate object " + std::to_string(o->id) + ":";
      for (int k = 0; k < secs; k++) {
        static const std::vector<orc::MemProt> P = {orc::MemProt::Read, orc::MemProt::Read | orc::MemProt::Write, orc::MemProt::Read | orc::MemProt::Exec,
                                                    orc::MemProt::Read | orc::MemProt::Write | orc::MemProt::Exec};
        int pi = (int)src.below(P.size());
        auto &sec = o->g->createSection("s" + std::to_string(k), P[pi]);
        bool standard = !src.chance(1, 4);
        if (!standard) sec.setMemLifetime(orc::MemLifetime::Finalize);
        int nb = (int)src.range(0, 3);
        for (int j = 0; j < nb; j++) {
          Blk b;
          b.align = 1ull << src.below(src.chance(1, 6) ? 13 : 7);
          b.off = src.below(b.align);
          b.size = src.chance(1, 5) ? src.range(4000, 9000) : src.range(0, 100);
          b.zero = src.chance(1, 3);
          b.prot = pi == 0 ? 1 : pi == 1 ? 3 : pi == 2 ? 5 : 7;
          b.standard = standard;
          if (b.zero) b.b = &o->g->createZeroFillBlock(sec, b.size, orc::ExecutorAddr(), b.align, b.off);
          else {
            uint64_t x = src.below(255) + 1;
            for (uint64_t i = 0; i < b.size; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; b.content += (char)(x >> 56 | 1); }
            bool mut = src.flip();
            if (mut) {
              b.b = &o->g->createMutableContentBlock(sec, b.size, orc::ExecutorAddr(), b.align, b.off);
              memcpy(b.b->getAlreadyMutableContent().data(), b.content.data(), b.size);
            } else b.b = &o->g->createContentBlock(sec, o->g->allocateContent(ArrayRef<char>(b.content.data(), b.size)), orc::ExecutorAddr(), b.align, b.off);
          }
          text += " " + std::string(b.zero ? "zero" : "data") + std::to_string(b.size) + "@" + std::to_string(b.align) + "+" + std::to_string(b.off) + "/" + std::to_string(b.prot) + (standard ? "" : "f");
          if (b.size && standard && (b.prot & 2)) ++writable;
          o->blks.push_back(std::move(b));
        }
      }
      int na = (int)src.below(4);
      for (int k = 0; k < na; k++) {
        int kind = (int)src.below(4); // both, finalise only, release only, finalise fails
        uint64_t base = ((uint64_t)o->id * 10 + k + 1) * 10000;
        uint64_t f = kind == 2 ? 0 : base + (kind == 3 ? 999 : 1), d = kind == 1 ? 0 : base + 5001;
        if (kind == 3 && o->failAt >= 0) continue;
        if (kind == 3) { if (!src.chance(1, 3)) f = base + 1; else o->failAt = (int)o->fin.size(); }
        sh::AllocActionCallPair pr;
        if (f) pr.Finalize = call(f);
        if (d) pr.Dealloc = call(d);
        o->g->allocActions().push_back(std::move(pr));
        o->fin.push_back(f);
        o->dea.push_back(d);
      }
      text += " actions " + std::to_string(o->fin.size()) + (o->failAt >= 0 ? " (one fails)" : "") + "\n";
      pbt::announce(text);
      auto fl = (*mm)->allocate(nullptr, *o->g);
      if (!fl) { consumeError(fl.takeError()); return out.violation("allocate: refused"); }
      o->flight = std::move(*fl);
      o->state = 1;
      ++allocs;
      for (auto &b : o->blks) {
        b.addr = b.b->getAddress().getValue();
        if (b.size && (b.addr - b.off) % b.align) fail("alignment: block at " + std::to_string(b.addr) + " asked for " + std::to_string(b.align) + "+" + std::to_string(b.off));
        if (b.size && !b.zero) { // what the linker writes through the working memory is what ends up there
          auto c = b.b->getMutableContent(*o->g);
          if ((uint64_t)c.size() != b.size) fail("content: size of the working memory");
          else if (src.chance(1, 3)) { size_t at = src.below(b.size); c[at] ^= 0x5a; b.content[at] ^= 0x5a; }
        }
      }
      objs.push_back(std::move(o));
      break;
    }
    case 1: {
      auto &o = *st[1][src.below(st[1].size())];
      text += "finalise object " + std::to_string(o.id) + "\n";
      pbt::announce(text);
      ran.clear();
      auto fa = o.flight->finalize();
      std::vector<uint64_t> want;
      for (size_t k = 0; k < o.fin.size(); k++) {
        if (o.fin[k]) want.push_back(o.fin[k]);
        if ((int)k == o.failAt) {
          for (int j = (int)k - 1; j >= 0; j--) if (o.dea[j]) want.push_back(o.dea[j]);
          break;
        }
      }
      if (ran != want) fail("finalise-actions: object " + std::to_string(o.id) + ": " + std::to_string(ran.size()) + " actions ran, expected " + std::to_string(want.size()) + " in order");
      if (!fa) {
        consumeError(fa.takeError());
        if (o.failAt < 0) fail("finalise: refused");
        o.state = 3;
      } else {
        if (o.failAt >= 0) fail("finalise: a failing action was not reported");
        o.done = std::move(*fa);
        o.state = 2;
        ++finals;
      }
      o.flight.reset();
      break;
    }
    case 2: { // release some
      std::vector<Obj *> some;
      for (auto *o : st[2]) if (src.flip()) some.push_back(o);
      if (some.empty()) some.push_back(st[2][0]);
      std::vector<JITLinkMemoryManager::FinalizedAlloc> fas;
      text += "release objects";
      for (auto *o : some) { text += " " + std::to_string(o->id); fas.push_back(std::move(o->done)); o->state = 3; }
      text += "\n";
      pbt::announce(text);
      ran.clear();
      if (auto e = (*mm)->deallocate(std::move(fas))) { consumeError(std::move(e)); fail("release: failed"); }
      for (auto *o : some) { // each object's own actions, last first
        std::vector<uint64_t> want, got;
        for (int k = (int)o->dea.size() - 1; k >= 0; k--) if (o->dea[k]) want.push_back(o->dea[k]);
        for (auto x : ran) if (std::find(o->dea.begin(), o->dea.end(), x) != o->dea.end()) got.push_back(x);
        if (got != want) fail("release-actions: object " + std::to_string(o->id) + ": " + std::to_string(got.size()) + " ran, expected " + std::to_string(want.size()) + ", last first");
      }
      ++frees;
      break;
    }
    default: {
      auto &o = *st[1][src.below(st[1].size())];
      text += "abandon object " + std::to_string(o.id) + "\n";
      pbt::announce(text);
      ran.clear();
      bool called = false;
      o.flight->abandon([&](Error e) { called = true; if (e) { consumeError(std::move(e)); fail("abandon: failed"); } });
      if (!called) fail("abandon: not reported");
      if (!ran.empty()) fail("abandon: actions ran");
      o.flight.reset();
      o.state = 3;
    }
    }
    checkAll(("after step " + std::to_string(s + 1)).c_str());
  }
  // leave nothing behind
  std::vector<JITLinkMemoryManager::FinalizedAlloc> fas;
  for (auto &o : objs) {
    if (o->state == 1) o->flight->abandon([](Error e) { consumeError(std::move(e)); });
    if (o->state == 2) fas.push_back(std::move(o->done));
  }
  if (auto e = (*mm)->deallocate(std::move(fas))) consumeError(std::move(e));
  watch = false;
  out.text = text;
  out.nontrivial = allocs >= 2 && finals >= 1 && writable >= 1;
  if (!err.empty()) out.violation(err);
}
pbt::Reg r1("C26", "objects", "at least two objects are loaded, one is finalised, and one has a writable section with content", history, 1, 200);
} // namespace
