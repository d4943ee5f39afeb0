From ac9a3b478085c4bb075c036fde3ae559b0b4b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 01/53] fix: run 'finally' when leaving an 'except' or 'else'
 block

A return from an except or else block (and a break or continue out of a
try nested in one, or an exception not caught there) skipped the finally
block of the enclosing try statement.
---
 codon/cir/llvm/llvisitor.cpp | 32 ++++++++++++++++++++++++++------
 codon/cir/llvm/llvisitor.h   |  1 +
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/codon/cir/llvm/llvisitor.cpp b/codon/cir/llvm/llvisitor.cpp
index 189f59e..22e0de3 100644
--- a/codon/cir/llvm/llvisitor.cpp
+++ b/codon/cir/llvm/llvisitor.cpp
@@ -2719,9 +2719,23 @@ bool anyMatch(types::Type *type, std::vector<types::Type *> types) {
 } // namespace
 
 void LLVMVisitor::visit(const TryCatchFlow *x) {
+  auto *finallyFlow = cast<SeriesFlow>(x->getFinally());
+  const bool haveFinally = (finallyFlow && finallyFlow->begin() != finallyFlow->end());
+  const bool haveHandlers = (x->begin() != x->end() || x->getElse());
+  if (haveFinally && haveHandlers) {
+    // 'finally' must also run when leaving 'except' or 'else', so generate code as if
+    // the 'try-except-else' was nested in the 'try-finally'
+    codegenTryCatch(x, /*handlers=*/false, /*finallyPart=*/true);
+  } else {
+    codegenTryCatch(x, /*handlers=*/true, /*finallyPart=*/true);
+  }
+}
+
+void LLVMVisitor::codegenTryCatch(const TryCatchFlow *x, bool handlers,
+                                  bool finallyPart) {
   const bool isRoot = trycatch.empty();
   const bool supportBreakAndContinue = !loops.empty();
-  auto *finallyFlow = cast<SeriesFlow>(x->getFinally());
+  auto *finallyFlow = finallyPart ? cast<SeriesFlow>(x->getFinally()) : nullptr;
   const bool haveFinally = (finallyFlow && finallyFlow->begin() != finallyFlow->end());
   B->SetInsertPoint(block);
   auto *entryBlock = llvm::BasicBlock::Create(*context, "trycatch.entry", func);
@@ -2776,7 +2790,8 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
 
   // translate finally
   block = tc.finallyBlock;
-  process(x->getFinally());
+  if (finallyPart)
+    process(x->getFinally());
   auto *finallyBlock = block;
   B->SetInsertPoint(finallyBlock);
   auto *excFlagRead = B->CreateLoad(B->getInt8Ty(), tc.excFlag);
@@ -2888,8 +2903,10 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
 
   // try and catch translate
   std::vector<const TryCatchFlow::Catch *> catches;
-  for (auto &c : *x) {
-    catches.push_back(&c);
+  if (handlers) {
+    for (auto &c : *x) {
+      catches.push_back(&c);
+    }
   }
   llvm::BasicBlock *catchAll = nullptr;
 
@@ -2914,11 +2931,14 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
   if (haveFinally)
     enterFinally(tc);
   enterTry(tc); // this is last so as to have larger sequence number
-  process(x->getBody());
+  if (handlers)
+    process(x->getBody());
+  else
+    codegenTryCatch(x, /*handlers=*/true, /*finallyPart=*/false);
   exitTry();
 
   // translate else
-  if (x->getElse()) {
+  if (handlers && x->getElse()) {
     B->SetInsertPoint(block);
     auto *elseBlock = llvm::BasicBlock::Create(*context, "trycatch.else", func);
     B->CreateBr(elseBlock);
diff --git a/codon/cir/llvm/llvisitor.h b/codon/cir/llvm/llvisitor.h
index 6a3a020..682742a 100644
--- a/codon/cir/llvm/llvisitor.h
+++ b/codon/cir/llvm/llvisitor.h
@@ -198,6 +198,7 @@ private:
   void makeYield(llvm::Value *value = nullptr, bool finalYield = false);
   std::string buildLLVMCodeString(const LLVMFunc *);
   void callStage(const PipelineFlow::Stage *stage);
+  void codegenTryCatch(const TryCatchFlow *x, bool handlers, bool finallyPart);
   void codegenPipeline(const std::vector<const PipelineFlow::Stage *> &stages,
                        unsigned where = 0);
 
-- 
2.43.0


From d4045201378a8712a71da2b4574b9285c0d2337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 02/53] fix: keep pending control flow across a 'try' inside a
 'finally'

A nested try statement shares its state with the enclosing ones, so a try
inside a finally block overwrote a pending return, break, continue or
exception that the finally block was meant to resume.
---
 codon/cir/llvm/llvisitor.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/codon/cir/llvm/llvisitor.cpp b/codon/cir/llvm/llvisitor.cpp
index 22e0de3..0568c0c 100644
--- a/codon/cir/llvm/llvisitor.cpp
+++ b/codon/cir/llvm/llvisitor.cpp
@@ -2790,10 +2790,26 @@ void LLVMVisitor::codegenTryCatch(const TryCatchFlow *x, bool handlers,
 
   // translate finally
   block = tc.finallyBlock;
+  std::vector<std::pair<llvm::Value *, llvm::Value *>> savedState;
+  if (haveFinally && !isRoot) {
+    // state is shared with any 'try' inside the 'finally', so save and reset it
+    B->SetInsertPoint(block);
+    for (auto *store : {tc.excFlag, tc.catchStore, tc.delegateDepth, tc.retStore,
+                        tc.loopSequence}) {
+      if (!store)
+        continue;
+      auto *type = llvm::cast<llvm::AllocaInst>(store)->getAllocatedType();
+      savedState.emplace_back(B->CreateLoad(type, store), store);
+    }
+    B->CreateStore(excStateNotThrown, tc.excFlag);
+    B->CreateStore(B->getInt64(0), tc.delegateDepth);
+  }
   if (finallyPart)
     process(x->getFinally());
   auto *finallyBlock = block;
   B->SetInsertPoint(finallyBlock);
+  for (auto &s : savedState)
+    B->CreateStore(s.first, s.second);
   auto *excFlagRead = B->CreateLoad(B->getInt8Ty(), tc.excFlag);
 
   if (!isRoot) {
-- 
2.43.0


From 521e0dd866657a9ffb5789f019a9741bf0e01593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 03/53] fix: honour checkNames and varIdMatch when matching IR

util::match ignored varIdMatch, so that e.g. the dictionary pass took two
different keys for the same one, and had the meaning of checkNames inverted.
---
 codon/cir/util/matching.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codon/cir/util/matching.cpp b/codon/cir/util/matching.cpp
index a93aed7..5e630af 100644
--- a/codon/cir/util/matching.cpp
+++ b/codon/cir/util/matching.cpp
@@ -16,7 +16,7 @@
       nodeId = &x::NodeId;                                                             \
       other = v;                                                                       \
     } else if (nodeId != &x::NodeId ||                                                 \
-               (!checkName && v->getName() != other->getName()))                       \
+               (checkName && v->getName() != other->getName()))                       \
       result = false;                                                                  \
     else                                                                               \
       handle(v, static_cast<const x *>(other));                                        \
@@ -249,7 +249,7 @@ public:
     if (tx || ty)
       return tx && ty && tx->is(const_cast<types::Type *>(ty));
 
-    MatchVisitor v(checkName);
+    MatchVisitor v(checkName, varIdMatch);
     x->accept(v);
     y->accept(v);
 
@@ -284,7 +284,7 @@ const char AnyVar::NodeId = 0;
 const char AnyFunc::NodeId = 0;
 
 bool match(Node *a, Node *b, bool checkNames, bool varIdMatch) {
-  return MatchVisitor(checkNames).process(a, b);
+  return MatchVisitor(checkNames, varIdMatch).process(a, b);
 }
 
 } // namespace util
-- 
2.43.0


From 9da25eb13dea8762ff8ae8174d72614dbf3dece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 04/53] fix: compare try/catch flows, loop exits, schedules and
 flags when matching IR

A try/catch flow never matched anything, break and continue with an explicit
loop recursed forever, and nodes differing only in a loop schedule, a
generator or async flag, a final yield, a suspending yield or the sign of a
zero were taken to be equal.
---
 codon/cir/util/matching.cpp | 65 ++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/codon/cir/util/matching.cpp b/codon/cir/util/matching.cpp
index 5e630af..b618127 100644
--- a/codon/cir/util/matching.cpp
+++ b/codon/cir/util/matching.cpp
@@ -3,6 +3,7 @@
 #include "matching.h"
 
 #include <algorithm>
+#include <cmath>
 
 #include "codon/cir/cir.h"
 #include "codon/cir/util/visitor.h"
@@ -34,10 +35,13 @@ private:
   bool result = false;
   const Node *other = nullptr;
   bool varIdMatch;
+  /// the pairs of loops currently being compared
+  std::vector<std::pair<id_t, id_t>> &loops;
 
 public:
-  explicit MatchVisitor(bool checkName = false, bool varIdMatch = false)
-      : checkName(checkName), varIdMatch(varIdMatch) {}
+  explicit MatchVisitor(std::vector<std::pair<id_t, id_t>> &loops,
+                        bool checkName = false, bool varIdMatch = false)
+      : checkName(checkName), varIdMatch(varIdMatch), loops(loops) {}
 
   VISIT(Var);
   void handle(const Var *x, const Var *y) { result = compareVars(x, y); }
@@ -103,22 +107,30 @@ public:
 
   VISIT(WhileFlow);
   void handle(const WhileFlow *x, const WhileFlow *y) {
+    loops.emplace_back(x->getId(), y->getId());
     result = process(x->getCond(), y->getCond()) && process(x->getBody(), y->getBody());
+    loops.pop_back();
   }
   VISIT(ForFlow);
   void handle(const ForFlow *x, const ForFlow *y) {
+    loops.emplace_back(x->getId(), y->getId());
     result = (x->isAsync() == y->isAsync()) && process(x->getIter(), y->getIter()) &&
-             process(x->getBody(), y->getBody()) && process(x->getVar(), y->getVar());
+             process(x->getBody(), y->getBody()) && process(x->getVar(), y->getVar()) &&
+             compareSchedules(x->getSchedule(), y->getSchedule());
+    loops.pop_back();
   }
   VISIT(ImperativeForFlow);
   void handle(const ImperativeForFlow *x, const ImperativeForFlow *y) {
+    loops.emplace_back(x->getId(), y->getId());
     result = process(x->getVar(), y->getVar()) && process(x->getBody(), y->getBody()) &&
              process(x->getStart(), y->getStart()) && x->getStep() == y->getStep() &&
-             process(x->getEnd(), y->getEnd());
+             process(x->getEnd(), y->getEnd()) &&
+             compareSchedules(x->getSchedule(), y->getSchedule());
+    loops.pop_back();
   }
   VISIT(TryCatchFlow);
   void handle(const TryCatchFlow *x, const TryCatchFlow *y) {
-    result = result && process(x->getElse(), y->getElse()) &&
+    result = process(x->getElse(), y->getElse()) &&
              process(x->getFinally(), y->getFinally()) &&
              process(x->getBody(), y->getBody()) &&
              std::equal(x->begin(), x->end(), y->begin(), y->end(),
@@ -149,7 +161,11 @@ public:
   }
   VISIT(FloatConst);
   void handle(const FloatConst *x, const FloatConst *y) {
-    result = process(x->getType(), y->getType()) && x->getVal() == y->getVal();
+    // NaN matches itself, and 0.0 is not -0.0
+    auto xv = x->getVal(), yv = y->getVal();
+    result = process(x->getType(), y->getType()) &&
+             std::signbit(xv) == std::signbit(yv) &&
+             (xv == yv || (std::isnan(xv) && std::isnan(yv)));
   }
   VISIT(BoolConst);
   void handle(const BoolConst *x, const BoolConst *y) {
@@ -194,7 +210,8 @@ public:
   }
   VISIT(YieldInInstr);
   void handle(const YieldInInstr *x, const YieldInInstr *y) {
-    result = process(x->getType(), y->getType());
+    result = process(x->getType(), y->getType()) &&
+             x->isSuspending() == y->isSuspending();
   }
   VISIT(TernaryInstr);
   void handle(const TernaryInstr *x, const TernaryInstr *y) {
@@ -204,11 +221,11 @@ public:
   }
   VISIT(BreakInstr);
   void handle(const BreakInstr *x, const BreakInstr *y) {
-    result = process(x->getLoop(), y->getLoop());
+    result = compareLoops(x->getLoop(), y->getLoop());
   }
   VISIT(ContinueInstr);
   void handle(const ContinueInstr *x, const ContinueInstr *y) {
-    result = process(x->getLoop(), y->getLoop());
+    result = compareLoops(x->getLoop(), y->getLoop());
   }
   VISIT(ReturnInstr);
   void handle(const ReturnInstr *x, const ReturnInstr *y) {
@@ -216,7 +233,7 @@ public:
   }
   VISIT(YieldInstr);
   void handle(const YieldInstr *x, const YieldInstr *y) {
-    result = process(x->getValue(), y->getValue());
+    result = process(x->getValue(), y->getValue()) && x->isFinal() == y->isFinal();
   }
   VISIT(AwaitInstr);
   void handle(const AwaitInstr *x, const AwaitInstr *y) {
@@ -249,7 +266,7 @@ public:
     if (tx || ty)
       return tx && ty && tx->is(const_cast<types::Type *>(ty));
 
-    MatchVisitor v(checkName, varIdMatch);
+    MatchVisitor v(loops, checkName, varIdMatch);
     x->accept(v);
     y->accept(v);
 
@@ -262,10 +279,33 @@ private:
            (!varIdMatch || x->getId() == y->getId());
   }
 
+  bool compareLoops(const Value *x, const Value *y) const {
+    if (!x || !y)
+      return !x && !y;
+    // a loop being compared corresponds to the one it is compared with
+    for (auto it = loops.rbegin(); it != loops.rend(); ++it) {
+      if (it->first == x->getId() || it->second == y->getId())
+        return it->first == x->getId() && it->second == y->getId();
+    }
+    return x->getId() == y->getId();
+  }
+
+  bool compareSchedules(const transform::parallel::OMPSched *x,
+                        const transform::parallel::OMPSched *y) const {
+    if (!x || !y)
+      return !x && !y;
+    return x->code == y->code && x->dynamic == y->dynamic && x->ordered == y->ordered &&
+           x->collapse == y->collapse && x->gpu == y->gpu &&
+           process(x->threads, y->threads) && process(x->chunk, y->chunk);
+  }
+
   bool compareFuncs(const Func *x, const Func *y) const {
     if (!compareVars(x, y))
       return false;
 
+    if (x->isGenerator() != y->isGenerator() || x->isAsync() != y->isAsync())
+      return false;
+
     if (!std::equal(x->arg_begin(), x->arg_end(), y->arg_begin(), y->arg_end(),
                     [this](auto *x, auto *y) { return process(x, y); }))
       return false;
@@ -284,7 +324,8 @@ const char AnyVar::NodeId = 0;
 const char AnyFunc::NodeId = 0;
 
 bool match(Node *a, Node *b, bool checkNames, bool varIdMatch) {
-  return MatchVisitor(checkNames, varIdMatch).process(a, b);
+  std::vector<std::pair<id_t, id_t>> loops;
+  return MatchVisitor(loops, checkNames, varIdMatch).process(a, b);
 }
 
 } // namespace util
-- 
2.43.0


From bbbc5dd033f2c6c0847cf39dd743e09473ba7537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 05/53] fix: keep the parent type when cloning a function

---
 codon/cir/util/cloning.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codon/cir/util/cloning.cpp b/codon/cir/util/cloning.cpp
index 3ea1b2f..6571684 100644
--- a/codon/cir/util/cloning.cpp
+++ b/codon/cir/util/cloning.cpp
@@ -105,6 +105,7 @@ void CloneVisitor::visit(const BodiedFunc *v) {
   if (v->getBody())
     res->setBody(clone(v->getBody()));
   res->setJIT(v->isJIT());
+  res->setParentType(v->getParentType());
   result = res;
 }
 
@@ -126,6 +127,7 @@ void CloneVisitor::visit(const ExternalFunc *v) {
     ++argIt2;
   }
 
+  res->setParentType(v->getParentType());
   result = res;
 }
 
@@ -173,6 +175,7 @@ void CloneVisitor::visit(const LLVMFunc *v) {
   res->setLLVMDeclarations(v->getLLVMDeclarations());
   res->setLLVMLiterals(
       std::vector<types::Generic>(v->literal_begin(), v->literal_end()));
+  res->setParentType(v->getParentType());
   result = res;
 }
 
-- 
2.43.0


From a1a92adf0b7992535a3314922c0b789ab83cc3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 06/53] fix: let functions report and replace the types they
 use

---
 codon/cir/func.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codon/cir/func.cpp b/codon/cir/func.cpp
index 061f557..f0196ed 100644
--- a/codon/cir/func.cpp
+++ b/codon/cir/func.cpp
@@ -61,7 +61,7 @@ int Func::doReplaceUsedVariable(id_t id, Var *newVar) {
 std::vector<types::Type *> Func::doGetUsedTypes() const {
   std::vector<types::Type *> ret;
 
-  for (auto *t : Var::getUsedTypes())
+  for (auto *t : Var::doGetUsedTypes())
     ret.push_back(const_cast<types::Type *>(t));
 
   if (parentType)
@@ -71,7 +71,7 @@ std::vector<types::Type *> Func::doGetUsedTypes() const {
 }
 
 int Func::doReplaceUsedType(const std::string &name, types::Type *newType) {
-  auto count = Var::replaceUsedType(name, newType);
+  auto count = Var::doReplaceUsedType(name, newType);
   if (parentType && parentType->getName() == name) {
     parentType = newType;
     ++count;
@@ -110,7 +110,7 @@ const char LLVMFunc::NodeId = 0;
 std::vector<types::Type *> LLVMFunc::doGetUsedTypes() const {
   std::vector<types::Type *> ret;
 
-  for (auto *t : Func::getUsedTypes())
+  for (auto *t : Func::doGetUsedTypes())
     ret.push_back(const_cast<types::Type *>(t));
 
   for (auto &l : llvmLiterals)
@@ -121,7 +121,7 @@ std::vector<types::Type *> LLVMFunc::doGetUsedTypes() const {
 }
 
 int LLVMFunc::doReplaceUsedType(const std::string &name, types::Type *newType) {
-  auto count = Var::doReplaceUsedType(name, newType);
+  auto count = Func::doReplaceUsedType(name, newType);
   for (auto &l : llvmLiterals)
     if (l.isType() && l.getTypeValue()->getName() == name) {
       l = newType;
-- 
2.43.0


From bdcb1e90bc957e42a8f499980b5d944c274d362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 07/53] fix: replace uses in a try flow with a catch-all clause

---
 codon/cir/flow.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codon/cir/flow.cpp b/codon/cir/flow.cpp
index 172be5e..56af198 100644
--- a/codon/cir/flow.cpp
+++ b/codon/cir/flow.cpp
@@ -219,7 +219,7 @@ std::vector<types::Type *> TryCatchFlow::doGetUsedTypes() const {
 int TryCatchFlow::doReplaceUsedType(const std::string &name, types::Type *newType) {
   auto count = 0;
   for (auto &c : catches) {
-    if (c.getType()->getName() == name) {
+    if (c.getType() && c.getType()->getName() == name) {
       c.setType(newType);
       ++count;
     }
@@ -239,7 +239,7 @@ std::vector<Var *> TryCatchFlow::doGetUsedVariables() const {
 int TryCatchFlow::doReplaceUsedVariable(id_t id, Var *newVar) {
   auto count = 0;
   for (auto &c : catches) {
-    if (c.getVar()->getId() == id) {
+    if (c.getVar() && c.getVar()->getId() == id) {
       c.setVar(newVar);
       ++count;
     }
-- 
2.43.0


From 24a5fbee4ea983e1aaa67fb5e77fd29b3c376b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 08/53] fix: ask the replacement of a replaced variable for its
 uses

---
 codon/cir/var.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/codon/cir/var.h b/codon/cir/var.h
index aece4e5..bb58a4a 100644
--- a/codon/cir/var.h
+++ b/codon/cir/var.h
@@ -50,7 +50,7 @@ public:
     return std::vector<const Value *>(ret.begin(), ret.end());
   }
   int replaceUsedValue(id_t id, Value *newValue) final {
-    return doReplaceUsedValue(id, newValue);
+    return getActual()->doReplaceUsedValue(id, newValue);
   }
   using Node::replaceUsedValue;
 
@@ -62,9 +62,11 @@ public:
   }
   using Node::replaceUsedType;
 
-  std::vector<Var *> getUsedVariables() final { return doGetUsedVariables(); }
+  std::vector<Var *> getUsedVariables() final {
+    return getActual()->doGetUsedVariables();
+  }
   std::vector<const Var *> getUsedVariables() const final {
-    auto ret = doGetUsedVariables();
+    auto ret = getActual()->doGetUsedVariables();
     return std::vector<const Var *>(ret.begin(), ret.end());
   }
   int replaceUsedVariable(id_t id, Var *newVar) final {
-- 
2.43.0


From 83ec6cd3064132e706698fd374676efd6c33271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 09/53] fix: erase and copy attributes through a node's
 replacement

---
 codon/cir/base.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codon/cir/base.h b/codon/cir/base.h
index 2eff6a2..00f5b54 100644
--- a/codon/cir/base.h
+++ b/codon/cir/base.h
@@ -162,8 +162,10 @@ public:
   template <typename AttributeType> const AttributeType *getAttribute(int key) const {
     return static_cast<const AttributeType *>(getAttribute(key));
   }
-  void eraseAttribute(int key) { attributes.erase(key); }
-  void cloneAttributesFrom(Node *n) { attributes = codon::clone(n->attributes); }
+  void eraseAttribute(int key) { getActual()->attributes.erase(key); }
+  void cloneAttributesFrom(Node *n) {
+    getActual()->attributes = codon::clone(n->getActual()->attributes);
+  }
 
   /// @return iterator to the first attribute
   auto attributes_begin() {
-- 
2.43.0


From 0c41cb958628e23c9983d66562a1abe9e45fefc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 10/53] fix: compare IR nodes in the order they were given

---
 codon/cir/util/matching.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/cir/util/matching.cpp b/codon/cir/util/matching.cpp
index b618127..def3e03 100644
--- a/codon/cir/util/matching.cpp
+++ b/codon/cir/util/matching.cpp
@@ -20,7 +20,7 @@
                (checkName && v->getName() != other->getName()))                       \
       result = false;                                                                  \
     else                                                                               \
-      handle(v, static_cast<const x *>(other));                                        \
+      handle(static_cast<const x *>(other), v);                                        \
   }
 
 namespace codon {
-- 
2.43.0


From 03230f6630a63be3a91c81ee222fca7c4a1083ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 11/53] fix: remove a replaced node rather than its replacement
 from the module

---
 codon/cir/module.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codon/cir/module.h b/codon/cir/module.h
index f72834c..0363f11 100644
--- a/codon/cir/module.h
+++ b/codon/cir/module.h
@@ -190,7 +190,8 @@ public:
   /// Removes a given var.
   /// @param v the var
   void remove(const Var *v) {
-    auto it = varMap.find(v->getId());
+    // a replaced variable reports its replacement's id
+    auto it = varMap.find(v->IdMixin::getId());
     vars.erase(it->second);
     varMap.erase(it);
   }
@@ -228,7 +229,8 @@ public:
   /// Removes a given value.
   /// @param v the value
   void remove(const Value *v) {
-    auto it = valueMap.find(v->getId());
+    // a replaced value reports its replacement's id
+    auto it = valueMap.find(v->IdMixin::getId());
     values.erase(it->second);
     valueMap.erase(it);
   }
-- 
2.43.0


From 7bcde907413820ae34a87c166f485851d7766cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 12/53] fix: a ternary is not dominated by values computed
 after it in its block

---
 codon/cir/analyze/dataflow/dominator.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/codon/cir/analyze/dataflow/dominator.cpp b/codon/cir/analyze/dataflow/dominator.cpp
index 5466f0c..943e1b3 100644
--- a/codon/cir/analyze/dataflow/dominator.cpp
+++ b/codon/cir/analyze/dataflow/dominator.cpp
@@ -84,11 +84,15 @@ bool DominatorInspector::isDominated(const Value *v, const Value *dominator) {
   auto *dBlock = cfg->getBlock(dominator);
 
   if (vBlock->getId() == dBlock->getId()) {
-    auto vDist =
-        std::distance(vBlock->begin(), std::find(vBlock->begin(), vBlock->end(), v));
-    auto dDist = std::distance(vBlock->begin(),
-                               std::find(vBlock->begin(), vBlock->end(), dominator));
-    return dDist <= vDist;
+    // a ternary is represented by its phi instruction in the block
+    auto position = [&](const Value *val) {
+      auto it = std::find_if(vBlock->begin(), vBlock->end(), [&](const Value *other) {
+        auto *phi = cast<SyntheticPhiInstr>(other);
+        return other == val || (phi && phi->getSource() == val);
+      });
+      return std::distance(vBlock->begin(), it);
+    };
+    return position(dominator) <= position(v);
   }
 
   auto &set = sets[vBlock->getId()];
-- 
2.43.0


From ded77caad8c3b7f69eb944cbf455cb2282973673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 13/53] fix: the body of a while loop follows the end of its
 condition in the CFG

---
 codon/cir/analyze/dataflow/cfg.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 6563f9a..6bc3a2e 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -195,11 +195,12 @@ void CFVisitor::visit(const WhileFlow *v) {
   auto *loopBegin = graph->newBlock("whileBegin", true);
   original->successors_insert(loopBegin);
   process(v->getCond());
-  graph->getCurrentBlock()->successors_insert(end);
+  auto *condEnd = graph->getCurrentBlock();
+  condEnd->successors_insert(end);
 
   loopStack.emplace_back(loopBegin, end, v->getId(), tryCatchStack.size() - 1);
   auto *body = graph->newBlock("whileBody", true);
-  loopBegin->successors_insert(body);
+  condEnd->successors_insert(body);
   process(v->getBody());
   loopStack.pop_back();
   graph->getCurrentBlock()->successors_insert(loopBegin);
-- 
2.43.0


From a795531d128e40fc1d3f800cab6b43b9918c3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 14/53] fix: the bounds of an imperative loop are evaluated
 before its variable is assigned in the CFG

---
 codon/cir/analyze/dataflow/cfg.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 6bc3a2e..7dc7d2e 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -252,9 +252,6 @@ void CFVisitor::visit(const ImperativeForFlow *v) {
 
   auto *loopBegin = graph->newBlock("forBegin", true);
   original->successors_insert(loopBegin);
-  loopBegin->push_back(graph->N<analyze::dataflow::SyntheticAssignInstr>(
-      v, const_cast<Var *>(v->getVar()), const_cast<Value *>(v->getStart()),
-      analyze::dataflow::SyntheticAssignInstr::KNOWN));
   process(v->getStart());
   process(v->getEnd());
 
@@ -262,14 +259,22 @@ void CFVisitor::visit(const ImperativeForFlow *v) {
   graph->getCurrentBlock()->successors_insert(loopCheck);
   loopCheck->successors_insert(end);
 
+  // the loop variable is only assigned if an iteration follows
+  auto *loopFirst = graph->newBlock("forFirst");
+  loopCheck->successors_insert(loopFirst);
+  loopFirst->push_back(graph->N<analyze::dataflow::SyntheticAssignInstr>(
+      v, const_cast<Var *>(v->getVar()), const_cast<Value *>(v->getStart()),
+      analyze::dataflow::SyntheticAssignInstr::KNOWN));
+
   auto *loopNext = graph->newBlock("forUpdate");
+  loopCheck->successors_insert(loopNext);
   loopNext->push_back(graph->N<analyze::dataflow::SyntheticAssignInstr>(
       v, const_cast<Var *>(v->getVar()), v->getStep()));
-  loopNext->successors_insert(loopCheck);
 
   loopStack.emplace_back(loopCheck, end, v->getId(), tryCatchStack.size() - 1);
   auto *loopBody = graph->newBlock("forBody", true);
-  loopCheck->successors_insert(loopBody);
+  loopFirst->successors_insert(loopBody);
+  loopNext->successors_insert(loopBody);
   process(v->getBody());
   graph->getCurrentBlock()->successors_insert(loopCheck);
   loopStack.pop_back();
-- 
2.43.0


From f273916a60d6944ff5cbdd0a1553b89fe33fd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 15/53] fix: control leaves a finally clause where the clause
 ends in the CFG

---
 codon/cir/analyze/dataflow/cfg.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 7dc7d2e..9d95a51 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -287,14 +287,17 @@ void CFVisitor::visit(const TryCatchFlow *v) {
   auto *end = graph->newBlock("tcEnd");
   analyze::dataflow::CFBlock *else_ = nullptr;
   analyze::dataflow::CFBlock *finally = nullptr;
+  analyze::dataflow::CFBlock *finallyEnd = nullptr;
   if (v->getElse())
     else_ = graph->newBlock("tcElse");
-  if (v->getFinally())
+  if (v->getFinally()) {
     finally = graph->newBlock("tcFinally");
+    finallyEnd = graph->newBlock("tcFinallyEnd");
+  }
 
   auto *dst = finally ? finally : end;
 
-  tryCatchStack.emplace_back(routeBlock, finally);
+  tryCatchStack.emplace_back(routeBlock, finallyEnd);
   process(v->getBody());
   graph->getCurrentBlock()->successors_insert(else_ ? else_ : dst);
 
@@ -319,13 +322,14 @@ void CFVisitor::visit(const TryCatchFlow *v) {
   if (v->getFinally()) {
     graph->setCurrentBlock(finally);
     process(v->getFinally());
-    graph->getCurrentBlock()->successors_insert(end);
+    graph->getCurrentBlock()->successors_insert(finallyEnd);
+    finallyEnd->successors_insert(end);
     routeBlock->successors_insert(finally);
   }
 
   if (!tryCatchStack.empty()) {
-    if (finally)
-      finally->successors_insert(tryCatchStack.back().first);
+    if (finallyEnd)
+      finallyEnd->successors_insert(tryCatchStack.back().first);
     else
       routeBlock->successors_insert(tryCatchStack.back().first);
   }
-- 
2.43.0


From 7a8c6018ffde81457449d9470550dffaff51073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 16/53] fix: code after a break or continue is not on the path
 of the jump in the CFG

---
 codon/cir/analyze/dataflow/cfg.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 9d95a51..3a0e09b 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -402,12 +402,18 @@ void CFVisitor::visit(const BreakInstr *v) {
   auto &loop = v->getLoop() ? findLoop(v->getLoop()->getId()) : loopStack.back();
   defaultJump(loop.end, loop.tcIndex);
   defaultInsert(v);
+  // whatever follows the jump is not part of its path
+  auto *jump = graph->getCurrentBlock();
+  jump->successors_insert(graph->newBlock("afterJump", true));
 }
 
 void CFVisitor::visit(const ContinueInstr *v) {
   auto &loop = v->getLoop() ? findLoop(v->getLoop()->getId()) : loopStack.back();
   defaultJump(loop.nextIt, loop.tcIndex);
   defaultInsert(v);
+  // whatever follows the jump is not part of its path
+  auto *jump = graph->getCurrentBlock();
+  jump->successors_insert(graph->newBlock("afterJump", true));
 }
 
 void CFVisitor::visit(const ReturnInstr *v) {
-- 
2.43.0


From 0090e6d5cb546fd5bfaca577dd4add2668248580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 17/53] fix: memory of dropped run-time loaded code does not
 stay a GC root

---
 codon/compiler/memory_manager.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/codon/compiler/memory_manager.cpp b/codon/compiler/memory_manager.cpp
index c38cf82..131f00d 100644
--- a/codon/compiler/memory_manager.cpp
+++ b/codon/compiler/memory_manager.cpp
@@ -5,6 +5,14 @@
 #include "codon/runtime/lib.h"
 
 namespace codon {
+namespace {
+/// Releases the given memory, which the collector must not scan any longer.
+std::error_code releaseMemory(llvm::sys::MemoryBlock &MB) {
+  if (MB.base() && MB.allocatedSize())
+    seq_gc_remove_roots(MB.base(), (char *)MB.base() + MB.allocatedSize());
+  return llvm::sys::Memory::releaseMappedMemory(MB);
+}
+} // namespace
 
 class BoehmGCJITLinkMemoryManager::IPInFlightAlloc
     : public llvm::jitlink::JITLinkMemoryManager::InFlightAlloc {
@@ -33,7 +41,7 @@ public:
     }
 
     // Release the finalize segments slab.
-    if (auto EC = llvm::sys::Memory::releaseMappedMemory(FinalizationSegments)) {
+    if (auto EC = releaseMemory(FinalizationSegments)) {
       OnFinalized(llvm::errorCodeToError(EC));
       return;
     }
@@ -45,9 +53,9 @@ public:
 
   void abandon(OnAbandonedFunction OnAbandoned) override {
     llvm::Error Err = llvm::Error::success();
-    if (auto EC = llvm::sys::Memory::releaseMappedMemory(FinalizationSegments))
+    if (auto EC = releaseMemory(FinalizationSegments))
       Err = llvm::joinErrors(std::move(Err), llvm::errorCodeToError(EC));
-    if (auto EC = llvm::sys::Memory::releaseMappedMemory(StandardSegments))
+    if (auto EC = releaseMemory(StandardSegments))
       Err = llvm::joinErrors(std::move(Err), llvm::errorCodeToError(EC));
     OnAbandoned(std::move(Err));
   }
@@ -207,7 +215,7 @@ void BoehmGCJITLinkMemoryManager::deallocate(std::vector<FinalizedAlloc> Allocs,
     }
 
     /// Release the standard segments slab.
-    if (auto EC = llvm::sys::Memory::releaseMappedMemory(StandardSegments))
+    if (auto EC = releaseMemory(StandardSegments))
       DeallocErr = llvm::joinErrors(std::move(DeallocErr), llvm::errorCodeToError(EC));
 
     DeallocActionsList.pop_back();
-- 
2.43.0


From ebde52d7c9430723a7bf635fc89532413be8de84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 18/53] fix: operators do not walk into the loop that a break
 or continue names

---
 codon/cir/util/operator.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/codon/cir/util/operator.h b/codon/cir/util/operator.h
index 15aa9be..e192360 100644
--- a/codon/cir/util/operator.h
+++ b/codon/cir/util/operator.h
@@ -113,8 +113,21 @@ public:
   LAMBDA_VISIT(TypePropertyInstr);
   LAMBDA_VISIT(YieldInInstr);
   LAMBDA_VISIT(TernaryInstr);
-  LAMBDA_VISIT(BreakInstr);
-  LAMBDA_VISIT(ContinueInstr);
+
+  // The loop named by a break or continue encloses it and is not part of it.
+  virtual void handle(codon::ir::BreakInstr *v) {}
+  void visit(codon::ir::BreakInstr *v) override {
+    preHook(v);
+    handle(v);
+    postHook(v);
+  }
+  virtual void handle(codon::ir::ContinueInstr *v) {}
+  void visit(codon::ir::ContinueInstr *v) override {
+    preHook(v);
+    handle(v);
+    postHook(v);
+  }
+
   LAMBDA_VISIT(ReturnInstr);
   LAMBDA_VISIT(YieldInstr);
   LAMBDA_VISIT(AwaitInstr);
-- 
2.43.0


From e83cba37da491513d46f90d4822a47ae8cac9b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 19/53] fix: inlining of recursive calls, generators, returned
 side effects and missing returns

---
 codon/cir/util/inlining.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/codon/cir/util/inlining.cpp b/codon/cir/util/inlining.cpp
index b953982..e53ced8 100644
--- a/codon/cir/util/inlining.cpp
+++ b/codon/cir/util/inlining.cpp
@@ -59,6 +59,8 @@ public:
     auto *rep = M->N<SeriesFlow>(v);
     if (var) {
       rep->push_back(M->N<AssignInstr>(v, var, cv.clone(v->getValue())));
+    } else if (v->getValue()) {
+      rep->push_back(cv.clone(v->getValue()));
     }
     if (aggressive)
       rep->push_back(M->N<BreakInstr>(v, implicitLoop));
@@ -72,7 +74,7 @@ public:
 InlineResult inlineFunction(Func *func, std::vector<Value *> args, bool aggressive,
                             codon::SrcInfo info) {
   auto *bodied = cast<BodiedFunc>(func);
-  if (!bodied)
+  if (!bodied || bodied->isGenerator() || bodied->isAsync())
     return {nullptr, {}};
   auto *fType = cast<types::FuncType>(bodied->getType());
   if (!fType || args.size() != std::distance(bodied->arg_begin(), bodied->arg_end()))
@@ -82,11 +84,14 @@ InlineResult inlineFunction(Func *func, std::vector<Value *> args, bool aggressi
   util::CloneVisitor cv(M);
   auto *newFlow = M->N<SeriesFlow>(info, bodied->getName() + "_inlined");
 
+  // The arguments belong to the caller, which may be the inlined function itself, so
+  // they are cloned independently of the function's variables and body.
+  util::CloneVisitor argCv(M);
   std::vector<Var *> newVars;
   auto arg_it = bodied->arg_begin();
   for (auto i = 0; i < args.size(); ++i) {
     newVars.push_back(cv.forceClone(*arg_it++));
-    newFlow->push_back(M->N<AssignInstr>(info, newVars.back(), cv.clone(args[i])));
+    newFlow->push_back(M->N<AssignInstr>(info, newVars.back(), argCv.clone(args[i])));
   }
   for (auto *v : *bodied) {
     newVars.push_back(cv.forceClone(v));
@@ -111,8 +116,7 @@ InlineResult inlineFunction(Func *func, std::vector<Value *> args, bool aggressi
     auto *loopBody = M->N<SeriesFlow>(info);
     implicit = M->N<WhileFlow>(info, M->getBool(true), loopBody);
     loopBody->push_back(clonedBody);
-    if (!retVal)
-      loopBody->push_back(M->N<BreakInstr>(info, implicit));
+    loopBody->push_back(M->N<BreakInstr>(info, implicit));
   }
 
   ReturnReplacer rr(implicit, retVal, rv.needLoop, cv);
-- 
2.43.0


From 24ee769cf2d4856a9a9ce4072c5379c37ed8f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 20/53] fix: outlining of returned values, member pointers and
 re-raises

---
 codon/cir/util/outlining.cpp | 98 ++++++++++++++++++++++++++++++++----
 1 file changed, 88 insertions(+), 10 deletions(-)

diff --git a/codon/cir/util/outlining.cpp b/codon/cir/util/outlining.cpp
index f8f5e35..b185b0f 100644
--- a/codon/cir/util/outlining.cpp
+++ b/codon/cir/util/outlining.cpp
@@ -14,16 +14,25 @@ namespace codon {
 namespace ir {
 namespace util {
 namespace {
+// Does the instruction return a value that the call site needs?
+bool hasReturnValue(ReturnInstr *v) {
+  auto *M = v->getModule();
+  return v->getValue() && !v->getValue()->getType()->is(M->getVoidType()) &&
+         !v->getValue()->getType()->is(M->getNoneType());
+}
+
 struct OutlineReplacer : public Operator {
   std::unordered_set<id_t> &modVars;
   std::vector<std::pair<Var *, Var *>> &remap;
   std::vector<Value *> &outFlows;
+  Var *retVar; // receives the value returned from the region
   CloneVisitor cv;
 
   OutlineReplacer(Module *M, std::unordered_set<id_t> &modVars,
                   std::vector<std::pair<Var *, Var *>> &remap,
-                  std::vector<Value *> &outFlows)
-      : Operator(), modVars(modVars), remap(remap), outFlows(outFlows), cv(M, false) {}
+                  std::vector<Value *> &outFlows, Var *retVar)
+      : Operator(), modVars(modVars), remap(remap), outFlows(outFlows), retVar(retVar),
+        cv(M, false) {}
 
   // Replace all used vars based on remapping.
   void postHook(Node *node) override {
@@ -55,7 +64,26 @@ struct OutlineReplacer : public Operator {
     }
   }
 
-  void handle(ReturnInstr *v) override { replaceOutFlowWithReturn(v); }
+  void handle(ReturnInstr *v) override {
+    auto *M = v->getModule();
+    auto *value = v->getValue();
+    if (!value) {
+      replaceOutFlowWithReturn(v);
+      return;
+    }
+    for (unsigned i = 0; i < outFlows.size(); i++) {
+      if (outFlows[i]->getId() == v->getId()) {
+        const bool hasValue = hasReturnValue(v);
+        auto *code = M->Nr<ReturnInstr>(M->getInt(i + 1));
+        outFlows[i] = M->N<ReturnInstr>(
+            v->getSrcInfo(), hasValue ? M->Nr<VarValue>(retVar) : nullptr);
+        v->replaceAll(series(
+            hasValue ? ptrStore(M->Nr<VarValue>(mappedVar(retVar)), value) : value,
+            code));
+        break;
+      }
+    }
+  }
 
   void handle(BreakInstr *v) override { replaceOutFlowWithReturn(v); }
 
@@ -113,6 +141,8 @@ struct Outliner : public Operator {
       modifiedInVars; // vars modified (assigned or address'd) in region
   std::unordered_set<id_t> globalsToOutline; // modified global vars to outline
   std::unordered_set<id_t> inLoops;          // loops contained in region
+  std::unordered_set<id_t> inTries;          // try-catches contained in region
+  std::unordered_set<id_t> memberPtrVars;    // vars with a member address'd in region
   std::vector<Value *>
       outFlows; // control flows that need to be handled externally (e.g. return)
 
@@ -122,7 +152,7 @@ struct Outliner : public Operator {
       : Operator(), parent(parent), flowRegion(flowRegion), begin(begin), end(end),
         outlineGlobals(outlineGlobals), allByValue(allByValue), inRegion(false),
         invalid(false), inVars(), outVars(), modifiedInVars(), globalsToOutline(),
-        inLoops(), outFlows() {}
+        inLoops(), inTries(), memberPtrVars(), outFlows() {}
 
   bool isEnclosingLoopInRegion(id_t loopId = -1) {
     int d = depth();
@@ -154,6 +184,31 @@ struct Outliner : public Operator {
       inLoops.insert(v->getId());
   }
 
+  // Is the exception being handled at this point one that was caught in the region?
+  bool isEnclosingCatchInRegion() {
+    int d = depth();
+    for (int i = 1; i < d; i++) {
+      if (auto *v = getParent<TryCatchFlow>(i)) {
+        auto *child = getParent<Value>(i - 1);
+        for (auto &c : *v) {
+          if (child && c.getHandler()->getId() == child->getId())
+            return inTries.count(v->getId()) > 0;
+        }
+      }
+    }
+    return false;
+  }
+
+  void handle(TryCatchFlow *v) override {
+    if (inRegion)
+      inTries.insert(v->getId());
+  }
+
+  void handle(ThrowInstr *v) override {
+    if (inRegion && !v->getValue() && !isEnclosingCatchInRegion())
+      invalid = true;
+  }
+
   void handle(ReturnInstr *v) override {
     if (inRegion)
       outFlows.push_back(v);
@@ -203,6 +258,8 @@ struct Outliner : public Operator {
   void handle(PointerValue *v) override {
     if (inRegion) {
       auto *var = v->getVar();
+      if (!v->getFields().empty())
+        memberPtrVars.insert(var->getId());
       modifiedInVars.insert(var->getId());
       if (outlineGlobals && var->isGlobal() && !var->isThreadLocal())
         globalsToOutline.insert(var->getId());
@@ -300,6 +357,32 @@ struct Outliner : public Operator {
     auto shared = getSharedVars();
     shared.insert(globalsToOutline.begin(), globalsToOutline.end());
     auto mod = getModVars();
+
+    // A pointer to a member of a variable passed by pointer cannot be expressed.
+    for (auto id : memberPtrVars) {
+      if (mod.count(id) > 0)
+        return {};
+    }
+
+    // Check if we need to handle control flow externally.
+    // If so, function will return an int code indicating control.
+    const bool callIndicatesControl = !outFlows.empty();
+    if (callIndicatesControl && !allowOutflows)
+      return {};
+
+    // Returned values are computed in the outlined function, and passed back by pointer.
+    Var *retVar = nullptr;
+    for (auto *flow : outFlows) {
+      auto *ret = cast<ReturnInstr>(flow);
+      if (ret && hasReturnValue(ret)) {
+        retVar = M->Nr<Var>(ret->getValue()->getType());
+        parent->push_back(retVar);
+        shared.insert(retVar->getId());
+        mod.insert(retVar->getId());
+        break;
+      }
+    }
+
     for (auto id : shared) {
       Var *var = M->getVar(id);
       seqassertn(var, "unknown var id [{}]", var->getSrcInfo());
@@ -312,11 +395,6 @@ struct Outliner : public Operator {
                                : OutlineResult::ArgKind::CONSTANT);
     }
 
-    // Check if we need to handle control flow externally.
-    // If so, function will return an int code indicating control.
-    const bool callIndicatesControl = !outFlows.empty();
-    if (callIndicatesControl && !allowOutflows)
-      return {};
     auto *funcType = M->getFuncType(
         callIndicatesControl ? M->getIntType() : M->getNoneType(), argTypes);
     auto *outlinedFunc = M->Nr<BodiedFunc>("__outlined");
@@ -349,7 +427,7 @@ struct Outliner : public Operator {
     outlinedFunc->setBody(body);
 
     // Replace vars and externally-handled flows.
-    OutlineReplacer outRep(M, mod, remap, outFlows);
+    OutlineReplacer outRep(M, mod, remap, outFlows, retVar);
     body->accept(outRep);
 
     // Determine arguments for call to outlined function.
-- 
2.43.0


From b346192d6ef583fda7e735a50025c9a7d0c6cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 21/53] fix: occurs check and levels of unknowns inside hidden
 generics

---
 codon/parser/ast/types/link.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/codon/parser/ast/types/link.cpp b/codon/parser/ast/types/link.cpp
index b5bcbc4..ab93569 100644
--- a/codon/parser/ast/types/link.cpp
+++ b/codon/parser/ast/types/link.cpp
@@ -258,9 +258,10 @@ bool LinkType::occurs(Type *typ, Type::Unification *undo) {
     return false;
   }
   if (const auto tc = typ->getClass()) {
-    return std::ranges::any_of(
-        tc->generics.begin(), tc->generics.end(),
-        [&](const auto &g) { return g.type && occurs(g.type.get(), undo); });
+    auto pred = [&](const auto &g) { return g.type && occurs(g.type.get(), undo); };
+    return std::ranges::any_of(tc->generics.begin(), tc->generics.end(), pred) ||
+           std::ranges::any_of(tc->hiddenGenerics.begin(), tc->hiddenGenerics.end(),
+                               pred);
   } else {
     return false;
   }
-- 
2.43.0


From da5d361afbf7937185da4fc5fec75f9ead11bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 22/53] fix: unify a literal unknown with a plain one in either
 order

---
 codon/parser/ast/types/link.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codon/parser/ast/types/link.cpp b/codon/parser/ast/types/link.cpp
index ab93569..d147d25 100644
--- a/codon/parser/ast/types/link.cpp
+++ b/codon/parser/ast/types/link.cpp
@@ -41,6 +41,12 @@ int LinkType::unify(Type *typ, Unification *undo) {
           undo->statics.push_back(shared_from_this());
           staticKind = typ->getStaticKind();
         }
+      } else if (auto t = typ->getUnbound(); t && !t->getStaticKind()) {
+        // this one is; move the other one
+        if (undo) {
+          undo->statics.push_back(t->shared_from_this());
+          t->staticKind = staticKind;
+        }
       } else {
         return -1;
       }
-- 
2.43.0


From 980ed58ad9d3adf84f7e4c90a174762799056907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 23/53] fix: realized names are not remembered across an undone
 unification

---
 codon/parser/ast/types/class.cpp          | 6 ------
 codon/parser/ast/types/class.h            | 1 -
 codon/parser/visitors/typecheck/call.cpp  | 2 --
 codon/parser/visitors/typecheck/infer.cpp | 1 -
 4 files changed, 10 deletions(-)

diff --git a/codon/parser/ast/types/class.cpp b/codon/parser/ast/types/class.cpp
index 512e2b1..be0fbd5 100644
--- a/codon/parser/ast/types/class.cpp
+++ b/codon/parser/ast/types/class.cpp
@@ -305,9 +305,6 @@ std::string ClassType::debugString(char mode) const {
 }
 
 std::string ClassType::realizedName() const {
-  if (!_rn.empty())
-    return _rn;
-
   std::string s;
   if (name == "Partial") {
     s = debugString(1);
@@ -327,9 +324,6 @@ std::string ClassType::realizedName() const {
     s = name + (s.empty() ? "" : ("[" + s + "]"));
   }
 
-  if (canRealize())
-    const_cast<ClassType *>(this)->_rn = s;
-
   return s;
 }
 
diff --git a/codon/parser/ast/types/class.h b/codon/parser/ast/types/class.h
index 150c5c3..5c33f77 100644
--- a/codon/parser/ast/types/class.h
+++ b/codon/parser/ast/types/class.h
@@ -50,7 +50,6 @@ struct ClassType : public Type {
   std::vector<Generic> hiddenGenerics;
 
   bool isTuple = false;
-  std::string _rn;
 
   explicit ClassType(Cache *cache, std::string name, std::vector<Generic> generics = {},
                      std::vector<Generic> hiddenGenerics = {});
diff --git a/codon/parser/visitors/typecheck/call.cpp b/codon/parser/visitors/typecheck/call.cpp
index 3cb91d4..2a48bfd 100644
--- a/codon/parser/visitors/typecheck/call.cpp
+++ b/codon/parser/visitors/typecheck/call.cpp
@@ -847,8 +847,6 @@ bool TypecheckVisitor::typecheckCallArgs(FuncType *calleeFn, std::vector<CallArg
           replacements[si]->shared_from_this();
     }
   }
-  extractClassGeneric(calleeFn)->getClass()->_rn = "";
-  calleeFn->getClass()->_rn = ""; /// TODO: TERRIBLE!
 
   return done;
 }
diff --git a/codon/parser/visitors/typecheck/infer.cpp b/codon/parser/visitors/typecheck/infer.cpp
index 41d4970..1b69f3e 100644
--- a/codon/parser/visitors/typecheck/infer.cpp
+++ b/codon/parser/visitors/typecheck/infer.cpp
@@ -260,7 +260,6 @@ types::Type *TypecheckVisitor::realizeType(types::ClassType *type) {
       }
     type->name = TYPE_TUPLE;
     type->generics = generics;
-    type->_rn = "";
   }
 
   // Check if the type was already realized
-- 
2.43.0


From 72548420a89c5af024c3a4bdcd9d12ccfb0db710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 24/53] fix: copies of parameters and call arguments keep their
 location

---
 codon/parser/ast/expr.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codon/parser/ast/expr.cpp b/codon/parser/ast/expr.cpp
index 2fe4ea5..981be84 100644
--- a/codon/parser/ast/expr.cpp
+++ b/codon/parser/ast/expr.cpp
@@ -70,7 +70,8 @@ std::string Param::toString(int indent) const {
                      !isValue() ? " #:generic" : "");
 }
 Param Param::clone(bool clean) const {
-  return Param(name, ast::clone(type, clean), ast::clone(defaultValue, clean), status);
+  return Param(getSrcInfo(), name, ast::clone(type, clean),
+               ast::clone(defaultValue, clean), status);
 }
 std::pair<int, std::string> Param::getNameWithStars() const {
   int stars = 0;
@@ -410,7 +411,7 @@ std::string IndexExpr::toString(int indent) const {
 }
 
 CallArg CallArg::clone(bool clean) const {
-  return CallArg{name, ast::clone(value, clean)};
+  return CallArg{getSrcInfo(), name, ast::clone(value, clean)};
 }
 CallArg::CallArg(const SrcInfo &info, std::string name, Expr *value)
     : name(std::move(name)), value(value) {
-- 
2.43.0


From 78bb611583bf78d3cbc96195b49057b044c0d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 25/53] fix: a clean copy of an f-string cleans the embedded
 expressions

---
 codon/parser/ast/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/ast/expr.cpp b/codon/parser/ast/expr.cpp
index 981be84..e1b12fc 100644
--- a/codon/parser/ast/expr.cpp
+++ b/codon/parser/ast/expr.cpp
@@ -169,7 +169,7 @@ StringExpr::StringExpr(std::string value, std::string prefix)
 StringExpr::StringExpr(const StringExpr &expr, bool clean)
     : AcceptorExtend(expr, clean), strings(expr.strings) {
   for (auto &s : strings)
-    s.expr = ast::clone(s.expr);
+    s.expr = ast::clone(s.expr, clean);
 }
 std::string StringExpr::toString(int) const {
   std::vector<std::string> s;
-- 
2.43.0


From aae443660b1e8448e56786be2523986d6fd21085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 26/53] fix: a clean copy of an except clause is clean itself

---
 codon/parser/ast/stmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/ast/stmt.cpp b/codon/parser/ast/stmt.cpp
index de8056a..57f3eec 100644
--- a/codon/parser/ast/stmt.cpp
+++ b/codon/parser/ast/stmt.cpp
@@ -272,7 +272,7 @@ std::string ImportStmt::toString(int indent) const {
 ExceptStmt::ExceptStmt(const std::string &var, Expr *exc, Stmt *suite)
     : var(var), exc(exc), suite(SuiteStmt::wrap(suite)) {}
 ExceptStmt::ExceptStmt(const ExceptStmt &stmt, bool clean)
-    : AcceptorExtend(stmt), var(stmt.var), exc(ast::clone(stmt.exc, clean)),
+    : AcceptorExtend(stmt, clean), var(stmt.var), exc(ast::clone(stmt.exc, clean)),
       suite(ast::clone(stmt.suite, clean)) {}
 std::string ExceptStmt::toString(int indent) const {
   std::string pad = indent > 0 ? ("\n" + std::string(indent + INDENT_SIZE, ' ')) : " ";
-- 
2.43.0


From 750f9ba3df53a55b55c791df670e7a352d442bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 27/53] fix: a copy of a while loop keeps its break flag
 variable

---
 codon/parser/ast/stmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/ast/stmt.cpp b/codon/parser/ast/stmt.cpp
index 57f3eec..a3162d6 100644
--- a/codon/parser/ast/stmt.cpp
+++ b/codon/parser/ast/stmt.cpp
@@ -150,7 +150,7 @@ WhileStmt::WhileStmt(Expr *cond, Stmt *suite, Stmt *elseSuite)
 WhileStmt::WhileStmt(const WhileStmt &stmt, bool clean)
     : AcceptorExtend(stmt, clean), cond(ast::clone(stmt.cond, clean)),
       suite(ast::clone(stmt.suite, clean)),
-      elseSuite(ast::clone(stmt.elseSuite, clean)) {}
+      elseSuite(ast::clone(stmt.elseSuite, clean)), gotoVar(stmt.gotoVar) {}
 std::string WhileStmt::toString(int indent) const {
   if (indent == -1)
     return wrapStmt(fmt::format("(while {})", cond->toString(indent)));
-- 
2.43.0


From c65f76421cc514e0943f62accd25c65c5e41eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 28/53] fix: print the finally clause of a try statement

---
 codon/parser/ast/stmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/ast/stmt.cpp b/codon/parser/ast/stmt.cpp
index a3162d6..46f2beb 100644
--- a/codon/parser/ast/stmt.cpp
+++ b/codon/parser/ast/stmt.cpp
@@ -300,7 +300,7 @@ std::string TryStmt::toString(int indent) const {
   for (auto &i : items)
     s.push_back(i->toString(indent));
   return wrapStmt(fmt::format(
-      "(try{}{}{}{}{})", pad, suite->toString(indent >= 0 ? indent + INDENT_SIZE : -1),
+      "(try{}{}{}{}{}{})", pad, suite->toString(indent >= 0 ? indent + INDENT_SIZE : -1),
       pad, join(s, pad),
       elseSuite
           ? fmt::format("{}(else {})", pad,
-- 
2.43.0


From 49c0c050350c12bb5b056b21317128ae5ae2c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 29/53] fix: escape control characters with two hex digits

---
 codon/parser/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/common.cpp b/codon/parser/common.cpp
index 8f81c9d..5221d5c 100644
--- a/codon/parser/common.cpp
+++ b/codon/parser/common.cpp
@@ -172,7 +172,7 @@ std::string escape(const std::string &str) {
     case '\\': r += "\\\\"; break;
     default:
       if (c < 32 || c >= 127)
-        r += fmt::format("\\x{:x}", c);
+        r += fmt::format("\\x{:02x}", c);
       else
         r += c;
     }
-- 
2.43.0


From e67468c93828878a6f6b8b1e6563489ddade5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 30/53] fix: globals bound by loops and except clauses are not
 constants

---
 codon/cir/analyze/module/global_vars.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/codon/cir/analyze/module/global_vars.cpp b/codon/cir/analyze/module/global_vars.cpp
index 3cd81c0..9dbe740 100644
--- a/codon/cir/analyze/module/global_vars.cpp
+++ b/codon/cir/analyze/module/global_vars.cpp
@@ -12,9 +12,21 @@ namespace {
 struct GlobalVarAnalyzer : public util::Operator {
   std::unordered_map<id_t, id_t> assignments;
 
-  void handle(PointerValue *v) override {
-    if (v->getVar()->isGlobal())
-      assignments[v->getVar()->getId()] = -1;
+  /// Marks a global as having a value other than a single assigned one.
+  void invalidate(const Var *v) {
+    if (v && v->isGlobal())
+      assignments[v->getId()] = -1;
+  }
+
+  void handle(PointerValue *v) override { invalidate(v->getVar()); }
+
+  void handle(ForFlow *v) override { invalidate(v->getVar()); }
+
+  void handle(ImperativeForFlow *v) override { invalidate(v->getVar()); }
+
+  void handle(TryCatchFlow *v) override {
+    for (auto &c : *v)
+      invalidate(c.getVar());
   }
 
   void handle(AssignInstr *v) override {
-- 
2.43.0


From 56ab21c8bffbe50c4ad9f8584ebce48d54d002e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 31/53] fix: reorder comparisons only of operators declared
 pure

---
 codon/cir/transform/cleanup/canonical.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codon/cir/transform/cleanup/canonical.cpp b/codon/cir/transform/cleanup/canonical.cpp
index 3f70053..4e599d6 100644
--- a/codon/cir/transform/cleanup/canonical.cpp
+++ b/codon/cir/transform/cleanup/canonical.cpp
@@ -75,6 +75,11 @@ bool isDistributiveOp(Func *fn) {
                    fn, ast::getMangledFunc("std.internal.attributes", "distributive"));
 }
 
+bool isPureOp(Func *fn) {
+  return fn && util::hasAttribute(
+                   fn, ast::getMangledFunc("std.internal.attributes", "pure"));
+}
+
 bool isInequalityOp(Func *fn) {
   static const std::unordered_set<std::string> ops = {
       Module::EQ_MAGIC_NAME, Module::NE_MAGIC_NAME, Module::LT_MAGIC_NAME,
@@ -144,6 +149,8 @@ struct CanonOpChain : public RewriteRule {
 };
 
 // b > a --> a < b (etc.)
+// Only applies to operators that are declared pure: arbitrary overloads
+// need not be consistent with each other.
 struct CanonInequality : public RewriteRule {
   void visit(CallInstr *v) override {
     auto *fn = util::getFunc(v->getCallee());
@@ -154,7 +161,7 @@ struct CanonInequality : public RewriteRule {
     types::Type *type = v->getType();
 
     // canonicalize inequalities
-    if (v->numArgs() == 2 && isInequalityOp(fn)) {
+    if (v->numArgs() == 2 && isInequalityOp(fn) && isPureOp(fn)) {
       Value *newCall = nullptr;
       auto *lhs = v->front();
       auto *rhs = v->back();
-- 
2.43.0


From 19ea5c8d8a05d37fe3161e632bb9d6cfd5fa176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 32/53] fix: identities with zero keep evaluating the other
 operand

---
 codon/cir/transform/folding/const_fold.cpp |  5 +++--
 codon/cir/transform/folding/rule.h         | 13 +++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/codon/cir/transform/folding/const_fold.cpp b/codon/cir/transform/folding/const_fold.cpp
index 1146d9a..cc95319 100644
--- a/codon/cir/transform/folding/const_fold.cpp
+++ b/codon/cir/transform/folding/const_fold.cpp
@@ -236,8 +236,9 @@ void FoldingPass::registerStandardRules(Module *m) {
   registerRule(
       "int-floor-div-by-one",
       intSingleRule(m, 1, id_val(m), Module::FLOOR_DIV_MAGIC_NAME, Kind::RIGHT));
-  registerRule("int-zero-floor-div",
-               intSingleRule(m, 0, 0, Module::FLOOR_DIV_MAGIC_NAME, Kind::LEFT));
+  if (!pyNumerics) // must raise if the divisor is zero with Python numerics
+    registerRule("int-zero-floor-div",
+                 intSingleRule(m, 0, 0, Module::FLOOR_DIV_MAGIC_NAME, Kind::LEFT));
   registerRule("int-pos", intNoOp(m, Module::POS_MAGIC_NAME));
   registerRule("int-double-neg", intDoubleApplyNoOp(m, Module::NEG_MAGIC_NAME));
   registerRule("int-double-inv", intDoubleApplyNoOp(m, Module::INVERT_MAGIC_NAME));
diff --git a/codon/cir/transform/folding/rule.h b/codon/cir/transform/folding/rule.h
index 16b1fe8..fd98304 100644
--- a/codon/cir/transform/folding/rule.h
+++ b/codon/cir/transform/folding/rule.h
@@ -7,6 +7,7 @@
 
 #include "codon/cir/transform/pass.h"
 #include "codon/cir/transform/rewrite.h"
+#include "codon/cir/util/cloning.h"
 #include "codon/cir/util/irtools.h"
 
 namespace codon {
@@ -44,8 +45,16 @@ public:
                                 std::string magic, Kind kind, types::Type *type)
       : val(val), type(type), magic(std::move(magic)), kind(kind) {
     calc = [=](Value *v) -> Value * {
-      return v->getModule()->N<TemplatedConst<ConstantType>>(v->getSrcInfo(), val,
-                                                             type);
+      auto *M = v->getModule();
+      auto *result =
+          M->N<TemplatedConst<ConstantType>>(v->getSrcInfo(), newVal, type);
+      if (isA<Const>(v) || isA<VarValue>(v))
+        return result;
+      // the other operand may have side effects; keep evaluating it
+      util::CloneVisitor cv(M);
+      auto *series = M->N<SeriesFlow>(v->getSrcInfo());
+      series->push_back(cv.clone(v));
+      return M->N<FlowInstr>(v->getSrcInfo(), series, result);
     };
   }
   /// Constructs a commutative rule.
-- 
2.43.0


From a16ba9a707b6484cffd8f29bf24412293b9ebf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 33/53] fix: do not fold the minimum integer divided by -1

---
 codon/cir/transform/folding/const_fold.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/codon/cir/transform/folding/const_fold.cpp b/codon/cir/transform/folding/const_fold.cpp
index cc95319..ccd5cbe 100644
--- a/codon/cir/transform/folding/const_fold.cpp
+++ b/codon/cir/transform/folding/const_fold.cpp
@@ -3,6 +3,8 @@
 #include "const_fold.h"
 
 #include <cmath>
+#include <limits>
+#include <type_traits>
 #include <utility>
 
 #include "codon/cir/util/cloning.h"
@@ -88,6 +90,13 @@ public:
       auto *rightConst = cast<TemplatedConst<ConstantType>>(v->back());
       if (rightConst && rightConst->getVal() == ConstantType())
         return;
+      // avoid overflow when dividing the minimum integer by -1
+      if constexpr (std::is_same_v<ConstantType, int64_t>) {
+        auto *leftConst = cast<TemplatedConst<ConstantType>>(v->front());
+        if (leftConst && rightConst && rightConst->getVal() == -1 &&
+            leftConst->getVal() == std::numeric_limits<int64_t>::min())
+          return;
+      }
     }
     DoubleConstantBinaryRule<ConstantType, Func, OutputType>::visit(v);
   }
-- 
2.43.0


From 4f1d32da89b5655133d079692b73a818aafd265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 34/53] fix: int != nan is true

---
 stdlib/internal/types/int.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/types/int.codon b/stdlib/internal/types/int.codon
index 9c38686..b845f8d 100644
--- a/stdlib/internal/types/int.codon
+++ b/stdlib/internal/types/int.codon
@@ -279,7 +279,7 @@ class int:
     @llvm
     def __ne__(self, b: float) -> bool:
         %0 = sitofp i64 %self to double
-        %1 = fcmp one double %0, %b
+        %1 = fcmp une double %0, %b
         %2 = zext i1 %1 to i8
         ret i8 %2
 
-- 
2.43.0


From 8361c4f8b8a94b1e98b54ca099ad7cf55e19b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 35/53] fix: widening a UInt to an Int zero-extends

---
 stdlib/internal/types/intn.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/types/intn.codon b/stdlib/internal/types/intn.codon
index 77cfc5c..1e4f53c 100644
--- a/stdlib/internal/types/intn.codon
+++ b/stdlib/internal/types/intn.codon
@@ -60,7 +60,7 @@ class Int:
         elif N == M:
             return Int[N](what)
         else:
-            return Int._sext(what, M, N)
+            return Int._zext(what, M, N)
 
     @overload
     def __new__(what: UInt[N]) -> Int[N]:
-- 
2.43.0


From 659c8139e23f0412aa0890f440789d751c6c7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 36/53] fix: variables bound in call arguments stay visible
 after the call

---
 codon/parser/ctx.h                          | 17 +++++++++++++++++
 codon/parser/visitors/typecheck/call.cpp    |  3 ++-
 codon/parser/visitors/typecheck/typecheck.h |  9 +++++++--
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/codon/parser/ctx.h b/codon/parser/ctx.h
index ec859fd..8ed65f9 100644
--- a/codon/parser/ctx.h
+++ b/codon/parser/ctx.h
@@ -87,6 +87,23 @@ public:
     stack.pop_front();
   }
 
+  /// Size of the top-most block.
+  size_t getBlockSize() const { return stack.front().size(); }
+  /// Remove the top-most block and its first n variables; the variables that were added
+  /// to it afterwards become a part of the enclosing block.
+  void mergeBlock(size_t n) {
+    auto names = stack.front();
+    stack.pop_front();
+    for (auto &name : names) {
+      if (n) {
+        removeFromMap(name);
+        n--;
+      } else {
+        stack.front().push_back(name);
+      }
+    }
+  }
+
   void removeFromTopStack(const std::string &name) {
     auto it = std::ranges::find(stack.front(), name);
     if (it != stack.front().end())
diff --git a/codon/parser/visitors/typecheck/call.cpp b/codon/parser/visitors/typecheck/call.cpp
index 2a48bfd..ca4af6c 100644
--- a/codon/parser/visitors/typecheck/call.cpp
+++ b/codon/parser/visitors/typecheck/call.cpp
@@ -105,7 +105,8 @@ void TypecheckVisitor::visit(CallExpr *expr) {
   }
 
   if (!withClassGenerics(
-          calleeFn.get(), [&]() { return transformCallArgs(expr); }, true, true))
+          calleeFn.get(), [&]() { return transformCallArgs(expr); }, true, true, false,
+          true))
     return;
   // Early dispatch modifier
   if (isDispatch(calleeFn.get())) {
diff --git a/codon/parser/visitors/typecheck/typecheck.h b/codon/parser/visitors/typecheck/typecheck.h
index e6eff18..b1432cf 100644
--- a/codon/parser/visitors/typecheck/typecheck.h
+++ b/codon/parser/visitors/typecheck/typecheck.h
@@ -339,11 +339,16 @@ public:
                         bool onlyMangled = false, bool instantiate = false);
   template <typename F>
   auto withClassGenerics(types::ClassType *typ, F fn, bool func = false,
-                         bool onlyMangled = false, bool instantiate = false) {
+                         bool onlyMangled = false, bool instantiate = false,
+                         bool keepNew = false) {
     ctx->addBlock();
     addClassGenerics(typ, func, onlyMangled, instantiate);
+    auto size = ctx->getBlockSize();
     auto t = fn();
-    ctx->popBlock();
+    if (keepNew) // e.g., variables bound by the walrus operator
+      ctx->mergeBlock(size);
+    else
+      ctx->popBlock();
     return t;
   }
   types::TypePtr instantiateTypeVar(types::Type *t);
-- 
2.43.0


From f52a5bf5350bcba25e085ae93ed49fb29b49f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 37/53] fix: dictionary literals with items of unresolved type

---
 codon/parser/visitors/typecheck/collections.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codon/parser/visitors/typecheck/collections.cpp b/codon/parser/visitors/typecheck/collections.cpp
index ea0b5a3..619fb18 100644
--- a/codon/parser/visitors/typecheck/collections.cpp
+++ b/codon/parser/visitors/typecheck/collections.cpp
@@ -244,9 +244,12 @@ Expr *TypecheckVisitor::transformComprehension(const std::string &type,
         nt.push_back(extractClassGeneric(collectionTyp.get(), di)->shared_from_this());
         if (!nt[di]->getClass())
           unify(nt[di].get(), extractClassGeneric(tt, di));
-        else if (auto dt = superTyp(nt[di]->getClass(),
-                                    extractClassGeneric(tt, di)->getClass()))
-          nt[di] = dt;
+        else if (auto tc = extractClassGeneric(tt, di)->getClass()) {
+          if (auto dt = superTyp(nt[di]->getClass(), tc))
+            nt[di] = dt;
+        } else {
+          done = false; // the type of this item is not known yet
+        }
       }
       collectionTyp =
           instantiateType(generateTuple(nt.size()), ctx->cache->castVectorPtr(nt));
-- 
2.43.0


From b7461d564ea3bd963b9dd65476a7c203d1331c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 38/53] fix: the type expected of a condition does not concern
 its subexpressions

---
 codon/parser/visitors/typecheck/typecheck.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/codon/parser/visitors/typecheck/typecheck.cpp b/codon/parser/visitors/typecheck/typecheck.cpp
index c371050..43bf921 100644
--- a/codon/parser/visitors/typecheck/typecheck.cpp
+++ b/codon/parser/visitors/typecheck/typecheck.cpp
@@ -214,6 +214,15 @@ Expr *TypecheckVisitor::transform(Expr *expr, bool allowTypes) {
   if (!expr->getType())
     expr->setType(instantiateUnbound());
 
+  // The expected type (e.g., that of a condition) concerns only the value of the whole
+  // expression, and not the values of its arguments, operands and so on.
+  auto be = cast<BinaryExpr>(expr);
+  auto ue = cast<UnaryExpr>(expr);
+  bool keepExpected = cast<IfExpr>(expr) || (ue && ue->getOp() == "!") ||
+                      (be && (be->getOp() == "&&" || be->getOp() == "||"));
+  SetInScope expected(&(ctx->expectedType),
+                      keepExpected ? ctx->expectedType : types::TypePtr(nullptr));
+
   if (!expr->isDone()) {
     TypecheckVisitor v(ctx, preamble, prependStmts);
     v.setSrcInfo(expr->getSrcInfo());
-- 
2.43.0


From 1caaaccc6015431a1a83117f61c411d963e8d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:31 +0000
Subject: [PATCH 39/53] fix: arguments captured by nested functions can be
 reassigned

---
 codon/parser/visitors/scoping/scoping.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/codon/parser/visitors/scoping/scoping.cpp b/codon/parser/visitors/scoping/scoping.cpp
index 1adc5e6..bff5191 100644
--- a/codon/parser/visitors/scoping/scoping.cpp
+++ b/codon/parser/visitors/scoping/scoping.cpp
@@ -579,6 +579,14 @@ void ScopingVisitor::visit(FunctionStmt *stmt) {
       ctx->childCaptures[u] = BindingsAttribute::Nonlocal;
     }
   }
+  // Captured arguments that nested functions modify have to be moved to a capsule first.
+  for (const auto &a : *stmt) {
+    auto [_, n] = a.getNameWithStars();
+    auto i = b->bindings.find(n);
+    if (i != b->bindings.end() && i->second.isNonlocal)
+      stmt->setSuite(N<SuiteStmt>(N<AssignStmt>(N<IdExpr>(n), N<IdExpr>(n)),
+                                  stmt->getSuite()));
+  }
   stmt->setAttribute(Attr::Bindings, std::move(b));
 
   if (!c->classDeduce.second.empty()) {
@@ -794,6 +802,14 @@ bool ScopingVisitor::visitName(const std::string &name, bool adding, ASTNode *ro
       }
     } else {
       if (auto i = in(ctx->childCaptures, name)) {
+        auto items = in(ctx->map, name);
+        if (*i != BindingsAttribute::CaptureType::Global && ctx->functionScope && items &&
+            items->back().binding == ctx->functionScope) {
+          // Captured argument: it is already declared, and it is the very same variable
+          // that is being assigned.
+          switchToUpdate(root, name, false);
+          return false;
+        }
         if (*i != BindingsAttribute::CaptureType::Global && ctx->functionScope) {
           auto newScope = std::vector<int>{ctx->scope[0].id};
           seqassert(ctx->scope.front().suite, "invalid suite");
-- 
2.43.0


From 6ce0fc1b8851c2b4b334944bd1ffca26b3a9f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 40/53] fix: list comprehensions over values of a type not
 known yet

---
 codon/parser/visitors/typecheck/collections.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codon/parser/visitors/typecheck/collections.cpp b/codon/parser/visitors/typecheck/collections.cpp
index 619fb18..2183e70 100644
--- a/codon/parser/visitors/typecheck/collections.cpp
+++ b/codon/parser/visitors/typecheck/collections.cpp
@@ -60,6 +60,8 @@ void TypecheckVisitor::visit(GeneratorExpr *expr) {
       expr->kind == GeneratorExpr::ListGenerator && expr->loopCount() == 1;
   if (canOptimize) {
     auto iter = transform(clone(cast<ForStmt>(expr->getFinalSuite())->getIter()));
+    if (iter->getType()->getUnbound())
+      return; // Wait until the type of the iterator is known
     auto ce = cast<CallExpr>(iter);
     if (IdExpr *id = nullptr; ce && ((id = cast<IdExpr>(ce->getExpr())))) {
       // Turn off this optimization for static items
-- 
2.43.0


From 6fa1bbdfe9692ab250adaf5ab317a5de8c7b9c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 41/53] fix: the item is evaluated before the container in
 'item in container'

---
 codon/parser/visitors/typecheck/op.cpp      | 25 ++++++++++++++++-----
 codon/parser/visitors/typecheck/typecheck.h |  1 +
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/codon/parser/visitors/typecheck/op.cpp b/codon/parser/visitors/typecheck/op.cpp
index ed25faa..685b1eb 100644
--- a/codon/parser/visitors/typecheck/op.cpp
+++ b/codon/parser/visitors/typecheck/op.cpp
@@ -806,12 +806,10 @@ Expr *TypecheckVisitor::transformBinarySimple(const BinaryExpr *expr) {
       }
     }
   } else if (expr->getOp() == "not in") {
-    return transform(N<CallExpr>(N<DotExpr>(
-        N<CallExpr>(N<DotExpr>(expr->getRhs(), "__contains__"), expr->getLhs()),
-        "__invert__")));
-  } else if (expr->getOp() == "in") {
     return transform(
-        N<CallExpr>(N<DotExpr>(expr->getRhs(), "__contains__"), expr->getLhs()));
+        N<CallExpr>(N<DotExpr>(transformContains(expr), "__invert__")));
+  } else if (expr->getOp() == "in") {
+    return transform(transformContains(expr));
   } else if (expr->getOp() == "is") {
     if (cast<NoneExpr>(expr->getLhs()) && cast<NoneExpr>(expr->getRhs()))
       return transform(N<BoolExpr>(true));
@@ -996,6 +994,23 @@ Expr *TypecheckVisitor::transformBinaryMagic(const BinaryExpr *expr) {
   return nullptr;
 }
 
+/// Transform `a in b` to `b.__contains__(a)`. The left side is evaluated first.
+Expr *TypecheckVisitor::transformContains(const BinaryExpr *expr) {
+  auto contains = [&](Expr *item) {
+    return N<CallExpr>(N<DotExpr>(expr->getRhs(), "__contains__"), item);
+  };
+  auto simple = [](Expr *e) {
+    return cast<IdExpr>(e) || cast<NoneExpr>(e) || cast<BoolExpr>(e) ||
+           cast<IntExpr>(e) || cast<FloatExpr>(e) || cast<StringExpr>(e);
+  };
+  if (simple(expr->getLhs()) || simple(expr->getRhs()) || isTypeExpr(expr->getLhs()) ||
+      (expr->getLhs()->getType() && expr->getLhs()->getType()->getStaticKind()))
+    return contains(expr->getLhs());
+  auto item = getTemporaryVar("item");
+  return N<StmtExpr>(N<AssignStmt>(N<IdExpr>(item), expr->getLhs()),
+                     contains(N<IdExpr>(item)));
+}
+
 /// Given a tuple type and the expression `expr[index]`, check if an `index` is static
 /// (integer or slice). If so, statically extract the specified tuple item or a
 /// sub-tuple (if the index is a slice).
diff --git a/codon/parser/visitors/typecheck/typecheck.h b/codon/parser/visitors/typecheck/typecheck.h
index b1432cf..7e37697 100644
--- a/codon/parser/visitors/typecheck/typecheck.h
+++ b/codon/parser/visitors/typecheck/typecheck.h
@@ -110,6 +110,7 @@ private: // Node typechecking rules
   std::pair<std::string, std::string> getMagic(const std::string &) const;
   Expr *transformBinaryInplaceMagic(BinaryExpr *, bool);
   Expr *transformBinaryMagic(const BinaryExpr *);
+  Expr *transformContains(const BinaryExpr *);
   void visit(ChainBinaryExpr *) override;
   void visit(PipeExpr *) override;
   void visit(IndexExpr *) override;
-- 
2.43.0


From 68e4dbdf81eea203254013c79db1db6a0720dcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:16 +0000
Subject: [PATCH 42/53] fix: a generator expression is not done before its
 loops are

---
 codon/parser/visitors/typecheck/collections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/visitors/typecheck/collections.cpp b/codon/parser/visitors/typecheck/collections.cpp
index 2183e70..5d94274 100644
--- a/codon/parser/visitors/typecheck/collections.cpp
+++ b/codon/parser/visitors/typecheck/collections.cpp
@@ -151,7 +151,7 @@ void TypecheckVisitor::visit(GeneratorExpr *expr) {
     }
     unify(expr->getType(), instantiateType(getStdLibType("Generator"),
                                            {expr->getFinalExpr()->getType()}));
-    if (realize(expr->getType()))
+    if (realize(expr->getType()) && expr->loops->isDone())
       expr->setDone();
   }
 }
-- 
2.43.0


From af0777d369c208f71d72c3160c496b838c3776f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:19 +0000
Subject: [PATCH 43/53] fix: list comprehensions over values of a type not
 known yet, continued

---
 codon/parser/visitors/typecheck/collections.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codon/parser/visitors/typecheck/collections.cpp b/codon/parser/visitors/typecheck/collections.cpp
index 5d94274..c4702cc 100644
--- a/codon/parser/visitors/typecheck/collections.cpp
+++ b/codon/parser/visitors/typecheck/collections.cpp
@@ -59,7 +59,11 @@ void TypecheckVisitor::visit(GeneratorExpr *expr) {
   bool canOptimize =
       expr->kind == GeneratorExpr::ListGenerator && expr->loopCount() == 1;
   if (canOptimize) {
-    auto iter = transform(clone(cast<ForStmt>(expr->getFinalSuite())->getIter()));
+    auto forStmt = cast<ForStmt>(expr->getFinalSuite());
+    bool waiting = forStmt->getIter()->getType() != nullptr;
+    auto iter = transform(waiting ? forStmt->getIter() : clone(forStmt->getIter()));
+    if (waiting || iter->getType()->getUnbound())
+      forStmt->iter = iter;
     if (iter->getType()->getUnbound())
       return; // Wait until the type of the iterator is known
     auto ce = cast<CallExpr>(iter);
-- 
2.43.0


From c053ac89f79f9999bdc535f978be33cd47142509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:33 +0000
Subject: [PATCH 44/53] fix: empty slices in concatenations of lists have no
 negative length

---
 stdlib/internal/types/collections/list.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/types/collections/list.codon b/stdlib/internal/types/collections/list.codon
index 80bd536..38122d2 100644
--- a/stdlib/internal/types/collections/list.codon
+++ b/stdlib/internal/types/collections/list.codon
@@ -506,7 +506,7 @@ class List:
             ans.len += n
         elif s.step is None:
             start, stop, step, length = s.adjust_indices(v.__len__())
-            n = stop - start
+            n = length
             str.memcpy((ans.arr.ptr + ans.len).as_byte(), (v.arr.ptr + start).as_byte(), n * sizeof(T))
             ans.len += n
         else:
-- 
2.43.0


From df3f99fe2a8e06397d32a15d5655b8978abea932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:59 +0000
Subject: [PATCH 45/53] fix: f-strings inside lambdas see the variables around
 the lambda

---
 codon/parser/visitors/scoping/scoping.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codon/parser/visitors/scoping/scoping.cpp b/codon/parser/visitors/scoping/scoping.cpp
index bff5191..87e34c2 100644
--- a/codon/parser/visitors/scoping/scoping.cpp
+++ b/codon/parser/visitors/scoping/scoping.cpp
@@ -170,6 +170,8 @@ void ScopingVisitor::visit(StringExpr *expr) {
       }
     } else if (!p.prefix.empty()) {
       exprs.emplace_back(p);
+      if (exprs.back().expr) // already unpacked
+        CHECK(transform(exprs.back().expr));
     } else if (!exprs.empty() && exprs.back().prefix.empty()) {
       exprs.back().value += p.value;
     } else {
-- 
2.43.0


From 32c4deac025ece445a28778931b4c4cec8e28c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:45 +0000
Subject: [PATCH 46/53] fix: a generator expression is not done before its
 conditions are

---
 .../parser/visitors/typecheck/collections.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/codon/parser/visitors/typecheck/collections.cpp b/codon/parser/visitors/typecheck/collections.cpp
index c4702cc..283ae0c 100644
--- a/codon/parser/visitors/typecheck/collections.cpp
+++ b/codon/parser/visitors/typecheck/collections.cpp
@@ -155,7 +155,24 @@ void TypecheckVisitor::visit(GeneratorExpr *expr) {
     }
     unify(expr->getType(), instantiateType(getStdLibType("Generator"),
                                            {expr->getFinalExpr()->getType()}));
-    if (realize(expr->getType()) && expr->loops->isDone())
+    // Conditions whose types are not known yet still have to be transformed.
+    auto conditionsDone = [](Stmt *s) {
+      while (s) {
+        if (auto f = cast<ForStmt>(s)) {
+          s = f->getSuite();
+        } else if (auto i = cast<IfStmt>(s)) {
+          if (!i->getCond()->isDone())
+            return false;
+          s = i->getIf();
+        } else if (auto u = cast<SuiteStmt>(s)) {
+          s = u->empty() ? nullptr : u->back();
+        } else {
+          break;
+        }
+      }
+      return true;
+    };
+    if (realize(expr->getType()) && conditionsDone(expr->loops))
       expr->setDone();
   }
 }
-- 
2.43.0


From aaa601d6b864a2ee42fed42d0efbaa2056ede09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:55 +0000
Subject: [PATCH 47/53] fix: repeated handlers of one type; output before an
 uncaught exception

---
 codon/cir/llvm/llvisitor.cpp | 11 +++++++++--
 codon/runtime/exc.cpp        |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/codon/cir/llvm/llvisitor.cpp b/codon/cir/llvm/llvisitor.cpp
index 0568c0c..7674645 100644
--- a/codon/cir/llvm/llvisitor.cpp
+++ b/codon/cir/llvm/llvisitor.cpp
@@ -3,6 +3,7 @@
 #include "llvisitor.h"
 
 #include <algorithm>
+#include <cstdio>
 #include <cctype>
 #include <cstdlib>
 #include <fmt/args.h>
@@ -1279,12 +1280,14 @@ void LLVMVisitor::run(const std::vector<std::string> &args,
 
   if (db.debug) {
     runtime::setJITErrorCallback([dbp](const runtime::JITError &e) {
+      std::fflush(stdout);
       fmt::print(stderr, "{}\n{}", e.getOutput(),
                  dbp->getPrettyBacktrace(e.getBacktrace()));
       std::abort();
     });
   } else {
     runtime::setJITErrorCallback([](const runtime::JITError &e) {
+      std::fflush(stdout);
       fmt::print(stderr, "{}", e.getOutput());
       std::abort();
     });
@@ -1294,6 +1297,7 @@ void LLVMVisitor::run(const std::vector<std::string> &args,
   try {
     llvm::cantFail(epc->runAsMain(mainAddr, args));
   } catch (const runtime::JITError &e) {
+    std::fflush(stdout);
     fmt::print(stderr, "{}\n", e.getOutput());
     std::abort();
   }
@@ -3074,8 +3078,11 @@ void LLVMVisitor::codegenTryCatch(const TryCatchFlow *x, bool handlers,
     B->CreateBr((i < tc.handlers.size()) ? handlersFull[i] : tc.finallyBlock);
 
     if (catchTypesFull[i]) {
-      switchToCatchBlock->addCase(B->getInt32((uint64_t)getTypeIdx(catchTypesFull[i])),
-                                  depthSet);
+      // the first of several clauses for the same type wins
+      auto *typeIdx = B->getInt32((uint64_t)getTypeIdx(catchTypesFull[i]));
+      if (switchToCatchBlock->findCaseValue(typeIdx) ==
+          switchToCatchBlock->case_default())
+        switchToCatchBlock->addCase(typeIdx, depthSet);
     }
 
     // translate catch body if this block is ours (vs. a parent's)
diff --git a/codon/runtime/exc.cpp b/codon/runtime/exc.cpp
index dfb6a1f..4df7d5b 100644
--- a/codon/runtime/exc.cpp
+++ b/codon/runtime/exc.cpp
@@ -296,6 +296,7 @@ SEQ_FUNC void seq_terminate(void *exc) {
 
   auto output = buf.str();
   if (seq_flags & SEQ_FLAG_STANDALONE) {
+    fflush(stdout);
     fwrite(output.data(), 1, output.size(), stderr);
     abort();
   } else {
-- 
2.43.0


From 0d37340e9a9aa633e6610124deadde6b7ecf2d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:52 +0000
Subject: [PATCH 48/53] fix: break and continue in the else clause of a loop
 refer to the enclosing loop

---
 codon/parser/visitors/typecheck/loops.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codon/parser/visitors/typecheck/loops.cpp b/codon/parser/visitors/typecheck/loops.cpp
index a4a33cd..43ded4b 100644
--- a/codon/parser/visitors/typecheck/loops.cpp
+++ b/codon/parser/visitors/typecheck/loops.cpp
@@ -85,13 +85,15 @@ void TypecheckVisitor::visit(WhileStmt *stmt) {
   ctx->blockLevel--;
   ctx->staticLoops.pop_back();
 
+  // `break` and `continue` in the else clause refer to the enclosing loop
+  ctx->getBase()->loops.pop_back();
+
   // Complete while-else clause
   if (stmt->getElse() && stmt->getElse()->firstInBlock()) {
     auto es = stmt->getElse();
     stmt->elseSuite = nullptr;
     resultStmt = transform(N<SuiteStmt>(stmt, N<IfStmt>(N<IdExpr>(breakVar), es)));
   }
-  ctx->getBase()->loops.pop_back();
 
   if (stmt->getCond()->isDone() && stmt->getSuite()->isDone())
     stmt->setDone();
@@ -199,6 +201,9 @@ void TypecheckVisitor::visit(ForStmt *stmt) {
   if (ctx->getBase()->getLoop()->flat)
     stmt->flat = true;
 
+  // `break` and `continue` in the else clause refer to the enclosing loop
+  ctx->getBase()->loops.pop_back();
+
   // Complete for-else clause
   if (stmt->getElse() && stmt->getElse()->firstInBlock()) {
     auto es = stmt->getElse();
@@ -208,8 +213,6 @@ void TypecheckVisitor::visit(ForStmt *stmt) {
     stmt->elseSuite = nullptr;
   }
 
-  ctx->getBase()->loops.pop_back();
-
   if (stmt->getIter()->isDone() && stmt->getSuite()->isDone())
     stmt->setDone();
 }
-- 
2.43.0


From 7b146786982aac7757e461358aedd3728a7124da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:54 +0000
Subject: [PATCH 49/53] fix: str * negative, center, strip(''),
 startswith/endswith with bounds; empty regex matches

---
 stdlib/internal/str.codon | 43 +++++++++++++--------------------------
 stdlib/re.codon           |  8 ++++----
 2 files changed, 18 insertions(+), 33 deletions(-)

diff --git a/stdlib/internal/str.codon b/stdlib/internal/str.codon
index 8f15446..4615603 100644
--- a/stdlib/internal/str.codon
+++ b/stdlib/internal/str.codon
@@ -107,6 +107,8 @@ class str:
             i -= 1
 
     def __mul__(self, x: int) -> str:
+        if x <= 0:
+            return ""
         total = x * self.len
         p = Ptr[byte](total)
         n = 0
@@ -448,7 +450,7 @@ class str:
             return self
 
         pad = width - len(self)
-        left_pad = pad // 2
+        left_pad = pad // 2 + (pad & width & 1)
         right_pad = width - len(self) - left_pad
         return str._build((fillchar, left_pad), self, (fillchar, right_pad))
 
@@ -520,29 +522,29 @@ class str:
                 return False
         return True
 
-    def _has_char(self, chars: str) -> bool:
+    def _has_char(self, chars: Optional[str]) -> bool:
         s = self._at(0)
-        if chars:
-            for c in chars:
+        if chars is not None:
+            for c in chars.__val__():
                 if s == c:
                     return True
             return False
         else:
             return s.isspace()
 
-    def lstrip(self, chars: str = "") -> str:
+    def lstrip(self, chars: Optional[str] = None) -> str:
         i = 0
         while i < len(self) and self._at(i)._has_char(chars):
             i += 1
         return self._slice(i, len(self))
 
-    def rstrip(self, chars: str = "") -> str:
+    def rstrip(self, chars: Optional[str] = None) -> str:
         i = len(self) - 1
         while i >= 0 and self._at(i)._has_char(chars):
             i -= 1
         return self._slice(0, i + 1)
 
-    def strip(self, chars: str = "") -> str:
+    def strip(self, chars: Optional[str] = None) -> str:
         return self.lstrip(chars).rstrip(chars)
 
     def partition(self, sep: str) -> Tuple[str, str, str]:
@@ -664,14 +666,7 @@ class str:
         self, prefix: str, start: int = 0, end: Optional[int] = None
     ) -> bool:
         end: int = end if end is not None else len(self)
-        if end < 0:
-            end += len(self)
-        elif start < 0:
-            start += len(self)
-
-        # length prefix is longer than range of string being compared to
-        if start + len(prefix) > len(self):
-            return False
+        start, end = self._correct_indices(start, end)
 
         # length of prefix is longer than range of string[start:end]
         if end - start < len(prefix):
@@ -685,24 +680,14 @@ class str:
 
     def endswith(self, suffix: str, start: int = 0, end: Optional[int] = None) -> bool:
         end: int = end if end is not None else len(self)
-        if end < 0:
-            end += len(self)
-        elif start < 0:
-            start += len(self)
-        if end > len(self):
-            end = len(self)
-
-        # length prefix is longer than range of string being compared to
-        if end - start < len(suffix) or start > len(self):
-            return False
-
-        if end - len(suffix) > start:
-            start = end - len(suffix)
+        start, end = self._correct_indices(start, end)
 
-        # length of prefix is longer than range of string[start:end]
+        # length of suffix is longer than range of string[start:end]
         if end - start < len(suffix):
             return False
 
+        start = end - len(suffix)
+
         # prefix is an empty string
         if not suffix:
             return True
diff --git a/stdlib/re.codon b/stdlib/re.codon
index f8b6d46..4b6be6a 100644
--- a/stdlib/re.codon
+++ b/stdlib/re.codon
@@ -387,13 +387,13 @@ class Pattern:
 
             yield Match(spans, posx, endposx, self, string)
 
-            if posx == endposx:
+            if posx == endposx or spans[0][1] == spans[0][0] == endposx:
                 break
 
-            elif posx == spans[0][1]:
-                # We matched the empty string at pos and would be stuck, so in order
+            elif spans[0][0] == spans[0][1]:
+                # We matched the empty string and would be stuck, so in order
                 # to make forward progress, increment the bytes offset.
-                posx += 1
+                posx = spans[0][1] + 1
             else:
                 posx = spans[0][1]
 
-- 
2.43.0


From 36bbc25d08b17401f518ff665e17b7792e1759b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:06 +0000
Subject: [PATCH 50/53] fix: re.M; backward search of the 11th last position

---
 codon/runtime/re.cpp            | 5 ++++-
 stdlib/algorithms/strings.codon | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/codon/runtime/re.cpp b/codon/runtime/re.cpp
index 7443769..c177515 100644
--- a/codon/runtime/re.cpp
+++ b/codon/runtime/re.cpp
@@ -118,8 +118,11 @@ static inline Regex *get(const seq_str_t &p, seq_int_t flags) {
   auto key = std::make_pair(p, flags);
   auto it = cache.find(key);
   if (it == cache.end()) {
+    // RE2 ignores its one-line option in this syntax
+    std::string pattern = (flags & MULTILINE) ? "(?m)" : "";
+    pattern.append(p.str, p.len);
     auto result = cache.emplace(std::piecewise_construct, std::forward_as_tuple(key),
-                                std::forward_as_tuple(str2sp(p), flags2opt(flags)));
+                                std::forward_as_tuple(pattern, flags2opt(flags)));
     return &result.first->second;
   } else {
     return &it->second;
diff --git a/stdlib/algorithms/strings.codon b/stdlib/algorithms/strings.codon
index a043ea9..e0c7eca 100644
--- a/stdlib/algorithms/strings.codon
+++ b/stdlib/algorithms/strings.codon
@@ -301,7 +301,7 @@ def backward_find(s: Ptr[byte], n: int, needle: Ptr[byte], k: int):
         else:
             break
 
-        j = i + 10
+        j = i - 10
         if j - k + 1 >= 0:
             if lastb == s[j] and firstb == s[j - k + 1] and _C.memcmp(s + j - k + 2, needle + 1, k - 2) == i32(0):
                 return j - k + 1
-- 
2.43.0


From 814a787f2418d586fcf5340335761687276b9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:43 +0000
Subject: [PATCH 51/53] fix: sign and zero-padding in format specifications

---
 codon/parser/peg/grammar.peg | 2 +-
 stdlib/internal/format.codon | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codon/parser/peg/grammar.peg b/codon/parser/peg/grammar.peg
index a48b13a..84fbbde 100644
--- a/codon/parser/peg/grammar.peg
+++ b/codon/parser/peg/grammar.peg
@@ -874,6 +874,6 @@ EXTERNDENT__PREDICATE {
 >
 
 # https://docs.python.org/3/library/string.html#formatspec
-format_spec <- ([^{}] [<>=^] / [<>=^])? [+- ]? 'z'? '#'? '0'? [0-9]* [_,]* ('.' [0-9]+)? [bcdeEfFgGnosxX%]? {
+format_spec <- ([^{}] [<>=^] / [<>=^])? [-+ ]? 'z'? '#'? '0'? [0-9]* [_,]* ('.' [0-9]+)? [bcdeEfFgGnosxX%]? {
   return string(VS.sv());
 }
diff --git a/stdlib/internal/format.codon b/stdlib/internal/format.codon
index 7f4392b..ab22a63 100644
--- a/stdlib/internal/format.codon
+++ b/stdlib/internal/format.codon
@@ -45,7 +45,7 @@ def _python_to_fmt_format(s):
         i += 1
 
     width_pre_zero = False
-    if i < len(s) and s[i] == '#':
+    if i < len(s) and s[i] == '0':
         width_pre_zero = True
         i += 1
     width = 0
-- 
2.43.0


From d5d1d008b8fe6fa3ef00aea1459260839c3c5ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:32 +0000
Subject: [PATCH 52/53] fix: stable sorting; deque with maxlen; Counter &= and
 ==; set symmetric difference; lists extended or assigned with themselves; no
 rehash when setting an existing key

---
 stdlib/algorithms/timsort.codon              |  7 ++++---
 stdlib/collections.codon                     | 19 ++++++++++---------
 stdlib/internal/sort.codon                   |  3 +++
 stdlib/internal/types/collections/dict.codon |  4 ++++
 stdlib/internal/types/collections/list.codon |  5 +++++
 stdlib/internal/types/collections/set.codon  |  9 ++++++---
 6 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/stdlib/algorithms/timsort.codon b/stdlib/algorithms/timsort.codon
index 1846e72..4adc9ff 100644
--- a/stdlib/algorithms/timsort.codon
+++ b/stdlib/algorithms/timsort.codon
@@ -64,11 +64,12 @@ def _count_run(
 
     n = 2
     i = begin + 1
-    if keyf(arr[i - 1]) >= keyf(arr[i]):
+    if keyf(arr[i]) < keyf(arr[i - 1]):
+        # a run to be reversed must be strictly decreasing, or the sort is not stable
         inorder = 0
         i += 1
         while i < end:
-            if keyf(arr[i - 1]) < keyf(arr[i]):
+            if not (keyf(arr[i]) < keyf(arr[i - 1])):
                 break
             i += 1
             n += 1
@@ -76,7 +77,7 @@ def _count_run(
     else:
         i += 1
         while i < end:
-            if keyf(arr[i - 1]) >= keyf(arr[i]):
+            if keyf(arr[i]) < keyf(arr[i - 1]):
                 break
             i += 1
             n += 1
diff --git a/stdlib/collections.codon b/stdlib/collections.codon
index 90ce5ec..c271895 100644
--- a/stdlib/collections.codon
+++ b/stdlib/collections.codon
@@ -70,18 +70,18 @@ class deque:
     def appendleft(self, x: T):
         self._head = (self._head - 1) & (len(self._arr) - 1)
         self._arr[self._head] = x
-        if self._maxlen >= 0 and len(self) > self._maxlen:
-            self.pop()
         if self._head == self._tail:
             self._double_cap()
+        if self._maxlen >= 0 and len(self) > self._maxlen:
+            self.pop()
 
     def append(self, x: T):
         self._arr[self._tail] = x
         self._tail = (self._tail + 1) & (len(self._arr) - 1)
-        if self._maxlen >= 0 and len(self) > self._maxlen:
-            self.popleft()
         if self._head == self._tail:
             self._double_cap()
+        if self._maxlen >= 0 and len(self) > self._maxlen:
+            self.popleft()
 
     def popleft(self) -> T:
         self._check_not_empty()
@@ -267,10 +267,11 @@ class Counter(Static[Dict[T, int]]):
             self._kh_del(x)
 
     def __eq__(self, other: Counter[T]) -> bool:
-        if self.__len__() != other.__len__():
-            return False
         for k, v in self.items():
-            if k not in other or other[k] != v:
+            if other[k] != v:
+                return False
+        for k, v in other.items():
+            if self[k] != v:
                 return False
         return True
 
@@ -293,8 +294,8 @@ class Counter(Static[Dict[T, int]]):
         return self
 
     def __iand__(self, other: Counter[T]) -> Counter[T]:
-        for k, v in other.items():
-            self[k] = min(self.get(k, 0), v)
+        for k, v in self.items():
+            self[k] = min(v, other.get(k, 0))
         self._del_non_positives()
         return self
 
diff --git a/stdlib/internal/sort.codon b/stdlib/internal/sort.codon
index e8b0371..2dca91e 100644
--- a/stdlib/internal/sort.codon
+++ b/stdlib/internal/sort.codon
@@ -65,6 +65,9 @@ class List:
         reverse: bool = False,
         algorithm: Literal[str] = "auto",
     ):
+        # reversing before and after keeps equal elements in order
+        if reverse:
+            self.reverse()
         if isinstance(key, Optional):
             if algorithm == "auto":
                 # Python uses Timsort in all cases, but if we
diff --git a/stdlib/internal/types/collections/dict.codon b/stdlib/internal/types/collections/dict.codon
index b9d3fff..3ffa887 100644
--- a/stdlib/internal/types/collections/dict.codon
+++ b/stdlib/internal/types/collections/dict.codon
@@ -367,6 +367,10 @@ class Dict:
 
     def _kh_put(self, key: K) -> Tuple[int, int]:
         if self._n_occupied >= self._upper_bound:
+            # no rehash if the key is there: it may be set while iterating
+            x = self._kh_get(key)
+            if x != self._kh_end():
+                return (0, x)
             if self._n_buckets > (self._size << 1):
                 self._kh_resize(self._n_buckets - 1)
             else:
diff --git a/stdlib/internal/types/collections/list.codon b/stdlib/internal/types/collections/list.codon
index 38122d2..6c133aa 100644
--- a/stdlib/internal/types/collections/list.codon
+++ b/stdlib/internal/types/collections/list.codon
@@ -101,6 +101,8 @@ class List:
 
     def __setitem__(self, s: Slice, other: List[T]):
         if s.start is None and s.stop is None and s.step is None:
+            if other.__raw__() == self.__raw__():
+                return
             self.clear()
             for a in other:
                 self.append(a)
@@ -299,6 +301,9 @@ class List:
         for a in itr:
             self.append(a)
 
+    def extend(self, other: List[T]):
+        self.__iadd__(other)
+
     def insert(self, idx: int, x: T):
         n = self.__len__()
         if idx < 0:
diff --git a/stdlib/internal/types/collections/set.codon b/stdlib/internal/types/collections/set.codon
index a76e29f..59ac596 100644
--- a/stdlib/internal/types/collections/set.codon
+++ b/stdlib/internal/types/collections/set.codon
@@ -214,9 +214,8 @@ class Set:
         for a in other:
             if a in self:
                 self.discard(a)
-        for a in self:
-            if a in other:
-                self.discard(a)
+            else:
+                self.add(a)
 
     def union(self, other: Set[K]) -> Set[K]:
         s = Set[K]()
@@ -362,6 +361,10 @@ class Set:
 
     def _kh_put(self, key: K) -> Tuple[int, int]:
         if self._n_occupied >= self._upper_bound:
+            # no rehash if the key is there: it may be set while iterating
+            x = self._kh_get(key)
+            if x != self._kh_end():
+                return (0, x)
             if self._n_buckets > (self._size << 1):
                 self._kh_resize(self._n_buckets - 1)
             else:
-- 
2.43.0


From 772b0353188731b85adc5a415ea43a0061fd7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:49 +0000
Subject: [PATCH 53/53] fix: d[k] = d.get(k, default) op value with a default
 that is not a constant, or a value with effects, was rewritten

---
 codon/cir/transform/pythonic/dict.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/codon/cir/transform/pythonic/dict.cpp b/codon/cir/transform/pythonic/dict.cpp
index 583a9f3..32c11ac 100644
--- a/codon/cir/transform/pythonic/dict.cpp
+++ b/codon/cir/transform/pythonic/dict.cpp
@@ -7,6 +7,7 @@
 #include "codon/cir/util/cloning.h"
 #include "codon/cir/util/irtools.h"
 #include "codon/cir/util/matching.h"
+#include "codon/cir/util/side_effect.h"
 
 namespace codon {
 namespace ir {
@@ -53,6 +54,8 @@ GetCall analyzeGet(CallInstr *call) {
   // get calls have a default
   if (unmangled == "get" && std::distance(it, call->end()) == 1) {
     auto *dflt = cast<Const>(*it);
+    if (!dflt)
+      return {};
     return {func, dict, k, dflt};
   } else if (unmangled == "__getitem__" && std::distance(it, call->end()) == 0) {
     return {func, dict, k, nullptr};
@@ -61,6 +64,20 @@ GetCall analyzeGet(CallInstr *call) {
   // call is not correct
   return {};
 }
+
+/// Checks whether a value can be evaluated before the dictionary is read.
+/// @param v the value
+/// @return true if evaluating the value has no effects
+bool canEvaluateFirst(Value *v) {
+  if (isA<Const>(v) || isA<VarValue>(v))
+    return true;
+  auto *call = cast<CallInstr>(v);
+  if (!call)
+    return false;
+  auto *func = util::getFunc(call->getCallee());
+  return func && util::hasAttribute(func, util::PURE_ATTR) &&
+         std::all_of(call->begin(), call->end(), canEvaluateFirst);
+}
 } // namespace
 
 const std::string DictArithmeticOptimization::KEY = "core-pythonic-dict-arithmetic-opt";
@@ -104,8 +121,10 @@ void DictArithmeticOptimization::handle(CallInstr *v) {
     if (!getAnalysis.func)
       return;
 
-    // second argument can be any non-null value
+    // second argument will be evaluated before the dictionary is read
     auto *secondValue = opCall->back();
+    if (!canEvaluateFirst(secondValue))
+      return;
 
     // verify that we are dealing with the same dictionary and key
     if (util::match(dictValue, getAnalysis.dict, false, true) &&
-- 
2.43.0

