From 44545619b0915575d9dcb844696e63e51df39ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 01/57] fix: subranges mix with longint, real and complex
 operands like their base type

---
 types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.cpp b/types.cpp
index 7d3c4c7..90b6e70 100644
--- a/types.cpp
+++ b/types.cpp
@@ -497,7 +497,7 @@ namespace Types
 	{
 	    return ty;
 	}
-	return 0;
+	return baseType->CompatibleType(ty);
     }
 
     const TypeDecl* RangeBaseDecl::AssignableType(const TypeDecl* ty) const
-- 
2.43.0


From f0ed635b84e8e76cac5dbf251e94a243177a4e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 02/57] fix: pow works in the width of its operands, and 1 pow
 a negative exponent is 1

---
 expr.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 381318c..9862239 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1100,17 +1100,19 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     llvm::BasicBlock* moreMergeBB = llvm::BasicBlock::Create(theContext, "moreMerge", theFunction);
     llvm::BasicBlock* doneBB = llvm::BasicBlock::Create(theContext, "powdone", theFunction);
 
-    llvm::Constant* one = MakeIntegerConstant(1);
-    llvm::Constant* zero = MakeIntegerConstant(0);
+    llvm::Type*     intTy = ty->LlvmType();
+    llvm::Constant* one = llvm::ConstantInt::get(intTy, 1);
+    llvm::Constant* zero = llvm::ConstantInt::get(intTy, 0);
     llvm::Value*    res = CreateTempAlloca(ty);
     builder.CreateStore(one, res);
-    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
 
     llvm::Value* expneg = builder.CreateICmpSLT(exp, zero, "expneg");
     builder.CreateCondBr(expneg, expNegBB, loopBB);
     // e < 0 case:
     builder.SetInsertPoint(expNegBB);
-    llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, MakeIntegerConstant(-1), "isNeg1");
+    llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, llvm::ConstantInt::getSigned(intTy, -1), "isNeg1");
+    // 1 to any power is 1, all other values give 0.
+    llvm::Value* negRes = builder.CreateZExt(builder.CreateICmpEQ(base, one, "isOne"), intTy, "negRes");
     builder.CreateCondBr(bIsMinus1, oddEvenBB, doneBB);
 
     builder.SetInsertPoint(oddEvenBB);
@@ -1143,7 +1145,7 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     phiMerge->addIncoming(valEven, moreEvenBB);
     phiMerge->addIncoming(valOdd, moreOddBB);
     llvm::PHINode* phiMerge2 = builder.CreatePHI(ty->LlvmType(), 2, "phi");
-    phiMerge2->addIncoming(MakeIntegerConstant(2), moreEvenBB);
+    phiMerge2->addIncoming(llvm::ConstantInt::get(intTy, 2), moreEvenBB);
     phiMerge2->addIncoming(one, moreOddBB);
     builder.CreateStore(phiMerge, res);
     phiLoop->addIncoming(builder.CreateSub(phiLoop, phiMerge2), moreMergeBB);
@@ -1152,7 +1154,7 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     builder.SetInsertPoint(doneBB);
     llvm::PHINode* phi = builder.CreatePHI(ty->LlvmType(), 3, "phi");
     // e < 0, b != -1
-    phi->addIncoming(zero, expNegBB);
+    phi->addIncoming(negRes, expNegBB);
     // e < 0, e is odd, b = -1
     phi->addIncoming(base, oddEvenBB);
     // all other cases.
-- 
2.43.0


From 0a4b9f4707bf67b64a7db56f484eb9eee9bffdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 03/57] fix: <> on reals and complex numbers is true when an
 operand is NaN

---
 expr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 9862239..f8d9584 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1245,7 +1245,7 @@ static llvm::Value* DoubleBinExpr(llvm::Value* l, llvm::Value* r, const Token& o
     case Token::Equal:
 	return builder.CreateFCmpOEQ(l, r, "eq");
     case Token::NotEqual:
-	return builder.CreateFCmpONE(l, r, "ne");
+	return builder.CreateFCmpUNE(l, r, "ne");
     case Token::LessThan:
 	return builder.CreateFCmpOLT(l, r, "lt");
     case Token::LessOrEqual:
@@ -1370,10 +1370,10 @@ static llvm::Value* ComplexBinExpr(llvm::Value* l, llvm::Value* r, const Token&
     {
 	llvm::Value* lr = builder.CreateLoad(realTy, builder.CreateGEP(cmplxTy, l, { zero, zero }, "lr"));
 	llvm::Value* rr = builder.CreateLoad(realTy, builder.CreateGEP(cmplxTy, r, { zero, zero }, "rr"));
-	llvm::Value* re = builder.CreateFCmpONE(lr, rr, "ner");
+	llvm::Value* re = builder.CreateFCmpUNE(lr, rr, "ner");
 	llvm::Value* li = builder.CreateLoad(realTy, builder.CreateGEP(cmplxTy, l, { zero, one }, "li"));
 	llvm::Value* ri = builder.CreateLoad(realTy, builder.CreateGEP(cmplxTy, r, { zero, one }, "ri"));
-	llvm::Value* ie = builder.CreateFCmpONE(li, ri, "nei");
+	llvm::Value* ie = builder.CreateFCmpUNE(li, ri, "nei");
 	return builder.CreateOr(re, ie, "res");
     }
 
-- 
2.43.0


From c4df5509fa68d060bb77b64a83637f80d3594848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 04/57] fix: unary operators accept an operand whose type is
 decided in the semantic check

---
 expr.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index f8d9584..2cefa64 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1553,12 +1553,9 @@ llvm::Value* UnaryExprAST::CodeGen()
 
 void UnaryExprAST::UpdateType(Types::TypeDecl* ty)
 {
-    if (type != ty)
-    {
-	ICE_IF(type, "Type shouldn't be update more than once");
-	ICE_IF(!ty, "Must supply a valid type");
-	type = ty;
-    }
+    // The operand may have got its final type after this expression was created
+    ICE_IF(!ty, "Must supply a valid type");
+    type = ty;
 }
 
 void CallExprAST::DoDump() const
-- 
2.43.0


From 5f31d01be1d61a22d43be3cbc8f33b9f06ac2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 05/57] fix: a subrange combined with a longint literal is a
 longint expression

---
 semantics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 5768110..e84de6d 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -377,12 +377,12 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	return rty;
     }
 
-    if (llvm::isa<Types::RangeDecl>(lty) && llvm::isa<IntegerExprAST>(b->rhs))
+    if (llvm::isa<Types::RangeDecl>(lty) && llvm::isa<IntegerExprAST>(b->rhs) && lty->Type() == rty->Type())
     {
 	return lty;
     }
 
-    if (llvm::isa<Types::RangeDecl>(rty) && llvm::isa<IntegerExprAST>(b->lhs))
+    if (llvm::isa<Types::RangeDecl>(rty) && llvm::isa<IntegerExprAST>(b->lhs) && lty->Type() == rty->Type())
     {
 	return rty;
     }
-- 
2.43.0


From 19f096e656248f8f5464bae3e29e042bda8b096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 06/57] fix: enumeration subranges are compatible with their
 base type only

---
 types.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/types.cpp b/types.cpp
index 90b6e70..6f2669b 100644
--- a/types.cpp
+++ b/types.cpp
@@ -39,9 +39,19 @@ namespace Types
 	}
     }
 
+    // The type that a (possibly nested) subrange is part of, any other type is its own base
+    static const TypeDecl* RangeBase(const TypeDecl* ty)
+    {
+	while (auto r = llvm::dyn_cast<RangeBaseDecl>(ty))
+	{
+	    ty = r->SubType();
+	}
+	return ty;
+    }
+
     const TypeDecl* TypeDecl::CompatibleType(const TypeDecl* ty) const
     {
-	if (SameAs(ty))
+	if (SameAs(RangeBase(ty)))
 	{
 	    return this;
 	}
@@ -482,9 +492,9 @@ namespace Types
     {
 	if (const auto rty = llvm::dyn_cast<RangeDecl>(ty))
 	{
-	    return rty->Type() == Type() && *range == *rty->range;
+	    return *RangeBase(rty) == *RangeBase(this) && *range == *rty->range;
 	}
-	return Type() == ty->Type();
+	return *RangeBase(this) == *ty;
     }
 
     const TypeDecl* RangeBaseDecl::CompatibleType(const TypeDecl* ty) const
@@ -493,7 +503,7 @@ namespace Types
 	{
 	    return this;
 	}
-	if (ty->Type() == Type())
+	if (*RangeBase(this) == *RangeBase(ty))
 	{
 	    return ty;
 	}
@@ -502,7 +512,7 @@ namespace Types
 
     const TypeDecl* RangeBaseDecl::AssignableType(const TypeDecl* ty) const
     {
-	if (SameAs(ty) || ty->Type() == Type())
+	if (SameAs(ty) || *RangeBase(this) == *RangeBase(ty))
 	{
 	    return ty;
 	}
-- 
2.43.0


From a883451b11301f2e97cff55d5f97a42f1481b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 07/57] fix: and_then/or_else accept operands that themselves
 branch

---
 expr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 2cefa64..1b50106 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1043,12 +1043,14 @@ static llvm::Value* ShortCtOr(ExprAST* lhs, ExprAST* rhs)
     llvm::Value* r = rhs->CodeGen();
     llvm::Value* condr = builder.CreateICmpNE(r, bfalse, "condr");
 
+    // The right hand side may itself consist of several blocks
+    llvm::BasicBlock* rhsBlock = builder.GetInsertBlock();
     builder.CreateBr(mergeBB);
 
     builder.SetInsertPoint(mergeBB);
     llvm::PHINode* phi = builder.CreatePHI(Types::Get<Types::BoolDecl>()->LlvmType(), 2, "phi");
     phi->addIncoming(btrue, originBlock);
-    phi->addIncoming(condr, falseBB);
+    phi->addIncoming(condr, rhsBlock);
     return phi;
 }
 
@@ -1067,12 +1069,14 @@ static llvm::Value* ShortCtAnd(ExprAST* lhs, ExprAST* rhs)
     llvm::Value* r = rhs->CodeGen();
     llvm::Value* condr = builder.CreateICmpNE(r, bfalse, "condr");
 
+    // The right hand side may itself consist of several blocks
+    llvm::BasicBlock* rhsBlock = builder.GetInsertBlock();
     builder.CreateBr(mergeBB);
 
     builder.SetInsertPoint(mergeBB);
     llvm::PHINode* phi = builder.CreatePHI(Types::Get<Types::BoolDecl>()->LlvmType(), 2, "phi");
     phi->addIncoming(bfalse, originBlock);
-    phi->addIncoming(condr, trueBB);
+    phi->addIncoming(condr, rhsBlock);
     return phi;
 }
 
-- 
2.43.0


From 9f400124a103b8fe8fca61fdf0e43e4e573667c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 08/57] fix: for-in loop bodies may branch; no read past the
 set; elements convert to the loop variable

---
 expr.cpp      | 24 ++++++++++++++++++------
 semantics.cpp |  2 +-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 1b50106..534a71d 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2489,13 +2489,12 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
     llvm::PHINode* idxPhi = builder.CreatePHI(index->getType(), 2, "idxPhi");
     idxPhi->addIncoming(index, beforeBB);
     llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, idxPhi, "valueindex");
-    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr);
-
     llvm::Value* cmp = builder.CreateICmpSLT(idxPhi, words);
     builder.CreateCondBr(cmp, preLoopBB, afterBB);
 
     builder.SetInsertPoint(preLoopBB);
+    llvm::Value*         bitsetAddr = builder.CreateGEP(intTy, setV, idxPhi, "valueindex");
+    llvm::Value*         bitset = builder.CreateLoad(intTy, bitsetAddr);
     llvm::FunctionCallee cttz = GetFunction(intTy, { intTy, Types::Get<Types::BoolDecl>()->LlvmType() },
                                             "llvm.cttz.i32");
     llvm::Value*         isZero = builder.CreateICmpEQ(bitset, zero);
@@ -2509,14 +2508,15 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
 
     llvm::Value* sumVar = builder.CreateAdd(builder.CreateAdd(pos, builder.CreateShl(idxPhi, shift)),
                                             rangeStart);
-    llvm::Value* sumT = builder.CreateTrunc(sumVar, expr->variable->Type()->LlvmType());
+    llvm::Value* sumT = builder.CreateIntCast(sumVar, expr->variable->Type()->LlvmType(), true);
     builder.CreateStore(sumT, var);
 
     ICE_IF(!expr->body->CodeGen(), "Failed to generate loop body");
 
     bitset = builder.CreateAnd(phi, builder.CreateNot(builder.CreateShl(one, pos)));
     isZero = builder.CreateICmpEQ(bitset, zero);
-    phi->addIncoming(bitset, loopBB);
+    // The body may consist of several blocks
+    phi->addIncoming(bitset, builder.GetInsertBlock());
     builder.CreateCondBr(isZero, nextLoopBB, loopBB);
 
     builder.SetInsertPoint(nextLoopBB);
@@ -2572,11 +2572,23 @@ llvm::Value* GenForInArr(ForExprAST* expr, Types::ArrayDecl* ad)
     llvm::Value* calcIndex = builder.CreateSub(idxPhi, rangeStart);
     llvm::Value* dataAddr = builder.CreateGEP(arrElemTy, arrV, calcIndex, "valueindex");
     llvm::Value* val = builder.CreateLoad(arrElemTy, dataAddr);
+    llvm::Type*  varTy = expr->variable->Type()->LlvmType();
+    if (arrElemTy != varTy)
+    {
+	if (varTy->isDoubleTy())
+	{
+	    val = builder.CreateSIToFP(val, varTy, "tofp");
+	}
+	else
+	{
+	    val = builder.CreateIntCast(val, varTy, !IsUnsigned(ad->SubType()));
+	}
+    }
     builder.CreateStore(val, var);
     ICE_IF(!expr->body->CodeGen(), "Failed to generate loop body");
 
     index = builder.CreateAdd(idxPhi, one);
-    idxPhi->addIncoming(index, loopBB);
+    idxPhi->addIncoming(index, builder.GetInsertBlock());
     builder.CreateBr(preLoopBB);
 
     builder.SetInsertPoint(afterBB);
diff --git a/semantics.cpp b/semantics.cpp
index e84de6d..6143e2f 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -805,7 +805,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 	    {
 		Error(f->start, "Expected signle dimension array");
 	    }
-	    if (!arrDecl->SubType()->CompatibleType(vty))
+	    if (!vty->AssignableType(arrDecl->SubType()))
 	    {
 		Error(f->variable, "Expected loop variable to be compatible with array");
 	    }
-- 
2.43.0


From c7dbb8d531f2285e7841706d02d09fc973ae394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 09/57] fix: for loops compare and step in the type of the loop
 variable

---
 expr.cpp      | 6 +++---
 semantics.cpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 534a71d..fae05de 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2628,7 +2628,7 @@ llvm::Value* ForExprAST::CodeGen()
     ICE_IF(!startV, "Expected start to generate code");
     llvm::Value* endV = end->CodeGen();
     ICE_IF(!endV, "Expected end to generate code");
-    llvm::Value* stepVal = MakeConstant((stepDown) ? -1 : 1, start->Type());
+    llvm::Value* stepVal = MakeConstant((stepDown) ? -1 : 1, variable->Type());
     builder.CreateStore(startV, var);
 
     llvm::BasicBlock* beforeBB = llvm::BasicBlock::Create(theContext, "before", theFunction);
@@ -2644,7 +2644,7 @@ llvm::Value* ForExprAST::CodeGen()
 
     llvm::Value* endCond;
 
-    if (IsUnsigned(start->Type()))
+    if (IsUnsigned(variable->Type()))
     {
 	if (stepDown)
 	{
@@ -2675,7 +2675,7 @@ llvm::Value* ForExprAST::CodeGen()
 
     ICE_IF(!body->CodeGen(), "Failed body codegen");
 
-    if (IsUnsigned(start->Type()))
+    if (IsUnsigned(variable->Type()))
     {
 	if (stepDown)
 	{
diff --git a/semantics.cpp b/semantics.cpp
index 6143e2f..e959279 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -772,17 +772,17 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     }
     if (f->end)
     {
-	if (const Types::TypeDecl* ty = f->start->Type()->AssignableType(vty))
+	if (vty->AssignableType(f->start->Type()))
 	{
-	    f->start = Recast(f->start, ty);
+	    f->start = Recast(f->start, vty);
 	}
 	else
 	{
 	    bad = true;
 	}
-	if (const Types::TypeDecl* ty = f->end->Type()->AssignableType(vty))
+	if (vty->AssignableType(f->end->Type()))
 	{
-	    f->end = Recast(f->end, ty);
+	    f->end = Recast(f->end, vty);
 	}
 	else
 	{
-- 
2.43.0


From 02ac89cc87b813876a1efe555d8d7c6d70d35f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 10/57] fix: case ranges for char, longint and negative labels

---
 expr.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index fae05de..19ea62c 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3477,16 +3477,7 @@ void CaseExprAST::accept(ASTVisitor& v)
 static uint64_t Distance(std::pair<int, int> p)
 {
     ICE_IF(p.first > p.second, "Expect ordered pair");
-    if (p.first > 0)
-    {
-	return p.second - p.first;
-    }
-    if (p.first < 0 && p.second > 0)
-    {
-	return (uint64_t)-p.first + p.second;
-    }
-    // Both are negative.
-    return -p.first - -p.second;
+    return (int64_t)p.second - p.first;
 }
 
 llvm::Value* CaseExprAST::CodeGen()
@@ -3526,10 +3517,14 @@ llvm::Value* CaseExprAST::CodeGen()
 	    {
 		llvm::BasicBlock* next = llvm::BasicBlock::Create(theContext, "next", theFunction);
 		llvm::BasicBlock* maybe = llvm::BasicBlock::Create(theContext, "maybe", theFunction);
-		llvm::Value*      lt = builder.CreateICmpSLT(v, MakeIntegerConstant(val.first), "lt");
+		llvm::Constant*   low = llvm::ConstantInt::get(ty, val.first, true);
+		llvm::Constant*   high = llvm::ConstantInt::get(ty, val.second, true);
+		// Only char and boolean use the top bit of their representation.
+		bool         isUns = ty->getIntegerBitWidth() < 32;
+		llvm::Value* lt = isUns ? builder.CreateICmpULT(v, low, "lt") : builder.CreateICmpSLT(v, low, "lt");
 		builder.CreateCondBr(lt, next, maybe);
 		builder.SetInsertPoint(maybe);
-		llvm::Value* gt = builder.CreateICmpSGT(v, MakeIntegerConstant(val.second), "gt");
+		llvm::Value* gt = isUns ? builder.CreateICmpUGT(v, high, "gt") : builder.CreateICmpSGT(v, high, "gt");
 		builder.CreateCondBr(gt, next, ll.second);
 		builder.SetInsertPoint(next);
 	    }
@@ -3544,7 +3539,7 @@ llvm::Value* CaseExprAST::CodeGen()
 	{
 	    if (Distance(val) <= MaxRangeInSwitch)
 	    {
-		for (int i = val.first; i <= val.second; i++)
+		for (int64_t i = val.first; i <= val.second; i++)
 		{
 		    auto intTy = llvm::dyn_cast<llvm::IntegerType>(ty);
 		    sw->addCase(llvm::ConstantInt::get(intTy, i), ll.second);
-- 
2.43.0


From b55cf7a56677221ccdbf81b1fd02685e65d2fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 11/57] fix: temporary strings have room for their value

---
 expr.cpp | 10 +++++++++-
 types.h  |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 19ea62c..544e95b 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -322,7 +322,7 @@ static llvm::Value* TempStringFromCharArray(llvm::Value* dest, AddressableAST* r
 	llvm::Value* src = builder.CreateGEP(charTy, v, { MakeIntegerConstant(0) }, "src");
 	llvm::Align  destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
 	llvm::Align  srcAlign{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size + 1);
+	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size);
     };
 
     return FillTempString(dest, rhs->Address(), size, func);
@@ -799,6 +799,10 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
     }
     if (auto se = llvm::dyn_cast<StringExprAST>(e))
     {
+	if (!llvm::isa<Types::StringDecl>(ty))
+	{
+	    ty = Types::Get<Types::StringDecl>(std::max<unsigned>(se->Str().size(), 1));
+	}
 	llvm::Value* v = CreateTempAlloca(ty);
 	TempStringFromStringExpr(v, se);
 	return v;
@@ -817,6 +821,10 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 
 	ICE_IF(r.size() != 1, "Expect 1D array here");
 
+	if (!llvm::isa<Types::StringDecl>(ty))
+	{
+	    ty = Types::Get<Types::StringDecl>(unsigned(r[0]->RangeSize()));
+	}
 	llvm::Value* v = CreateTempAlloca(ty);
 	TempStringFromCharArray(v, ea, r[0]->RangeSize());
 	return v;
diff --git a/types.h b/types.h
index 5876fc4..b08da26 100644
--- a/types.h
+++ b/types.h
@@ -5,7 +5,9 @@
 #include <llvm/IR/DerivedTypes.h>
 #include <llvm/IR/DIBuilder.h>
 #include <llvm/IR/Type.h>
+#include <map>
 #include <string>
+#include <tuple>
 
 #include "utils.h"
 
@@ -27,7 +29,10 @@ namespace Types
     template<typename T, typename... Args>
     TypeDecl* Get(Args... args)
     {
-	static TypeDecl* typePtr;
+	// One type for each set of arguments, e.g. each string length.
+	static std::map<std::tuple<Args...>, TypeDecl*> types;
+
+	TypeDecl*& typePtr = types[std::tuple<Args...>(args...)];
 	if (!typePtr)
 	{
 	    typePtr = new T(std::forward<Args>(args)...);
-- 
2.43.0


From af49a71f98201408116dea2e455c15563f03b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 12/57] fix: a program may redefine the predefined names

---
 parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index a10a0bc..2ef6f8c 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4712,6 +4712,8 @@ ExprAST* Parser::Parse(ParserType type)
     std::vector<VarDef> varList{ input, output };
     ast.push_back(new VarDeclAST(Location(), varList));
 
+    // The program may give the predefined names a new meaning.
+    nameStack.NewLevel();
     return ParseUnit(type);
 }
 
-- 
2.43.0


From 75b5f7292a959a2c85143ebe7abe05af61de444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 13/57] fix: a subrange type may end a record, variant or
 parameter list

---
 parser.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 2ef6f8c..d957859 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1171,24 +1171,13 @@ const Constants::ConstDecl* Parser::ParseConstRHS(int exprPrec, const Constants:
 
 const Constants::ConstDecl* Parser::ParseConstExpr(const TerminatorList& terminators)
 {
-    const Location              loc = CurrentToken().Loc();
-    const Constants::ConstDecl* cd;
+    const Constants::ConstDecl* cd = ParseConstTerm(CurrentToken().Loc());
 
-    do
+    // What may follow depends on where the expression is, so the caller checks it.
+    if (cd && !IsOneOf(CurrentToken().GetToken(), terminators))
     {
-	if (!(cd = ParseConstTerm(loc)))
-	{
-	    return 0;
-	}
-
-	if (!IsOneOf(CurrentToken().GetToken(), terminators))
-	{
-	    if (!(cd = ParseConstRHS(0, cd)))
-	    {
-		return 0;
-	    }
-	}
-    } while (!IsOneOf(CurrentToken().GetToken(), terminators));
+	cd = ParseConstRHS(0, cd);
+    }
     return cd;
 }
 
-- 
2.43.0


From be2adb1e3007c59eccf3dcd367828aeb75d445cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 14/57] fix: with evaluates the record designator once

---
 expr.cpp   | 30 ++++++++++++++++++++++++++++++
 expr.h     | 27 +++++++++++++++++++++++++--
 parser.cpp | 12 ++++++++----
 3 files changed, 63 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 544e95b..06ec6b3 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3796,6 +3796,32 @@ llvm::Value* SetExprAST::Address()
     return setV;
 }
 
+void WithRefAST::DoDump() const
+{
+    record->DoDump();
+}
+
+void WithRefAST::accept(ASTVisitor& v)
+{
+    record->accept(v);
+    v.visit(this);
+}
+
+llvm::Value* WithRefAST::Address()
+{
+    ICE_IF(!address, "Expected the record of the with statement to have an address");
+    return builder.CreateLoad(llvm::PointerType::getUnqual(theContext), address, "with");
+}
+
+void WithRefAST::Evaluate()
+{
+    llvm::Value* v = record->Address();
+    llvm::BasicBlock& entry = builder.GetInsertBlock()->getParent()->getEntryBlock();
+    llvm::IRBuilder<> bld(&entry, entry.begin());
+    address = bld.CreateAlloca(v->getType(), 0, "withaddr");
+    builder.CreateStore(v, address);
+}
+
 void WithExprAST::DoDump() const
 {
     std::cerr << "With ... do ";
@@ -3808,6 +3834,10 @@ llvm::Value* WithExprAST::CodeGen()
 
     BasicDebugInfo(this);
 
+    for (auto r : records)
+    {
+	r->Evaluate();
+    }
     return body->CodeGen();
 }
 
diff --git a/expr.h b/expr.h
index 7c8fccd..ef39fe4 100644
--- a/expr.h
+++ b/expr.h
@@ -84,6 +84,7 @@ public:
 	EK_FunctionExpr,
 	EK_TypeCastExpr,
 	EK_ArraySlice,
+	EK_WithRef,
 	EK_LastAddressable,
 
 	EK_CallExpr,
@@ -854,21 +855,43 @@ private:
     ExprAST*                   otherwise;
 };
 
+// The record of a with statement: the designator is evaluated once, before the statement.
+class WithRefAST : public AddressableAST
+{
+public:
+    WithRefAST(AddressableAST* r) : AddressableAST(r->Loc(), EK_WithRef, r->Type()), record(r), address(0) {}
+    void         DoDump() const override;
+    llvm::Value* Address() override;
+    void         Evaluate();
+    static bool  classof(const ExprAST* e) { return e->getKind() == EK_WithRef; }
+    void         accept(ASTVisitor& v) override;
+
+private:
+    AddressableAST* record;
+    llvm::Value*    address;
+};
+
 class WithExprAST : public ExprAST
 {
 public:
-    WithExprAST(const Location& w, ExprAST* b) : ExprAST(w, EK_WithExpr), body(b){};
+    WithExprAST(const Location& w, const std::vector<WithRefAST*>& r, ExprAST* b)
+        : ExprAST(w, EK_WithExpr), records(r), body(b){};
     void         DoDump() const override;
     llvm::Value* CodeGen() override;
     static bool  classof(const ExprAST* e) { return e->getKind() == EK_WithExpr; }
     void         accept(ASTVisitor& v) override
     {
+	for (auto r : records)
+	{
+	    r->accept(v);
+	}
 	body->accept(v);
 	v.visit(this);
     }
 
 private:
-    ExprAST* body;
+    std::vector<WithRefAST*> records;
+    ExprAST*                 body;
 };
 
 class RangeReduceAST : public ExprAST
diff --git a/parser.cpp b/parser.cpp
index d957859..b59c234 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4068,10 +4068,12 @@ public:
 	    {
 		if (auto rd = llvm::dyn_cast<Types::RecordDecl>(v->Type()))
 		{
-		    parser.ExpandWithNames(rd, v, 0);
+		    auto ref = new WithRefAST(v);
+		    records.push_back(ref);
+		    parser.ExpandWithNames(rd, ref, 0);
 		    if (Types::VariantDecl* variant = rd->Variant())
 		    {
-			parser.ExpandWithNames(variant, v, rd->FieldCount());
+			parser.ExpandWithNames(variant, ref, rd->FieldCount());
 		    }
 		}
 		else
@@ -4087,10 +4089,12 @@ public:
 	}
 	return false;
     }
-    int Levels() { return levels; }
+    int                             Levels() { return levels; }
+    const std::vector<WithRefAST*>& Records() { return records; }
 
 private:
     int                        levels;
+    std::vector<WithRefAST*>   records;
     Stack<const NamedObject*>& nameStack;
 };
 
@@ -4117,7 +4121,7 @@ ExprAST* Parser::ParseWithBlock()
 
     if (!error)
     {
-	return new WithExprAST(loc, body);
+	return new WithExprAST(loc, ccw.Records(), body);
     }
     return 0;
 }
-- 
2.43.0


From 71ea021371abb7752edb93ea3015d8fe95e0d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 15/57] fix: write of an out-of-range enum value stays inside
 its name table

---
 runtime/write.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index abedf88..cf59f67 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -200,7 +200,7 @@ void __write_str(File* file, const String* v, int width)
 
 void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
 {
-    if (en < 0 || en > e2s->nelem)
+    if (en < 0 || en >= e2s->nelem)
     {
 	static const char* msg = "Invalid Enum Value";
 	__write_S_chars(strout, msg, strlen(msg), width);
@@ -217,7 +217,7 @@ void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
 void __write_enum(File* file, int en, int width, struct EnumToString* e2s)
 {
     static const char* msg = "Invalid Enum Value";
-    if (en < 0 || en > e2s->nelem)
+    if (en < 0 || en >= e2s->nelem)
     {
 	__write_chars(file, msg, strlen(msg), width);
     }
-- 
2.43.0


From 15b24be50853b62fdb65945decfdad4d954129bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 16/57] fix: writestr of a real without precision formats as
 write does

---
 runtime/write.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index cf59f67..bb32b3c 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -58,10 +58,7 @@ void __write_S_real(String* str, double v, int width, int precision)
 	{
 	    width = 13;
 	}
-	if (precision == 0)
-	{
-	    precision = (width > 8) ? width - 7 : 1;
-	}
+	precision = (width > 8) ? width - 7 : 1;
     }
 
     int n = snprintf(buffer, sizeof(buffer), (scientific) ? "% *.*E" : "%*.*f", width, precision, v);
-- 
2.43.0


From 1181db49440d91da8d6070ea67e5b134d40fee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 17/57] fix: writestr does not overrun its result

---
 runtime/write.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/write.c b/runtime/write.c
index bb32b3c..f2577eb 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -17,6 +17,11 @@ void __write_S_init(String* str)
 
 static void SetStrResult(String* str, int n, const char* buffer)
 {
+    // What does not fit is lost.
+    if (n > MaxStringLen - str->len)
+    {
+	n = MaxStringLen - str->len;
+    }
     memcpy(&str->str[str->len], buffer, n);
     str->len += n;
 }
-- 
2.43.0


From 7c5e8fc777d2f55991b8590cc8801e3c2c58fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 18/57] fix: write keeps chr(0) in strings

---
 runtime/write.c | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index f2577eb..9096161 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -113,7 +113,7 @@ void __write_S_bool(String* str, int v, int width)
     const char* vstr = (v & 1) ? "TRUE" : "FALSE";
     if (width <= 0)
     {
-	width = (v) ? 4 : 5;
+	width = (v & 1) ? 4 : 5;
     }
     int n = snprintf(buffer, sizeof(buffer), "%*s", width, vstr);
     SetStrResult(str, n, buffer);
@@ -125,7 +125,7 @@ void __write_bool(File* file, int v, int width)
     const char* vstr = (v & 1) ? "TRUE" : "FALSE";
     if (width <= 0)
     {
-	width = (v) ? 4 : 5;
+	width = (v & 1) ? 4 : 5;
     }
     fprintf(f, "%*s", width, vstr);
 }
@@ -166,38 +166,17 @@ void __write_chars(File* file, const char* v, int len, int width)
     }
 }
 
+// The width neither pads nor cuts a string. Strings may hold chr(0), so printf is no use here.
 void __write_S_str(String* str, const String* v, int width)
 {
-    char buffer[MaxStringLen + 1];
-    char s[MaxStringLen + 1];
-    int  n;
-    memcpy(s, v->str, v->len);
-    s[v->len] = 0;
-    if (width < v->len)
-    {
-	n = snprintf(buffer, sizeof(buffer), "%*s", width, s);
-    }
-    else
-    {
-	n = snprintf(buffer, sizeof(buffer), "%s", s);
-    }
-    SetStrResult(str, n, buffer);
+    (void)width;
+    SetStrResult(str, v->len, (const char*)v->str);
 }
 
 void __write_str(File* file, const String* v, int width)
 {
-    FILE* f = getFile(file);
-    char  s[MaxStringLen + 1];
-    memcpy(s, v->str, v->len);
-    s[v->len] = 0;
-    if (width < v->len)
-    {
-	fprintf(f, "%*s", width, s);
-    }
-    else
-    {
-	fprintf(f, "%s", s);
-    }
+    (void)width;
+    fwrite(v->str, 1, v->len, getFile(file));
 }
 
 void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
-- 
2.43.0


From 87064199d5e05027322c9083d190e26f16f3ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 19/57] fix: character constants above chr(127) are not
 negative

---
 constants.cpp | 2 +-
 constants.h   | 2 +-
 parser.cpp    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/constants.cpp b/constants.cpp
index 93010a9..0efe3ee 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -384,7 +384,7 @@ namespace Constants
 	  {
 	      if (auto intConst = llvm::dyn_cast<IntConstDecl>(args[0]))
 	      {
-	          return new CharConstDecl(intConst->Loc(), (char)intConst->Value());
+	          return new CharConstDecl(intConst->Loc(), (unsigned char)intConst->Value());
 	      }
 	      return 0;
 	  } },
diff --git a/constants.h b/constants.h
index 76169a3..e0bf3ed 100644
--- a/constants.h
+++ b/constants.h
@@ -56,7 +56,7 @@ namespace Constants
 
     using IntConstDecl = ConstDeclBase<uint64_t, Types::IntegerDecl, CK_IntConstDecl>;
     using RealConstDecl = ConstDeclBase<double, Types::RealDecl, CK_RealConstDecl>;
-    using CharConstDecl = ConstDeclBase<char, Types::CharDecl, CK_CharConstDecl>;
+    using CharConstDecl = ConstDeclBase<unsigned char, Types::CharDecl, CK_CharConstDecl>;
     using BoolConstDecl = ConstDeclBase<char, Types::BoolDecl, CK_BoolConstDecl>;
 
     class EnumConstDecl : public ConstDecl
diff --git a/parser.cpp b/parser.cpp
index b59c234..d2f9c24 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1036,7 +1036,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    return Error("Unary + or - not allowed for char constants");
 	}
-	cd = new Constants::CharConstDecl(loc, (char)CurrentToken().GetIntVal());
+	cd = new Constants::CharConstDecl(loc, (unsigned char)CurrentToken().GetIntVal());
 	NextToken();
 	break;
 
-- 
2.43.0


From 06e3f14db48b2dad6ea7d1d9d15bd2de385d2d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 20/57] fix: sets of different subranges of one type are
 compatible

---
 semantics.cpp |  3 ++-
 types.cpp     | 15 +++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index e959279..2a53700 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -179,7 +179,7 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
     Types::Range* lr = lty->GetRange();
     Types::Range* rr = rty->GetRange();
 
-    if (*lty->SubType() != *rty->SubType())
+    if (!lty->CompatibleType(rty))
     {
 	Error(b, "Set type content isn't the same!");
     }
@@ -193,6 +193,7 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
 
 	b->lhs = Recast(b->lhs, set);
 	b->rhs = Recast(b->rhs, set);
+	return set;
     }
     return rty;
 }
diff --git a/types.cpp b/types.cpp
index 6f2669b..d03c6f7 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1303,7 +1303,7 @@ namespace Types
     {
 	if (const auto sty = llvm::dyn_cast<SetDecl>(ty))
 	{
-	    if (*baseType == *sty->baseType)
+	    if (*RangeBase(baseType) == *RangeBase(sty->baseType))
 	    {
 		return this;
 	    }
@@ -1313,12 +1313,15 @@ namespace Types
 
     bool SetDecl::SameAs(const TypeDecl* ty) const
     {
-	if (CompoundDecl::SameAs(ty))
+	if (this == ty)
 	{
-	    if (const auto sty = llvm::dyn_cast<SetDecl>(ty))
-	    {
-		return sty->range && *range == *sty->range;
-	    }
+	    return true;
+	}
+	if (const auto sty = llvm::dyn_cast<SetDecl>(ty))
+	{
+	    // Sets of subranges of the same type only differ in their range.
+	    return range && sty->range && *RangeBase(baseType) == *RangeBase(sty->baseType) &&
+	           *range->GetRange() == *sty->range->GetRange();
 	}
 	return false;
     }
-- 
2.43.0


From 6aa80cea590528ee02d4f42b284d038d8a8266f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 21/57] fix: conversion between set types converts every word

---
 expr.cpp | 43 +++++++++++--------------------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 06ec6b3..d4282ea 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3980,48 +3980,27 @@ static llvm::Value* ConvertSet(ExprAST* expr, Types::TypeDecl* type)
     Types::Range* rrange = rty->GetRange();
     Types::Range* lrange = lty->GetRange();
 
-    llvm::Value* w;
     llvm::Value* src = MakeAddressable(expr);
-    size_t       p = 0;
     llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
 
-    for (auto i = lrange->Start(); i < lrange->End(); i += Types::SetDecl::SetBits)
+    // Each word of the result is made up of the parts of the source words that overlap it.
+    for (size_t p = 0; p < lty->SetWords(); p++)
     {
-	if (i >= (rrange->Start() & ~Types::SetDecl::SetMask) && i < rrange->End())
+	llvm::Value* w = MakeIntegerConstant(0);
+	int64_t      first = lrange->Start() + int64_t(p) * Types::SetDecl::SetBits;
+	for (size_t sp = 0; sp < rty->SetWords(); sp++)
 	{
-	    if (i > rrange->Start())
+	    int64_t offset = rrange->Start() + int64_t(sp) * Types::SetDecl::SetBits - first;
+	    if (offset > -Types::SetDecl::SetBits && offset < Types::SetDecl::SetBits)
 	    {
-		size_t       index = i - rrange->Start();
-		size_t       sp = index >> Types::SetDecl::SetPow2Bits;
 		llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(sp), "srci");
-		w = builder.CreateLoad(intTy, srci, "w");
-		if (size_t shift = (index & Types::SetDecl::SetMask))
-		{
-		    w = builder.CreateLShr(w, shift, "wsh");
-		    if (sp + 1 < rty->SetWords())
-		    {
-			llvm::Value* xp = builder.CreateGEP(intTy, src, MakeIntegerConstant(sp + 1),
-			                                    "srcip1");
-			llvm::Value* x = builder.CreateLoad(intTy, xp, "x");
-			x = builder.CreateShl(x, 32 - shift);
-			w = builder.CreateOr(w, x);
-		    }
-		}
-	    }
-	    else
-	    {
-		llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(0), "srci");
-		w = builder.CreateLoad(intTy, srci, "w");
-		w = builder.CreateShl(w, rrange->Start() - i, "wsh");
+		llvm::Value* x = builder.CreateLoad(intTy, srci, "x");
+		x = (offset >= 0) ? builder.CreateShl(x, offset) : builder.CreateLShr(x, -offset);
+		w = builder.CreateOr(w, x, "w");
 	    }
 	}
-	else
-	{
-	    w = MakeIntegerConstant(0);
-	}
 	llvm::Value* desti = builder.CreateGEP(intTy, dest, MakeIntegerConstant(p));
 	builder.CreateStore(w, desti);
-	p++;
     }
     return dest;
 }
@@ -4069,7 +4048,7 @@ llvm::Value* TypeCastAST::CodeGen()
     // Sets are compatible anyway...
     if (llvm::isa<Types::SetDecl>(current))
     {
-	return builder.CreateLoad(current->LlvmType(), Address(), "set");
+	return builder.CreateLoad(type->LlvmType(), Address(), "set");
     }
 #if !NDEBUG
     dump();
-- 
2.43.0


From 287a215b5ee66b4a94c2f5605ea74cb2acdffe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 22/57] fix: constant sets take only elements inside their
 range

---
 expr.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index d4282ea..01be411 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3608,22 +3608,20 @@ llvm::Constant* SetExprAST::MakeConstantSetArray()
 	{
 	    auto le = llvm::dyn_cast<IntegerExprAST>(r->LowExpr());
 	    auto he = llvm::dyn_cast<IntegerExprAST>(r->HighExpr());
-	    int  start = type->GetRange()->Start();
-	    int  low = le->Int() - start;
-	    int  high = he->Int() - start;
-	    low = std::max(0, low);
-	    high = std::min((int)type->GetRange()->Size(), high);
-	    for (int i = low; i <= high; i++)
+
+	    int64_t start = type->GetRange()->Start();
+	    int64_t low = std::max<int64_t>(le->Int(), start) - start;
+	    int64_t high = std::min<int64_t>(he->Int(), type->GetRange()->End()) - start;
+	    for (int64_t i = low; i <= high; i++)
 	    {
 		elems[i >> Types::SetDecl::SetPow2Bits] |= (1 << (i & Types::SetDecl::SetMask));
 	    }
 	}
 	else
 	{
-	    auto     e = llvm::dyn_cast<IntegerExprAST>(v);
-	    int      start = type->GetRange()->Start();
-	    unsigned i = e->Int() - start;
-	    if (i < (unsigned)type->GetRange()->Size())
+	    auto    e = llvm::dyn_cast<IntegerExprAST>(v);
+	    int64_t i = e->Int() - type->GetRange()->Start();
+	    if (i >= 0 && i < int64_t(type->GetRange()->Size()))
 	    {
 		elems[i >> Types::SetDecl::SetPow2Bits] |= (1 << (i & Types::SetDecl::SetMask));
 	    }
-- 
2.43.0


From e853cebeb58171095aa92ddaa9a430ffe21559d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 23/57] fix: set membership and constructors handle values
 outside the set and empty ranges

---
 expr.cpp | 187 +++++++++++++++++++++++++++++--------------------------
 expr.h   |   1 +
 2 files changed, 101 insertions(+), 87 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 01be411..a552669 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -917,33 +917,60 @@ Types::TypeDecl* BinaryExprAST::Type() const
     return lhs->Type();
 }
 
+// Generate an ordinal value as a 64-bit integer with the same value.
+static llvm::Value* OrdinalCodeGen(ExprAST* e)
+{
+    llvm::Value* v = e->CodeGen();
+    ICE_IF(!v, "Expect codegen to work!");
+    llvm::Type* ty = Types::Get<Types::Int64Decl>()->LlvmType();
+    return builder.CreateIntCast(v, ty, !IsUnsigned(e->Type()), "ord");
+}
+
+static llvm::Value* MakeInt64Constant(int64_t v)
+{
+    return MakeConstant(v, Types::Get<Types::Int64Decl>());
+}
+
+// Where in a set an element is. The mask is zero for something that can't be an element.
+struct SetBit
+{
+    SetBit(llvm::Value* x, Types::SetDecl* type)
+    {
+	Types::Range* range = type->GetRange();
+	llvm::Type*   intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+	x = builder.CreateSub(x, MakeInt64Constant(range->Start()));
+	llvm::Value* valid = builder.CreateICmpULT(x, MakeInt64Constant(range->Size()), "valid");
+	x = builder.CreateTrunc(x, intTy);
+	x = builder.CreateSelect(valid, x, MakeIntegerConstant(0));
+	index = builder.CreateLShr(x, MakeIntegerConstant(Types::SetDecl::SetPow2Bits));
+	x = builder.CreateAnd(x, MakeIntegerConstant(Types::SetDecl::SetMask));
+	mask = builder.CreateShl(builder.CreateZExt(valid, intTy), x);
+    }
+    llvm::Value* Address(llvm::Value* setV) const
+    {
+	return builder.CreateGEP(mask->getType(), setV, index, "bitsetaddr");
+    }
+
+    llvm::Value* index;
+    llvm::Value* mask;
+};
+
 llvm::Value* BinaryExprAST::SetCodeGen()
 {
     TRACE();
     if (lhs->Type() && IsIntegral(lhs->Type()) && oper.GetToken() == Token::In)
     {
-	llvm::Value*     l = lhs->CodeGen();
-	llvm::Value*     setV = MakeAddressable(rhs);
-	Types::TypeDecl* type = rhs->Type();
-	int              start = type->GetRange()->Start();
-	llvm::Type*      intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-	l = builder.CreateZExt(l, Types::Get<Types::IntegerDecl>()->LlvmType(), "zext.l");
-	l = builder.CreateSub(l, MakeIntegerConstant(start));
-	llvm::Value* index;
-	if (llvm::dyn_cast<Types::SetDecl>(type)->SetWords() > 1)
+	if (auto se = llvm::dyn_cast<SetExprAST>(rhs))
 	{
-	    index = builder.CreateLShr(l, MakeIntegerConstant(Types::SetDecl::SetPow2Bits));
+	    return se->Contains(lhs);
 	}
-	else
-	{
-	    index = MakeIntegerConstant(0);
-	}
-	llvm::Value* offset = builder.CreateAnd(l, MakeIntegerConstant(Types::SetDecl::SetMask));
-	llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, index, "valueindex");
-
-	llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitsetaddr");
-	llvm::Value* bit = builder.CreateLShr(bitset, offset);
-	return builder.CreateTrunc(bit, Types::Get<Types::BoolDecl>()->LlvmType());
+	llvm::Value* l = OrdinalCodeGen(lhs);
+	llvm::Value* setV = MakeAddressable(rhs);
+	auto         type = llvm::dyn_cast<Types::SetDecl>(rhs->Type());
+	SetBit       bit(l, type);
+	llvm::Value* bitset = builder.CreateLoad(bit.mask->getType(), bit.Address(setV), "bitset");
+	bitset = builder.CreateAnd(bitset, bit.mask);
+	return builder.CreateICmpNE(bitset, MakeIntegerConstant(0), "in");
     }
 
     if (llvm::isa<SetExprAST>(lhs) || (lhs->Type() && llvm::isa<Types::SetDecl>(lhs->Type())))
@@ -3700,100 +3727,86 @@ llvm::Value* SetExprAST::Address()
     builder.CreateMemSet(tmp, MakeConstant(0, Types::Get<Types::CharDecl>()),
                          (size * Types::SetDecl::SetBits / 8), llvm::Align(1));
 
-    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-
     // TODO: For optimisation, we may want to pass through the vector and see if the values
     // are constants, and if so, be clever about it.
     // Also, we should combine stores to the same word!
+    auto setTy = llvm::dyn_cast<Types::SetDecl>(type);
+    auto setBit = [&](llvm::Value* x)
+    {
+	SetBit       bit(x, setTy);
+	llvm::Value* bitsetAddr = bit.Address(setV);
+	llvm::Value* bitset = builder.CreateLoad(bit.mask->getType(), bitsetAddr, "bitset");
+	builder.CreateStore(builder.CreateOr(bitset, bit.mask), bitsetAddr);
+    };
+
     for (auto v : values)
     {
 	// If we have a "range", then make a loop.
 	if (auto r = llvm::dyn_cast<RangeExprAST>(v))
 	{
-	    llvm::Value* low = r->Low();
-	    llvm::Value* high = r->High();
-	    ICE_IF(!high || !low, "Expected expressions to evalueate");
-
-	    llvm::Function* fn = builder.GetInsertBlock()->getParent();
-
-	    llvm::Value* loopVar = CreateTempAlloca(Types::Get<Types::IntegerDecl>());
+	    llvm::Value* low = OrdinalCodeGen(r->LowExpr());
+	    llvm::Value* high = OrdinalCodeGen(r->HighExpr());
 
-	    // Adjust for range:
-	    Types::Range* range = type->GetRange();
-	    low = builder.CreateSExt(low, intTy, "sext.low");
-	    high = builder.CreateSExt(high, intTy, "sext.high");
+	    // Only what is inside the range of the set can be set.
+	    llvm::Value* first = MakeInt64Constant(type->GetRange()->Start());
+	    llvm::Value* last = MakeInt64Constant(type->GetRange()->End());
+	    low = builder.CreateSelect(builder.CreateICmpSLT(low, first), first, low, "low");
+	    high = builder.CreateSelect(builder.CreateICmpSGT(high, last), last, high, "high");
 
-	    llvm::Value* rangeStart = MakeIntegerConstant(range->Start());
-	    low = builder.CreateSub(low, rangeStart);
-	    high = builder.CreateSub(high, rangeStart);
+	    llvm::Function* fn = builder.GetInsertBlock()->getParent();
 
+	    llvm::Value* loopVar = CreateTempAlloca(Types::Get<Types::Int64Decl>());
 	    builder.CreateStore(low, loopVar);
 
+	    llvm::BasicBlock* condBB = llvm::BasicBlock::Create(theContext, "cond", fn);
 	    llvm::BasicBlock* loopBB = llvm::BasicBlock::Create(theContext, "loop", fn);
-	    builder.CreateBr(loopBB);
-	    builder.SetInsertPoint(loopBB);
-
-	    llvm::Value* loop = builder.CreateLoad(intTy, loopVar, "loopVar");
-
-	    // Set bit "loop" in set.
-	    llvm::Value* mask = MakeIntegerConstant(Types::SetDecl::SetMask);
-	    llvm::Value* offset = builder.CreateAnd(loop, mask);
-	    llvm::Value* bit = builder.CreateShl(MakeIntegerConstant(1), offset);
-	    llvm::Value* index = 0;
-	    if (size != 1)
-	    {
-		index = builder.CreateLShr(loop, MakeIntegerConstant(Types::SetDecl::SetPow2Bits));
-	    }
-	    else
-	    {
-		index = MakeIntegerConstant(0);
-	    }
-	    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, index, "bitsetaddr");
-	    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitset");
-	    bitset = builder.CreateOr(bitset, bit);
-	    builder.CreateStore(bitset, bitsetAddr);
-
-	    loop = builder.CreateAdd(loop, MakeIntegerConstant(1), "update");
-	    builder.CreateStore(loop, loopVar);
+	    llvm::BasicBlock* afterBB = llvm::BasicBlock::Create(theContext, "afterloop", fn);
+	    builder.CreateBr(condBB);
 
-	    llvm::Value* endCond = builder.CreateICmpSLE(loop, high, "loopcond");
+	    builder.SetInsertPoint(condBB);
+	    llvm::Value* loop = builder.CreateLoad(low->getType(), loopVar, "loopVar");
+	    builder.CreateCondBr(builder.CreateICmpSLE(loop, high, "loopcond"), loopBB, afterBB);
 
-	    llvm::BasicBlock* afterBB = llvm::BasicBlock::Create(theContext, "afterloop", fn);
-	    builder.CreateCondBr(endCond, loopBB, afterBB);
+	    builder.SetInsertPoint(loopBB);
+	    setBit(loop);
+	    builder.CreateStore(builder.CreateAdd(loop, MakeInt64Constant(1), "update"), loopVar);
+	    builder.CreateBr(condBB);
 
 	    builder.SetInsertPoint(afterBB);
 	}
 	else
 	{
-	    Types::Range* range = type->GetRange();
-	    llvm::Value*  rangeStart = MakeIntegerConstant(range->Start());
-	    llvm::Value*  x = v->CodeGen();
-	    ICE_IF(!x, "Expect codegen to work!");
-	    x = builder.CreateZExt(x, intTy, "zext");
-	    x = builder.CreateSub(x, rangeStart);
-
-	    llvm::Value* mask = MakeIntegerConstant(Types::SetDecl::SetMask);
-	    llvm::Value* offset = builder.CreateAnd(x, mask);
-	    llvm::Value* bit = builder.CreateShl(MakeIntegerConstant(1), offset);
-	    llvm::Value* index = 0;
-	    if (size != 1)
-	    {
-		index = builder.CreateLShr(x, MakeIntegerConstant(Types::SetDecl::SetPow2Bits));
-	    }
-	    else
-	    {
-		index = MakeIntegerConstant(0);
-	    }
-	    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, index, "bitsetaddr");
-	    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitset");
-	    bitset = builder.CreateOr(bitset, bit);
-	    builder.CreateStore(bitset, bitsetAddr);
+	    setBit(OrdinalCodeGen(v));
 	}
     }
 
     return setV;
 }
 
+// Is the value of e one of the members? There is no need for the members to fit a set.
+llvm::Value* SetExprAST::Contains(ExprAST* e)
+{
+    TRACE();
+
+    llvm::Value* x = OrdinalCodeGen(e);
+    llvm::Value* res = builder.getFalse();
+    for (auto v : values)
+    {
+	llvm::Value* match;
+	if (auto r = llvm::dyn_cast<RangeExprAST>(v))
+	{
+	    llvm::Value* ge = builder.CreateICmpSGE(x, OrdinalCodeGen(r->LowExpr()));
+	    match = builder.CreateAnd(ge, builder.CreateICmpSLE(x, OrdinalCodeGen(r->HighExpr())));
+	}
+	else
+	{
+	    match = builder.CreateICmpEQ(x, OrdinalCodeGen(v));
+	}
+	res = builder.CreateOr(res, match, "in");
+    }
+    return res;
+}
+
 void WithRefAST::DoDump() const
 {
     record->DoDump();
diff --git a/expr.h b/expr.h
index ef39fe4..f48325a 100644
--- a/expr.h
+++ b/expr.h
@@ -245,6 +245,7 @@ public:
     llvm::Value*    Address() override;
     llvm::Constant* MakeConstantSetArray();
     llvm::Value*    MakeConstantSet();
+    llvm::Value*    Contains(ExprAST* e);
     static bool     classof(const ExprAST* e) { return e->getKind() == EK_SetExpr; }
 
 private:
-- 
2.43.0


From a79f961b6225ad3b1a681cf58978b1461a3be4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 24/57] fix: expressions inside set constructors are checked
 like any other

---
 expr.cpp | 9 +++++++++
 expr.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index a552669..d059b92 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3784,6 +3784,15 @@ llvm::Value* SetExprAST::Address()
 }
 
 // Is the value of e one of the members? There is no need for the members to fit a set.
+void SetExprAST::accept(ASTVisitor& v)
+{
+    for (auto i : values)
+    {
+	i->accept(v);
+    }
+    v.visit(this);
+}
+
 llvm::Value* SetExprAST::Contains(ExprAST* e)
 {
     TRACE();
diff --git a/expr.h b/expr.h
index f48325a..b4ac022 100644
--- a/expr.h
+++ b/expr.h
@@ -247,6 +247,7 @@ public:
     llvm::Value*    MakeConstantSet();
     llvm::Value*    Contains(ExprAST* e);
     static bool     classof(const ExprAST* e) { return e->getKind() == EK_SetExpr; }
+    void            accept(ASTVisitor& v) override;
 
 private:
     std::vector<ExprAST*> values;
-- 
2.43.0


From c4acdf9537a2d7b5990cc10644e13953b959bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 25/57] fix: a value of an enumeration can be looked up in a
 set of its subrange

---
 semantics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics.cpp b/semantics.cpp
index 2a53700..9094b0c 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -225,7 +225,7 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	if (auto sd = llvm::dyn_cast<Types::SetDecl>(rty))
 	{
 	    ICE_IF(!sd->SubType(), "Should have a subtype");
-	    if (*lty != *sd->SubType())
+	    if (lty->Type() != sd->SubType()->Type() || !lty->CompatibleType(sd->SubType()))
 	    {
 		Error(b, "Left hand type does not match constituent parts of set");
 	    }
-- 
2.43.0


From 492184f725afb7c25fe4d113f93c0ef7384b6c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 26/57] fix: -Cr no longer stops the compiler at every array
 access

---
 expr.cpp | 101 ++++++++++++++++++++++++++++---------------------------
 expr.h   |   2 ++
 2 files changed, 54 insertions(+), 49 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index d059b92..ba8f98a 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3875,40 +3875,48 @@ void RangeReduceAST::DoDump() const
     std::cerr << "]";
 }
 
+// Index, or bound of an index range, in at least the size of an integer
+static llvm::Value* WidenIndex(llvm::Value* index, Types::TypeDecl* type)
+{
+    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    if (index->getType()->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
+    {
+	if (IsUnsigned(type))
+	{
+	    return builder.CreateZExt(index, intTy, "zext");
+	}
+	return builder.CreateSExt(index, intTy, "sext");
+    }
+    return index;
+}
+
+llvm::Value* RangeReduceAST::Bound(const std::string& name, llvm::Type* ty)
+{
+    llvm::Value* bound = variables.FindTopLevel(name);
+    ICE_IF(!bound, "Expected to find the bound of the array");
+    bound = builder.CreateLoad(Types::Get<Types::IntegerDecl>()->LlvmType(), bound, name);
+    return builder.CreateSExt(bound, ty, "bound");
+}
+
 llvm::Value* RangeReduceAST::CodeGen()
 {
     TRACE();
 
     ICE_IF(!IsIntegral(expr->Type()), "Index is supposed to be integral type");
     llvm::Value* index = expr->CodeGen();
+    ICE_IF(!index, "Expected expression to generate code");
+    index = WidenIndex(index, expr->Type());
 
-    llvm::Type* ty = index->getType();
     if (auto dr = llvm::dyn_cast<Types::DynRangeDecl>(range))
     {
-	llvm::Value* low = variables.FindTopLevel(dr->LowName());
-	low = builder.CreateLoad(ty, low, "low");
-	index = builder.CreateSub(index, low);
+	return builder.CreateSub(index, Bound(dr->LowName(), index->getType()));
     }
-    else
+
+    auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
+    ICE_IF(!rr, "This should be a RangeDecl");
+    if (int start = rr->Start())
     {
-	auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
-	ICE_IF(!rr, "This should be a RangeDecl");
-	if (int start = rr->Start())
-	{
-	    index = builder.CreateSub(index, MakeConstant(start, expr->Type()));
-	}
-	llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-	if (ty->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
-	{
-	    if (IsUnsigned(expr->Type()))
-	    {
-		index = builder.CreateZExt(index, intTy, "zext");
-	    }
-	    else
-	    {
-		index = builder.CreateSExt(index, intTy, "sext");
-	    }
-	}
+	index = builder.CreateSub(index, llvm::ConstantInt::getSigned(index->getType(), start));
     }
     return index;
 }
@@ -3926,44 +3934,39 @@ llvm::Value* RangeCheckAST::CodeGen()
 {
     TRACE();
 
-    llvm::Value* index = expr->CodeGen();
-    ICE_IF(!index, "Expected expression to generate code");
-    ICE_IF(!index->getType()->isIntegerTy(), "Index is supposed to be integral type");
-
-    llvm::Value* orig_index = index;
-    llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    ICE_IF(!IsIntegral(expr->Type()), "Index is supposed to be integral type");
+    llvm::Value* origIndex = expr->CodeGen();
+    ICE_IF(!origIndex, "Expected expression to generate code");
+    origIndex = WidenIndex(origIndex, expr->Type());
 
-    auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
-    ICE_IF(rr, "Expect a rangedecl here");
-    int start = rr->Start();
-    if (start)
+    llvm::Type*  indexTy = origIndex->getType();
+    llvm::Value* low;
+    llvm::Value* high;
+    if (auto dr = llvm::dyn_cast<Types::DynRangeDecl>(range))
     {
-	index = builder.CreateSub(index, MakeConstant(start, expr->Type()));
+	low = Bound(dr->LowName(), indexTy);
+	high = Bound(dr->HighName(), indexTy);
     }
-    if (index->getType()->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
+    else
     {
-	if (IsUnsigned(expr->Type()))
-	{
-	    index = builder.CreateZExt(index, intTy, "zext");
-	    orig_index = builder.CreateZExt(orig_index, intTy, "zext");
-	}
-	else
-	{
-	    index = builder.CreateSExt(index, intTy, "sext");
-	    orig_index = builder.CreateSExt(orig_index, intTy, "sext");
-	}
+	auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
+	ICE_IF(!rr, "Expect a rangedecl here");
+	low = llvm::ConstantInt::getSigned(indexTy, rr->Start());
+	high = llvm::ConstantInt::getSigned(indexTy, rr->End());
     }
-    int               end = rr->GetRange()->Size();
-    llvm::Value*      cmp = builder.CreateICmpUGE(index, MakeIntegerConstant(end), "rangecheck");
+    llvm::Value*      index = builder.CreateSub(origIndex, low);
+    llvm::Value*      cmp = builder.CreateOr(builder.CreateICmpSLT(origIndex, low),
+	                                     builder.CreateICmpSGT(origIndex, high), "rangecheck");
     llvm::Function*   theFunction = builder.GetInsertBlock()->getParent();
     llvm::BasicBlock* oorBlock = llvm::BasicBlock::Create(theContext, "out_of_range", theFunction);
     llvm::BasicBlock* contBlock = llvm::BasicBlock::Create(theContext, "continue", theFunction);
     builder.CreateCondBr(cmp, oorBlock, contBlock);
 
     builder.SetInsertPoint(oorBlock);
+    llvm::Type*               intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
     std::vector<llvm::Value*> args = { builder.CreateGlobalString(Loc().FileName()),
-	                               MakeIntegerConstant(Loc().LineNumber()), MakeIntegerConstant(start),
-	                               MakeIntegerConstant(end), orig_index };
+	                               MakeIntegerConstant(Loc().LineNumber()), builder.CreateTrunc(low, intTy),
+	                               builder.CreateTrunc(high, intTy), builder.CreateTrunc(origIndex, intTy) };
     std::vector<llvm::Type*>  argTypes = {
         llvm::PointerType::getUnqual(Types::Get<Types::CharDecl>()->LlvmType()), intTy, intTy, intTy, intTy
     };
diff --git a/expr.h b/expr.h
index b4ac022..54774fc 100644
--- a/expr.h
+++ b/expr.h
@@ -920,6 +920,8 @@ public:
     }
 
 protected:
+    llvm::Value* Bound(const std::string& name, llvm::Type* ty);
+
     ExprAST*              expr;
     Types::RangeBaseDecl* range;
 };
-- 
2.43.0


From 7bb42b0be0411c47ba175bfff28c8df39de487f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 27/57] fix: longint array indices mix with other index types

---
 expr.cpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index ba8f98a..88d3412 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -476,29 +476,13 @@ void ArrayExprAST::DoDump() const
     }
 }
 
-static Types::TypeDecl* FindIndexType(const std::vector<ExprAST*>& indices)
-{
-    ICE_IF(indices.size() == 0, "Expect at least one index");
-    Types::TypeDecl* type = indices[0]->Type();
-    size_t           size = type->Size();
-    for (size_t i = 1; i < indices.size(); i++)
-    {
-	if (size < indices[i]->Type()->Size())
-	{
-	    type = indices[i]->Type();
-	}
-    }
-    return type;
-}
-
 llvm::Value* ArrayExprAST::Address()
 {
     TRACE();
     llvm::Value* v = MakeAddressable(expr);
     ICE_IF(!v, "Expected variable to have an address");
     EnsureSized();
-    llvm::Value*     totalIndex = 0;
-    Types::TypeDecl* indexType = FindIndexType(indices);
+    llvm::Value* totalIndex = 0;
     for (size_t i = 0; i < indices.size(); i++)
     {
 	auto range = llvm::dyn_cast<RangeReduceAST>(indices[i]);
@@ -507,7 +491,7 @@ llvm::Value* ArrayExprAST::Address()
 	ICE_IF(!index, "Expression failed for index");
 	if (indexmul[i] != 1)
 	{
-	    index = builder.CreateMul(index, MakeConstant(indexmul[i], indexType));
+	    index = builder.CreateMul(index, llvm::ConstantInt::get(index->getType(), indexmul[i]));
 	}
 	if (!totalIndex)
 	{
@@ -515,6 +499,12 @@ llvm::Value* ArrayExprAST::Address()
 	}
 	else
 	{
+	    // A longint index makes the whole index a longint
+	    if (index->getType()->getPrimitiveSizeInBits() > totalIndex->getType()->getPrimitiveSizeInBits())
+	    {
+		totalIndex = builder.CreateSExt(totalIndex, index->getType());
+	    }
+	    index = builder.CreateSExt(index, totalIndex->getType());
 	    totalIndex = builder.CreateAdd(totalIndex, index);
 	}
     }
-- 
2.43.0


From 3b00aadc2bcd04d01bb0487716d4793d75fc6d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 28/57] fix: the empty set can be passed as a parameter and
 iterated over

---
 semantics.cpp | 60 ++++++++++++++++++++++++++++++---------------------
 types.cpp     |  3 ++-
 2 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 9094b0c..568b8b7 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -58,6 +58,8 @@ public:
     virtual ~SemaFixup() {}
 };
 
+static Types::RangeDecl* GetRangeDecl(Types::TypeDecl* ty);
+
 class SetRangeFixup : public SemaFixup
 {
 public:
@@ -74,6 +76,12 @@ void SetRangeFixup::DoIt()
     if (!expr->Type()->GetRange())
     {
 	auto sd = llvm::dyn_cast<Types::SetDecl>(expr->Type());
+	if (!sd->SubType())
+	{
+	    // Nothing tells what the empty set is a set of, so any type will do.
+	    sd->UpdateSubtype(Types::Get<Types::IntegerDecl>());
+	    guessRange = GetRangeDecl(sd);
+	}
 	sd->UpdateRange(guessRange);
     }
 }
@@ -137,14 +145,14 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
     ICE_IF(!lty || !rty, "Expect set declarations on both side!");
     if (auto s = llvm::dyn_cast<SetExprAST>(b->lhs))
     {
-	if (s->values.empty() && rty->SubType())
+	if (s->values.empty() && !lty->SubType() && rty->SubType())
 	{
 	    lty->UpdateSubtype(rty->SubType());
 	}
     }
     if (auto s = llvm::dyn_cast<SetExprAST>(b->rhs))
     {
-	if ((s->values.empty() || !rty->SubType()) && lty->SubType())
+	if (!rty->SubType() && lty->SubType())
 	{
 	    rty->UpdateSubtype(lty->SubType());
 	}
@@ -217,7 +225,7 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	// Empty set always has the "right" type
 	if (auto s = llvm::dyn_cast<SetExprAST>(b->rhs))
 	{
-	    if (s->values.empty())
+	    if (s->values.empty() && !llvm::cast<Types::SetDecl>(rty)->SubType())
 	    {
 		llvm::dyn_cast<Types::SetDecl>(rty)->UpdateSubtype(lty);
 	    }
@@ -501,6 +509,26 @@ void TypeCheckVisitor::Check<UnaryExprAST>(UnaryExprAST* u)
     u->UpdateType(ty);
 }
 
+// A set constructor takes the range and element type it lacks from the set it is assigned or passed to.
+static void CompleteSetType(Types::TypeDecl* lty, Types::TypeDecl* rty)
+{
+    auto lsty = llvm::dyn_cast<Types::SetDecl>(lty);
+    auto rsty = llvm::dyn_cast<Types::SetDecl>(rty);
+    if (lsty && rsty)
+    {
+	ICE_IF(!lsty->GetRange() || !lsty->SubType(), "Expected left type to be well defined.");
+
+	if (!rsty->GetRange())
+	{
+	    rsty->UpdateRange(GetRangeDecl(lsty));
+	}
+	if (!rsty->SubType())
+	{
+	    rsty->UpdateSubtype(lsty->SubType());
+	}
+    }
+}
+
 template<>
 void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
 {
@@ -522,21 +550,7 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
 	return;
     }
 
-    auto lsty = llvm::dyn_cast<Types::SetDecl>(lty);
-    auto rsty = llvm::dyn_cast<Types::SetDecl>(rty);
-    if (lsty && rsty)
-    {
-	ICE_IF(!lsty->GetRange() || !lsty->SubType(), "Expected left type to be well defined.");
-
-	if (!rsty->GetRange())
-	{
-	    rsty->UpdateRange(GetRangeDecl(lsty));
-	}
-	if (!rsty->SubType())
-	{
-	    rsty->UpdateSubtype(lsty->SubType());
-	}
-    }
+    CompleteSetType(lty, rty);
 
     // Note difference to binary expression: only allowed on rhs!
     if (llvm::isa<Types::PointerDecl>(lty) && llvm::isa<NilExprAST>(a->rhs))
@@ -608,12 +622,7 @@ void TypeCheckVisitor::Check<SetExprAST>(SetExprAST* s)
     Types::Range* r;
     if (!(r = s->Type()->GetRange()))
     {
-	Types::RangeDecl* rd = GetRangeDecl(s->Type());
-	auto              sd = llvm::dyn_cast<Types::SetDecl>(s->Type());
-	if (sd->SubType())
-	{
-	    sema->AddFixup(new SetRangeFixup(s, rd));
-	}
+	sema->AddFixup(new SetRangeFixup(s, GetRangeDecl(s->Type())));
     }
 }
 
@@ -710,6 +719,7 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
     {
 	bool bad = true;
 
+	CompleteSetType(parg[idx].Type(), a->Type());
 	if (const Types::TypeDecl* ty = parg[idx].Type()->AssignableType(a->Type()))
 	{
 	    if (parg[idx].IsRef() && !llvm::isa<AddressableAST, ClosureAST>(a))
@@ -795,7 +805,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     {
 	if (auto setDecl = llvm::dyn_cast<Types::SetDecl>(f->start->Type()))
 	{
-	    if (!setDecl->SubType()->CompatibleType(vty))
+	    if (setDecl->SubType() && !setDecl->SubType()->CompatibleType(vty))
 	    {
 		Error(f->variable, "Expected variable to be compatible with set");
 	    }
diff --git a/types.cpp b/types.cpp
index d03c6f7..5d90075 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1303,7 +1303,8 @@ namespace Types
     {
 	if (const auto sty = llvm::dyn_cast<SetDecl>(ty))
 	{
-	    if (*RangeBase(baseType) == *RangeBase(sty->baseType))
+	    // The empty set has no base type, and fits any set.
+	    if (!baseType || !sty->baseType || *RangeBase(baseType) == *RangeBase(sty->baseType))
 	    {
 		return this;
 	    }
-- 
2.43.0


From 9cdb0be120a5a623cbefd865dd25aa5217b03e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 29/57] fix: built-in functions work on longint, mixed
 arguments, steps and string constants

---
 builtin.cpp | 75 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 58 insertions(+), 17 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 8ccfdb7..46f9ff5 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -82,7 +82,7 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override { return args[0]->Type(); }
+	Types::TypeDecl* Type() const override;
 	ErrorType        Semantics() override;
     };
 
@@ -158,12 +158,13 @@ namespace Builtin
 	ErrorType        Semantics() override;
     };
 
-    class FunctionOrd : public FunctionInt
+    class FunctionOrd : public FunctionBase
     {
     public:
-	using FunctionInt::FunctionInt;
-	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
-	ErrorType    Semantics() override;
+	using FunctionBase::FunctionBase;
+	llvm::Value*     CodeGen(llvm::IRBuilder<>& builder) override;
+	Types::TypeDecl* Type() const override;
+	ErrorType        Semantics() override;
     };
 
     class FunctionLength : public FunctionInt
@@ -188,6 +189,9 @@ namespace Builtin
 	using FunctionSameAsArg::FunctionSameAsArg;
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
 	ErrorType    Semantics() override;
+
+    protected:
+	llvm::Value* Step(llvm::IRBuilder<>& builder);
     };
 
     class FunctionPred : public FunctionSucc
@@ -536,15 +540,33 @@ namespace Builtin
 	return ErrorType::Ok;
     }
 
+    // The type both arguments can be converted to.
+    Types::TypeDecl* FunctionSameAsArg2::Type() const
+    {
+	if (llvm::isa<Types::RealDecl>(args[0]->Type()) || llvm::isa<Types::RealDecl>(args[1]->Type()))
+	{
+	    return Types::Get<Types::RealDecl>();
+	}
+	return (args[1]->Type()->Size() > args[0]->Type()->Size()) ? args[1]->Type() : args[0]->Type();
+    }
+
     ErrorType FunctionSameAsArg2::Semantics()
     {
 	if (args.size() != 2)
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!Types::IsNumeric(args[0]->Type()) || !Types::IsNumeric(args[1]->Type()))
+	for (auto& a : args)
 	{
-	    return ErrorType::WrongArgType;
+	    if (!Types::IsNumeric(a->Type()) || llvm::isa<Types::ComplexDecl>(a->Type()))
+	    {
+		return ErrorType::WrongArgType;
+	    }
+	}
+	Types::TypeDecl* ty = Type();
+	for (auto& a : args)
+	{
+	    a = Recast(a, ty);
 	}
 	return ErrorType::Ok;
     }
@@ -587,7 +609,7 @@ namespace Builtin
 	if (IsIntegral(args[0]->Type()))
 	{
 	    llvm::Value* neg = builder.CreateNeg(a, "neg");
-	    llvm::Value* cmp = builder.CreateICmpSGE(a, MakeIntegerConstant(0), "abscond");
+	    llvm::Value* cmp = builder.CreateICmpSGE(a, MakeConstant(0, args[0]->Type()), "abscond");
 	    llvm::Value* res = builder.CreateSelect(cmp, a, neg, "abs");
 	    return res;
 	}
@@ -597,7 +619,7 @@ namespace Builtin
     llvm::Value* FunctionOdd::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* v = args[0]->CodeGen();
-	v = builder.CreateAnd(v, MakeIntegerConstant(1));
+	v = builder.CreateAnd(v, MakeConstant(1, args[0]->Type()));
 	return builder.CreateTrunc(v, Types::Get<Types::BoolDecl>()->LlvmType(), "odd");
     }
 
@@ -821,10 +843,17 @@ namespace Builtin
 	return ErrorType::Ok;
     }
 
+    // Ord of a longint is a longint, anything else gives an integer.
+    Types::TypeDecl* FunctionOrd::Type() const
+    {
+	Types::TypeDecl* intTy = Types::Get<Types::IntegerDecl>();
+	return (args[0]->Type()->Size() > intTy->Size()) ? Types::Get<Types::Int64Decl>() : intTy;
+    }
+
     llvm::Value* FunctionOrd::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	return builder.CreateZExt(a, Types::Get<Types::IntegerDecl>()->LlvmType(), "ord");
+	return builder.CreateZExt(a, Type()->LlvmType(), "ord");
     }
 
     ErrorType FunctionOrd::Semantics()
@@ -840,10 +869,20 @@ namespace Builtin
 	return ErrorType::Ok;
     }
 
+    // The optional second argument, as the type of the first.
+    llvm::Value* FunctionSucc::Step(llvm::IRBuilder<>& builder)
+    {
+	if (args.size() == 2)
+	{
+	    return builder.CreateSExtOrTrunc(args[1]->CodeGen(), args[0]->Type()->LlvmType(), "step");
+	}
+	return MakeConstant(1, args[0]->Type());
+    }
+
     llvm::Value* FunctionSucc::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	llvm::Value* b = (args.size() == 2) ? args[1]->CodeGen() : MakeConstant(1, args[0]->Type());
+	llvm::Value* b = Step(builder);
 
 	return builder.CreateAdd(a, b, "succ");
     }
@@ -868,7 +907,7 @@ namespace Builtin
     llvm::Value* FunctionPred::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	llvm::Value* b = (args.size() == 2) ? args[1]->CodeGen() : MakeConstant(1, args[0]->Type());
+	llvm::Value* b = Step(builder);
 
 	return builder.CreateSub(a, b, "pred");
     }
@@ -1201,7 +1240,7 @@ namespace Builtin
 
     llvm::Value* FunctionLength::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value* v = MakeAddressable(args[0]);
+	llvm::Value* v = MakeStringFromExpr(args[0], args[0]->Type());
 	llvm::Type*  charTy = Types::Get<Types::CharDecl>()->LlvmType();
 	v = builder.CreateGEP(charTy, v, MakeIntegerConstant(0), "str_0");
 	v = builder.CreateLoad(charTy, v, "len");
@@ -1215,7 +1254,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!llvm::isa<Types::StringDecl>(args[0]->Type()))
+	if (!IsStringLike(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -1395,7 +1434,8 @@ namespace Builtin
 	    llvm::Type*          ty = type->LlvmType();
 	    llvm::FunctionCallee f = GetFunction(ty, { ty }, name);
 	    llvm::Value*         a = args[0]->CodeGen();
-	    return builder.CreateCall(f, a, "popcnt");
+	    llvm::Type*          intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+	    return builder.CreateZExtOrTrunc(builder.CreateCall(f, a, "popcnt"), intTy);
 	}
 
 	llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
@@ -1578,8 +1618,9 @@ namespace Builtin
 	    llvm::Value* sel1 = builder.CreateICmpUGT(v, zero, "gt");
 	    return builder.CreateSelect(sel1, one, zero, "sgn1");
 	}
-	llvm::Value* sel1 = builder.CreateICmpSGT(v, zero, "gt");
-	llvm::Value* sel2 = builder.CreateICmpSLT(v, zero, "lt");
+	llvm::Value* vzero = MakeConstant(0, args[0]->Type());
+	llvm::Value* sel1 = builder.CreateICmpSGT(v, vzero, "gt");
+	llvm::Value* sel2 = builder.CreateICmpSLT(v, vzero, "lt");
 	llvm::Value* res = builder.CreateSelect(sel1, one, zero, "sgn1");
 	return builder.CreateSelect(sel2, mone, res, "sgn2");
     }
-- 
2.43.0


From c4731fd659b0369e67df9c3829aa76214b4c6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 30/57] fix: copy, index and trim handle every length, start
 and argument type

---
 builtin.cpp      |  8 ++++----
 runtime/string.c | 23 ++++++++++-------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 46f9ff5..f8dfe09 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1299,7 +1299,8 @@ namespace Builtin
     llvm::Value* FunctionCopy::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	llvm::Value* start = args[1]->CodeGen();
+	llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+	llvm::Value* start = builder.CreateIntCast(args[1]->CodeGen(), intTy, !IsUnsigned(args[1]->Type()));
 
 	llvm::Value* len;
 	if (args.size() == 2)
@@ -1308,8 +1309,7 @@ namespace Builtin
 	}
 	else
 	{
-	    len = args[2]->CodeGen();
-	    ;
+	    len = builder.CreateIntCast(args[2]->CodeGen(), intTy, !IsUnsigned(args[2]->Type()));
 	}
 
 	std::vector<llvm::Type*> argTypes = { str->getType(), start->getType(), len->getType() };
@@ -1339,7 +1339,7 @@ namespace Builtin
     llvm::Value* FunctionTrim::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	llvm::Value* res = CreateTempAlloca(args[0]->Type());
+	llvm::Value* res = CreateTempAlloca(Type());
 
 	llvm::Type*          ty = str->getType();
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty, ty },
diff --git a/runtime/string.c b/runtime/string.c
index b7002b8..1514b08 100644
--- a/runtime/string.c
+++ b/runtime/string.c
@@ -57,21 +57,17 @@ String __StrCopy(String* str, int start, int len)
     assert(start >= 1);
     assert(len >= 0);
 
-    if (start > str->len)
+    String result = { 0, "" };
+    if (start <= str->len)
     {
-	len = 0;
-    }
-    if (start + len > str->len)
-    {
-	len = str->len - (start - 1);
-	if (len < 0)
+	int left = str->len - (start - 1);
+	if (len > left)
 	{
-	    len = 0;
+	    len = left;
 	}
+	result.len = len;
+	memcpy(result.str, &str->str[start - 1], len);
     }
-
-    String result = { len, "" };
-    memcpy(result.str, &str->str[start - 1], len);
     return result;
 }
 
@@ -97,11 +93,12 @@ void __StrTrim(String* res, const String* str)
 /* Return index of second string in first string */
 int __StrIndex(String* str1, String* str2)
 {
-    bool           found = false;
+    // The empty string is found at the start of any string, even an empty one.
+    bool           found = str2->len == 0;
     unsigned char* s1 = str1->str;
     unsigned char* e1 = &str1->str[str1->len];
 
-    while (s1 < e1)
+    while (!found && s1 < e1)
     {
 	unsigned char* s2 = str2->str;
 	unsigned char* e2 = &str2->str[str2->len];
-- 
2.43.0


From 9d331f2aefb6b1973b84e0917528d8855bd25183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 31/57] fix: string assignments and value parameters keep to
 the capacity of their target

---
 expr.cpp         | 64 ++++++++++++++++++++++++++++++++----------------
 runtime/string.c | 13 +++++++---
 2 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 88d3412..6b93997 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -292,16 +292,16 @@ static llvm::Value* FillTempString(llvm::Value* dest, llvm::Value* rhs, size_t s
     return fn(rhs, destChars, size);
 }
 
-static llvm::Value* TempStringFromStringExpr(llvm::Value* dest, StringExprAST* rhs)
+static llvm::Value* TempStringFromStringExpr(llvm::Value* dest, StringExprAST* rhs, size_t maxLen = 255)
 {
     auto func = [](llvm::Value* v, llvm::Value* chars, size_t size)
     {
 	llvm::Align destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
 	llvm::Align srcAlign{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(chars, destAlign, v, srcAlign, size + 1);
+	return builder.CreateMemCpy(chars, destAlign, v, srcAlign, size);
     };
 
-    return FillTempString(dest, rhs->CodeGen(), rhs->Str().size(), func);
+    return FillTempString(dest, rhs->CodeGen(), std::min(rhs->Str().size(), maxLen), func);
 }
 
 static llvm::Value* TempStringFromChar(llvm::Value* dest, ExprAST* rhs)
@@ -823,6 +823,34 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
     return Error(e, "Unable to convert to temporary string");
 }
 
+// Assign the value of e to the string at dest. What does not fit is dropped.
+static llvm::Value* AssignString(llvm::Value* dest, Types::StringDecl* ty, ExprAST* e)
+{
+    TRACE();
+    if (auto cast = llvm::dyn_cast<TypeCastAST>(e))
+    {
+	if (llvm::isa<Types::StringDecl>(cast->Type()))
+	{
+	    e = cast->Expr();
+	}
+    }
+    if (auto se = llvm::dyn_cast<StringExprAST>(e))
+    {
+	return TempStringFromStringExpr(dest, se, ty->Capacity());
+    }
+    if (llvm::isa<Types::CharDecl>(e->Type()))
+    {
+	return TempStringFromChar(dest, e);
+    }
+
+    llvm::Value*         src = MakeStringFromExpr(e, e->Type());
+    llvm::Value*         capacity = MakeIntegerConstant(ty->Capacity());
+    llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+                                         { dest->getType(), src->getType(), capacity->getType() },
+                                         "__StrAssign");
+    return builder.CreateCall(f, { dest, src, capacity });
+}
+
 llvm::Value* CallStrFunc(const std::string& name, ExprAST* lhs, ExprAST* rhs, Types::TypeDecl* resTy,
                          const std::string& twine)
 {
@@ -1432,13 +1460,13 @@ llvm::Value* BinaryExprAST::CodeGen()
 
     ICE_IF(!lhs->Type() || !rhs->Type(), "Huh? Both sides of expression should have type");
 
-    if (BothStringish(lhs, rhs))
+    if (oper.GetToken() == Token::Plus && Types::IsStringLike(lhs->Type()) && Types::IsStringLike(rhs->Type()))
     {
-	if (oper.GetToken() == Token::Plus)
-	{
-	    return CallStrCat(lhs, rhs);
-	}
+	return CallStrCat(lhs, rhs);
+    }
 
+    if (BothStringish(lhs, rhs))
+    {
 	// We don't need to do this of both sides are char - then it's just a simple comparison
 	if (!llvm::isa<Types::CharDecl>(lhs->Type()) || !llvm::isa<Types::CharDecl>(rhs->Type()))
 	{
@@ -1450,10 +1478,6 @@ llvm::Value* BinaryExprAST::CodeGen()
     auto al = llvm::dyn_cast<Types::ArrayDecl>(lhs->Type());
     if (al && ar)
     {
-	if (oper.GetToken() == Token::Plus)
-	{
-	    return CallStrCat(lhs, rhs);
-	}
 	// Comparison operators are allowed for old style Pascal strings (char arrays)
 	// But only if they are the same size.
 	if (llvm::isa<Types::CharDecl>(al->SubType()) && llvm::isa<Types::CharDecl>(ar->SubType()))
@@ -1628,7 +1652,12 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 		}
 		if (!v)
 		{
-		    if (IsCompound(i->Type()))
+		    if (auto strTy = llvm::dyn_cast<Types::StringDecl>(vdef[index].Type()))
+		    {
+			v = CreateTempAlloca(strTy);
+			AssignString(v, strTy, i);
+		    }
+		    else if (IsCompound(i->Type()))
 		    {
 			if (vi)
 			{
@@ -2290,14 +2319,7 @@ llvm::Value* AssignExprAST::AssignStr()
     ICE_IF(!lhsv, "Expect variable in lhs");
     ICE_IF(!llvm::isa<Types::StringDecl>(lhsv->Type()), "Expect string type in lhsv->Type()");
 
-    if (auto srhs = llvm::dyn_cast<StringExprAST>(rhs))
-    {
-	llvm::Value* dest = lhsv->Address();
-	return TempStringFromStringExpr(dest, srhs);
-    }
-
-    ICE_IF(!llvm::isa<Types::StringDecl>(rhs->Type()), "Expect string for rhs expression");
-    return CallStrFunc("Assign", lhs, rhs, Types::Get<Types::VoidDecl>(), "");
+    return AssignString(lhsv->Address(), llvm::cast<Types::StringDecl>(lhsv->Type()), rhs);
 }
 
 llvm::Value* AssignExprAST::AssignSet()
diff --git a/runtime/string.c b/runtime/string.c
index 1514b08..0b915e8 100644
--- a/runtime/string.c
+++ b/runtime/string.c
@@ -21,11 +21,16 @@ void __StrConcat(String* res, String* a, String* b)
     memcpy(&res->str[a->len], b->str, blen);
 }
 
-/* Assign string b to string a. */
-void __StrAssign(String* a, String* b)
+/* Assign string b to string a, which has room for capacity characters. */
+void __StrAssign(String* a, String* b, int capacity)
 {
-    a->len = b->len;
-    memcpy(a->str, b->str, a->len);
+    int len = b->len;
+    if (len > capacity)
+    {
+	len = capacity;
+    }
+    a->len = len;
+    memmove(a->str, b->str, len);
 }
 
 /* Return >0 if a is greater than b,
-- 
2.43.0


From f1ae6e3bccd2a724db1a060bf556f8900a21b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 32/57] fix: copies of records keep what a variant has in
 another variant's padding

---
 types.cpp | 35 ++++++++---------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/types.cpp b/types.cpp
index 5d90075..983ca77 100644
--- a/types.cpp
+++ b/types.cpp
@@ -610,11 +610,7 @@ namespace Types
     {
 	const llvm::DataLayout& dl = theModule->getDataLayout();
 	size_t                 maxSize = 0;
-	size_t                 maxSizeElt = 0;
-	size_t                 maxAlign = 0;
-	size_t                 maxAlignElt = 0;
-	size_t                 maxAlignSize = 0;
-	size_t                 elt = 0;
+	size_t                 maxAlign = 1;
 	for (auto f : fields)
 	{
 	    llvm::Type* ty = f->LlvmType();
@@ -629,30 +625,15 @@ namespace Types
 		    return opaqueType;
 		}
 	    }
-	    size_t sz = dl.getTypeAllocSize(ty);
-	    size_t al = dl.getPrefTypeAlign(ty).value();
-	    if (sz > maxSize)
-	    {
-		maxSize = sz;
-		maxSizeElt = elt;
-	    }
-	    if (al > maxAlign || (al == maxAlign && sz > maxAlignSize))
-	    {
-		maxAlign = al;
-		maxAlignSize = sz;
-		maxAlignElt = elt;
-	    }
-	    elt++;
+	    maxSize = std::max<size_t>(maxSize, dl.getTypeAllocSize(ty));
+	    maxAlign = std::max<size_t>(maxAlign, dl.getABITypeAlign(ty).value());
 	}
 
-	llvm::Type*              ty = fields[maxAlignElt]->LlvmType();
-	std::vector<llvm::Type*> fv = { ty };
-	if (maxAlignElt != maxSizeElt)
-	{
-	    size_t      nelems = maxSize - maxAlignSize;
-	    llvm::Type* ty = llvm::ArrayType::get(Get<CharDecl>()->LlvmType(), nelems);
-	    fv.push_back(ty);
-	}
+	// Use integers that cover all of the storage: if one of the variants is used to represent
+	// the others too, what they keep in its padding is lost when the record is loaded and stored.
+	size_t                   nelems = (maxSize + maxAlign - 1) / maxAlign;
+	llvm::Type*              ty = llvm::IntegerType::get(theContext, maxAlign * 8);
+	std::vector<llvm::Type*> fv = { llvm::ArrayType::get(ty, nelems) };
 	return llvm::StructType::create(fv, name);
     }
 
-- 
2.43.0


From ff127cbfb1415d456b6d1dfd324f9fc0d4a3c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 33/57] fix: debug info gives array and set ranges their number
 of elements

---
 types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.cpp b/types.cpp
index 983ca77..6163947 100644
--- a/types.cpp
+++ b/types.cpp
@@ -369,7 +369,7 @@ namespace Types
 	for (auto r : ranges)
 	{
 	    Range* rr = r->GetRange();
-	    subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->End()));
+	    subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->Size()));
 	}
 	llvm::DIType* bd = baseType->DebugType(builder);
 	if (!bd)
@@ -1245,7 +1245,7 @@ namespace Types
     {
 	std::vector<llvm::Metadata*> subscripts;
 	Range*                       rr = range->GetRange();
-	subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->End()));
+	subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->Size()));
 	llvm::DIType*     bd = builder->createBasicType("INTEGER", 32, llvm::dwarf::DW_ATE_unsigned);
 	llvm::DINodeArray subsArray = builder->getOrCreateArray(subscripts);
 	return builder->createArrayType(baseType->Size() * CHAR_BIT, baseType->AlignSize() * CHAR_BIT, bd,
-- 
2.43.0


From cb2ce65d4c9fc80ee13d627fd214b265af693326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 34/57] fix: names of fields and methods may differ in letter
 case

---
 types.cpp |  7 ++++---
 utils.h   | 12 ++++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/types.cpp b/types.cpp
index 6163947..4bbf06c 100644
--- a/types.cpp
+++ b/types.cpp
@@ -3,6 +3,7 @@
 #include "runtime/runtime.h"
 #include "schema.h"
 #include "trace.h"
+#include "utils.h"
 #include <climits>
 #include <llvm/IR/LLVMContext.h>
 #include <sstream>
@@ -670,7 +671,7 @@ namespace Types
 		    return i;
 		}
 	    }
-	    if (f->Name() == name)
+	    if (SameName(f->Name(), name))
 	    {
 		return i;
 	    }
@@ -879,7 +880,7 @@ namespace Types
 	    bool found = false;
 	    for (auto& j : membfuncs)
 	    {
-		if (j->Proto()->Name() == i->Proto()->Name())
+		if (SameName(j->Proto()->Name(), i->Proto()->Name()))
 		{
 		    j = i;
 		    found = true;
@@ -922,7 +923,7 @@ namespace Types
     {
 	for (size_t i = 0; i < membfuncs.size(); i++)
 	{
-	    if (membfuncs[i]->Proto()->Name() == nm)
+	    if (SameName(membfuncs[i]->Proto()->Name(), nm))
 	    {
 		return i;
 	    }
diff --git a/utils.h b/utils.h
index e23b3a1..02a877a 100644
--- a/utils.h
+++ b/utils.h
@@ -1,6 +1,7 @@
 #ifndef UTILS_H
 #define UTILS_H
 
+#include "options.h"
 #include <algorithm>
 #include <string>
 
@@ -9,6 +10,17 @@ inline void strlower(std::string& str)
     std::transform(str.begin(), str.end(), str.begin(), ::tolower);
 }
 
+// Compare two identifiers, which may differ in letter case.
+inline bool SameName(std::string a, std::string b)
+{
+    if (caseInsensitive)
+    {
+	strlower(a);
+	strlower(b);
+    }
+    return a == b;
+}
+
 std::string GetPath(const std::string& fileName);
 
 [[noreturn]] void InternalCompilerError(const char* file, int line, const std::string& msg);
-- 
2.43.0


From 0db0f34b7a1a862184e380c42ac4c96627aa718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 35/57] fix: nested routines get all variables that what they
 call or pass on needs

---
 callgraph.cpp | 117 ++++++++++++++++++++++++++++----------------------
 1 file changed, 66 insertions(+), 51 deletions(-)

diff --git a/callgraph.cpp b/callgraph.cpp
index b3dae00..fd868e6 100644
--- a/callgraph.cpp
+++ b/callgraph.cpp
@@ -127,6 +127,16 @@ public:
     void AddVarDecls(const std::vector<VarDef>& vars, FunctionAST* f);
     void CollectUseData(FunctionAST* f);
 
+    // The function that declares the variable called name that f can use.
+    const FunctionAST* Owner(const FunctionAST* f, const std::string& name)
+    {
+	while (f && !declMap[f].count(name))
+	{
+	    f = f->Parent();
+	}
+	return f;
+    }
+
     std::map<const FunctionAST*, VarSet>  useMap;
     std::map<const FunctionAST*, VarMap>  declMap;
     std::map<const FunctionAST*, CallSet> callMap;
@@ -153,14 +163,17 @@ public:
 	    ICE_IF(v->Name().empty(), "Expect a name");
 	    uses.insert(v->Name());
 	}
+	const ExprAST* callee = a;
 	if (auto c = llvm::dyn_cast<CallExprAST>(a))
 	{
-	    if (auto fe = llvm::dyn_cast<FunctionExprAST>(c->Callee()))
+	    callee = c->Callee();
+	}
+	// Functions that are called or passed as an argument.
+	if (auto fe = llvm::dyn_cast<FunctionExprAST>(callee))
+	{
+	    if (auto fn = fe->Proto()->Function())
 	    {
-		if (auto fn = fe->Proto()->Function())
-		{
-		    calls.insert(fn);
-		}
+		calls.insert(fn);
 	    }
 	}
     }
@@ -168,6 +181,17 @@ public:
     VarSet  uses;
 };
 
+// The bounds of a conformant array parameter
+static std::vector<VarDef> BoundsOf(const VarDef& v)
+{
+    if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(v.Type()))
+    {
+	Types::DynRangeDecl* dr = dty->Range();
+	return { VarDef(dr->LowName(), dr->SubType()), VarDef(dr->HighName(), dr->SubType()) };
+    }
+    return {};
+}
+
 void CallGraphClosureCollector::AddVarDecls(const std::vector<VarDef>& vars, FunctionAST* f)
 {
     VarMap& dm = declMap[f];
@@ -184,27 +208,15 @@ void CallGraphClosureCollector::CollectUseData(FunctionAST* f)
     f->accept(collector);
     if (!llvm::isa<Types::VoidDecl>(f->Proto()->Type()))
     {
-	AddVarDecls({ VarDef(f->Proto()->Name(), f->Proto()->Type()) }, f);
+	AddVarDecls({ VarDef(f->Proto()->ResName(), f->Proto()->Type()) }, f);
     }
     AddVarDecls(f->Proto()->Args(), f);
-    useMap[f] = collector.uses;
-    callMap[f] = collector.calls;
-}
-
-void RemoveFromUses(VarSet& uses, const VarMap& decls)
-{
-    for (auto d : decls)
+    for (auto a : f->Proto()->Args())
     {
-	uses.erase(d.second.Name());
-    }
-}
-
-void AddToUses(VarSet& uses, VarSet& more)
-{
-    for (auto v : more)
-    {
-	uses.insert(v);
+	AddVarDecls(BoundsOf(a), f);
     }
+    useMap[f] = collector.uses;
+    callMap[f] = collector.calls;
 }
 
 void BuildClosures(ExprAST* ast)
@@ -213,47 +225,50 @@ void BuildClosures(ExprAST* ast)
     CallGraphClosureCollector v;
     CallGraph(ast, v);
 
+    // What a function uses of the functions around it.
+    std::map<const FunctionAST*, std::set<VarDef>> used;
     for (auto usage : v.useMap)
     {
-	VarSet       uses = usage.second;
-	FunctionAST* func = const_cast<FunctionAST*>(usage.first);
-
-	// Remove local declarations.
-	RemoveFromUses(uses, v.declMap[func]);
-
-	// Add uses from subfunctions.
-	for (auto sub : func->SubFunctions())
+	for (auto use : usage.second)
 	{
-	    VarSet use = v.useMap[sub];
-	    RemoveFromUses(use, v.declMap[sub]);
-	    AddToUses(uses, use);
-	}
-
-	for (auto call : v.callMap[func])
-	{
-	    VarSet callerUse = v.useMap[call];
-	    RemoveFromUses(callerUse, v.declMap[call]);
-	    AddToUses(uses, callerUse);
+	    const FunctionAST* f = v.Owner(usage.first, use);
+	    if (f && f != usage.first)
+	    {
+		VarDef def = v.declMap[f].at(use);
+		used[usage.first].insert(def);
+		for (auto b : BoundsOf(def))
+		{
+		    used[usage.first].insert(b);
+		}
+	    }
 	}
+    }
 
-	// Now search up the stack until to see if
-	// it's local "above" us.
-	std::set<VarDef> used;
-	for (auto use : uses)
+    // It also has to have what the functions it calls or passes on need of those around it.
+    bool changed;
+    do
+    {
+	changed = false;
+	for (auto caller : v.callMap)
 	{
-	    for (const FunctionAST* f = func->Parent(); f; f = f->Parent())
+	    for (auto callee : caller.second)
 	    {
-		const VarMap& dm = v.declMap[f];
-		auto          v = dm.find(use);
-		if (v != dm.end())
+		for (auto def : used[callee])
 		{
-		    used.insert(v->second);
-		    break;
+		    const FunctionAST* f = v.Owner(caller.first, def.Name());
+		    if (f && f != caller.first)
+		    {
+			changed |= used[caller.first].insert(def).second;
+		    }
 		}
 	    }
 	}
+    } while (changed);
 
-	func->SetUsedVars(used);
+    for (auto u : used)
+    {
+	FunctionAST* func = const_cast<FunctionAST*>(u.first);
+	func->SetUsedVars(u.second);
 	if (Types::TypeDecl* closure = func->ClosureType())
 	{
 	    func->Proto()->AddExtraArgsFirst(
-- 
2.43.0


From b8f06efdb6d4accde09f22bc04cf87cb951efde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 36/57] fix: a name that hides another keeps its own variable
 or routine

---
 expr.cpp      |  7 ++++++-
 expr.h        |  4 ++++
 namedobject.h |  1 +
 parser.cpp    | 53 +++++++++++++++++++++++++++++++++++++++++----------
 types.h       |  5 +++++
 5 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 6b93997..ad7c043 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1907,6 +1907,11 @@ llvm::Function* PrototypeAST::Create(const std::string& namePrefix)
     else
     {
 	actualName = namePrefix + ".";
+	// Routines that are private to a unit.
+	if (!unit.empty())
+	{
+	    actualName += unit + "$";
+	}
 	if (baseobj)
 	{
 	    actualName += baseobj->Name() + "$";
@@ -2196,7 +2201,7 @@ llvm::Function* FunctionAST::CodeGen(const std::string& namePrefix)
 
     llvm::BasicBlock::iterator ip = builder.GetInsertPoint();
 
-    std::string newPrefix = namePrefix + "." + proto->Name();
+    std::string newPrefix = theFunction->getName().str();
     for (auto fn : subFunctions)
     {
 	fn->CodeGen(newPrefix);
diff --git a/expr.h b/expr.h
index 54774fc..9c4984e 100644
--- a/expr.h
+++ b/expr.h
@@ -552,7 +552,10 @@ public:
     void                       CreateArgumentAlloca();
     const std::string&         Name() const { return name; }
     const std::string&         ResName() const { return resname; }
+    void                       SetResName(const std::string& nm) { resname = nm; }
+    void                       SetUnit(const std::string& nm) { unit = nm; }
     const std::vector<VarDef>& Args() const { return args; }
+    std::vector<VarDef>&       Args() { return args; }
     bool                       IsForward() const { return isForward; }
     bool                       HasSelf() const { return hasSelf; }
     void                       SetIsForward(bool v);
@@ -568,6 +571,7 @@ public:
 
 private:
     std::string         name;
+    std::string         unit;
     std::string         resname;
     std::vector<VarDef> args;
     FunctionAST*        function;
diff --git a/namedobject.h b/namedobject.h
index 842e3f5..12d0416 100644
--- a/namedobject.h
+++ b/namedobject.h
@@ -28,6 +28,7 @@ public:
     virtual ~NamedObject() {}
     Types::TypeDecl*   Type() const { return type; }
     const std::string& Name() const { return name; }
+    void               SetName(const std::string& nm) { name = nm; }
     virtual void       dump() const;
     NamedKind          getKind() const { return kind; }
 
diff --git a/parser.cpp b/parser.cpp
index d2f9c24..dd61ade 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -188,6 +188,7 @@ public:
 
     std::vector<VarDef> CalculateUsedVars(FunctionAST* fn, const std::vector<const NamedObject*>& varsUsed,
                                           const Stack<const NamedObject*>& nameStack);
+    std::string         VariableName(const std::string& name);
 
     void PrintError(const char* file, int line, const Token& t, const std::string& msg);
     template<typename T = std::nullptr_t>
@@ -212,6 +213,9 @@ private:
     int                       errCnt;
     Stack<const NamedObject*> nameStack;
     std::vector<ExprAST*>     ast;
+    int                       functionLevel = 0;
+    int                       renamed = 0;
+    bool                      inImplementation = false;
 };
 
 using NameWrapper = StackWrapper<const NamedObject*>;
@@ -3242,6 +3246,21 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
     return 0;
 }
 
+// Code is generated from the names of variables, so a variable that hides another one where
+// both can be used (by nested routines, or the program that uses a unit) needs another name.
+std::string Parser::VariableName(const std::string& name)
+{
+    if (functionLevel > 1 && llvm::isa_and_nonnull<VarDef, FuncDef>(nameStack.Find(name)))
+    {
+	return name + "$" + std::to_string(++renamed);
+    }
+    if (functionLevel == 0 && inImplementation)
+    {
+	return moduleName + "$" + name;
+    }
+    return name;
+}
+
 VarDeclAST* Parser::ParseVarDecls()
 {
     TRACE();
@@ -3258,9 +3277,9 @@ VarDeclAST* Parser::ParseVarDecls()
 	    {
 		for (auto n : ccv.Names())
 		{
-		    VarDef v(n, type);
+		    VarDef v(VariableName(n), type);
 		    varList.push_back(v);
-		    if (!nameStack.Add(new VarDef(v)))
+		    if (!nameStack.Add(n, new VarDef(v)))
 		    {
 			return Error("Name '" + n + "' is already defined");
 		    }
@@ -3633,6 +3652,10 @@ FunctionAST* Parser::ParseDefinition(int level)
 	{
 	    Types::TypeDecl* ty = new Types::FunctionDecl(proto);
 	    nmObj = new FuncDef(name, ty, proto);
+	    if (level == 0 && inImplementation)
+	    {
+		proto->SetUnit(moduleName);
+	    }
 	    // Procedure = void function. Do not introdce a result name.
 	    if (llvm::isa<Types::VoidDecl>(proto->Type()))
 	    {
@@ -3661,6 +3684,7 @@ FunctionAST* Parser::ParseDefinition(int level)
     }
 
     NameWrapper wrapper(nameStack);
+    functionLevel = level + 1;
     if (proto->HasSelf())
     {
 	ICE_IF(!proto->BaseObj(), "Expect base object!");
@@ -3671,26 +3695,32 @@ FunctionAST* Parser::ParseDefinition(int level)
     if (shortname != "" && proto->ResName() != shortname)
     {
 	ICE_IF(!nmObj, "Named object expected");
-	VarDef* vd = new VarDef(proto->ResName(), proto->Type());
-	nameStack.Add(vd);
+	std::string resName = proto->ResName();
+	proto->SetResName(VariableName(resName));
+	nameStack.Add(resName, new VarDef(proto->ResName(), proto->Type()));
     }
 
     for (auto& v : proto->Args())
     {
-	if (!nameStack.Add(&v))
+	std::string argName = v.Name();
+	v.SetName(VariableName(argName));
+	if (!nameStack.Add(argName, &v))
 	{
-	    return Error("Duplicate name '" + v.Name() + "'.");
+	    return Error("Duplicate name '" + argName + "'.");
 	}
 	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(v.Type()))
 	{
 	    Types::DynRangeDecl* dr = dty->Range();
-	    if (!nameStack.Add(new VarDef(dr->LowName(), dr->SubType())))
+	    std::string lowName = dr->LowName();
+	    std::string highName = dr->HighName();
+	    dr->SetNames(VariableName(lowName), VariableName(highName));
+	    if (!nameStack.Add(lowName, new VarDef(dr->LowName(), dr->SubType())))
 	    {
-		return Error("Duplicate name '" + dr->LowName() + "'.");
+		return Error("Duplicate name '" + lowName + "'.");
 	    }
-	    if (!nameStack.Add(new VarDef(dr->HighName(), dr->SubType())))
+	    if (!nameStack.Add(highName, new VarDef(dr->HighName(), dr->SubType())))
 	    {
-		return Error("Duplicate name '" + dr->HighName() + "'.");
+		return Error("Duplicate name '" + highName + "'.");
 	    }
 	}
     }
@@ -3732,6 +3762,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 	    {
 		subFunctions.push_back(fn);
 	    }
+	    functionLevel = level + 1;
 	    break;
 	}
 
@@ -4613,6 +4644,7 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	case Token::Function:
 	case Token::Procedure:
 	    curAst = ParseDefinition(0);
+	    functionLevel = 0;
 	    break;
 
 	case Token::Var:
@@ -4644,6 +4676,7 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	case Token::Implementation:
 	    // Start a new level of names
 	    AssertToken(Token::Implementation);
+	    inImplementation = true;
 	    break;
 
 	case Token::Begin:
diff --git a/types.h b/types.h
index b08da26..cb47e89 100644
--- a/types.h
+++ b/types.h
@@ -298,6 +298,11 @@ namespace Types
 	static bool        classof(const TypeDecl* e) { return e->getKind() == TK_DynRange; }
 	const std::string& LowName() { return lowName; }
 	const std::string& HighName() { return highName; }
+	void               SetNames(const std::string& l, const std::string& h)
+	{
+	    lowName = l;
+	    highName = h;
+	}
 	size_t             RangeSize() const override
 	{
 	    ICE("Huh? Dynamic range size?");
-- 
2.43.0


From ef01c6ebd359cf7aebd6f212d4d3f943f72029fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 37/57] fix: fields, virtual methods and copies of objects in
 class hierarchies

---
 builtin.cpp |  12 +---
 expr.cpp    | 190 +++++++++++++++++++++++++++++++++++++++-------------
 expr.h      |   1 +
 parser.cpp  |  39 ++++++-----
 types.cpp   | 143 +++++++++++++++++++++------------------
 types.h     |   6 +-
 6 files changed, 250 insertions(+), 141 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index f8dfe09..b2a36b5 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -931,17 +931,7 @@ namespace Builtin
 	retVal = builder.CreateBitCast(retVal, pd->LlvmType(), "cast");
 	llvm::Value* pA = var->Address();
 
-	// TODO: We need to recursively process the type here, and construct vtables for all
-	// of the elements that are classes (that have VTables).
-	if (auto cd = llvm::dyn_cast<Types::ClassDecl>(elemTy))
-	{
-	    if (cd->VTableType(Types::Opaque))
-	    {
-		llvm::GlobalVariable* gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-		llvm::Value* dest = builder.CreateGEP(voidTy, retVal, MakeIntegerConstant(0), "vtable");
-		builder.CreateStore(gv, dest);
-	    }
-	}
+	StoreVTables(pd->SubType(), retVal);
 	return builder.CreateStore(retVal, pA);
     }
 
diff --git a/expr.cpp b/expr.cpp
index ad7c043..a47c032 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -328,6 +328,113 @@ static llvm::Value* TempStringFromCharArray(llvm::Value* dest, AddressableAST* r
     return FillTempString(dest, rhs->Address(), size, func);
 }
 
+static bool HasVTables(Types::TypeDecl* ty)
+{
+    if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
+    {
+	return HasVTables(ad->SubType());
+    }
+    auto fc = llvm::dyn_cast<Types::FieldCollection>(ty);
+    if (!fc)
+    {
+	return false;
+    }
+    auto cd = llvm::dyn_cast<Types::ClassDecl>(ty);
+    bool has = cd && cd->VTableType(Types::Opaque);
+    for (int i = 0; i < fc->FieldCount() && !has; i++)
+    {
+	has = !fc->GetElement(i)->IsStatic() && HasVTables(fc->GetElement(i)->SubType());
+    }
+    return has;
+}
+
+static llvm::GlobalVariable* VTable(Types::ClassDecl* cd)
+{
+    return theModule->getGlobalVariable("vtable_" + cd->Name(), true);
+}
+
+// Add pointers to the vtables to the initial value of a variable
+static llvm::Constant* AddVTables(Types::TypeDecl* ty, llvm::Constant* init)
+{
+    if (!HasVTables(ty))
+    {
+	return init;
+    }
+    std::vector<llvm::Constant*> elems;
+    for (unsigned i = 0; llvm::Constant* c = init->getAggregateElement(i); i++)
+    {
+	elems.push_back(c);
+    }
+    if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
+    {
+	for (auto& e : elems)
+	{
+	    e = AddVTables(ad->SubType(), e);
+	}
+	return llvm::ConstantArray::get(llvm::cast<llvm::ArrayType>(init->getType()), elems);
+    }
+    auto fc = llvm::dyn_cast<Types::FieldCollection>(ty);
+    auto cd = llvm::dyn_cast<Types::ClassDecl>(ty);
+    for (int i = 0; i < fc->FieldCount(); i++)
+    {
+	const Types::FieldDecl* f = fc->GetElement(i);
+	if (!f->IsStatic())
+	{
+	    llvm::Constant*& e = elems[cd ? cd->StructElement(i) : i];
+	    e = AddVTables(f->SubType(), e);
+	}
+    }
+    if (cd && cd->VTableType(Types::Opaque))
+    {
+	elems[cd->VTableElement()] = VTable(cd);
+    }
+    return llvm::ConstantStruct::get(llvm::cast<llvm::StructType>(init->getType()), elems);
+}
+
+// Store pointers to the vtables of all objects in a variable
+void StoreVTables(Types::TypeDecl* ty, llvm::Value* v)
+{
+    if (!HasVTables(ty))
+    {
+	return;
+    }
+    llvm::Type* llvmTy = ty->LlvmType();
+    if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
+    {
+	llvm::Function*   fn = builder.GetInsertBlock()->getParent();
+	llvm::BasicBlock* startBB = builder.GetInsertBlock();
+	llvm::BasicBlock* loopBB = llvm::BasicBlock::Create(theContext, "vtables", fn);
+	llvm::BasicBlock* endBB = llvm::BasicBlock::Create(theContext, "vtablesEnd", fn);
+	builder.CreateBr(loopBB);
+	builder.SetInsertPoint(loopBB);
+	llvm::Type*    intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+	llvm::PHINode* idx = builder.CreatePHI(intTy, 2, "idx");
+	idx->addIncoming(MakeIntegerConstant(0), startBB);
+	StoreVTables(ad->SubType(), builder.CreateGEP(ad->SubType()->LlvmType(), v, idx, "elem"));
+	llvm::Value* next = builder.CreateAdd(idx, MakeIntegerConstant(1), "next");
+	idx->addIncoming(next, builder.GetInsertBlock());
+	llvm::Value* size = MakeIntegerConstant(llvm::cast<llvm::ArrayType>(llvmTy)->getNumElements());
+	builder.CreateCondBr(builder.CreateICmpEQ(next, size), endBB, loopBB);
+	builder.SetInsertPoint(endBB);
+	return;
+    }
+    auto fc = llvm::dyn_cast<Types::FieldCollection>(ty);
+    auto cd = llvm::dyn_cast<Types::ClassDecl>(ty);
+    for (int i = 0; i < fc->FieldCount(); i++)
+    {
+	const Types::FieldDecl* f = fc->GetElement(i);
+	if (!f->IsStatic() && HasVTables(f->SubType()))
+	{
+	    int elem = cd ? cd->StructElement(i) : i;
+	    StoreVTables(f->SubType(), builder.CreateStructGEP(llvmTy, v, elem, "field"));
+	}
+    }
+    if (cd && cd->VTableType(Types::Opaque))
+    {
+	builder.CreateStore(VTable(cd), builder.CreateStructGEP(llvmTy, v, cd->VTableElement(), "vtable"));
+    }
+}
+
 static llvm::Value* LoadOrMemcpy(llvm::Value* src, Types::TypeDecl* ty)
 {
     llvm::Value* dest = CreateTempAlloca(ty);
@@ -1662,6 +1769,10 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 			if (vi)
 			{
 			    v = LoadOrMemcpy(vi->Address(), vi->Type());
+			    if (llvm::isa<Types::ClassDecl>(vi->Type()))
+			    {
+				StoreVTables(vi->Type(), v);
+			    }
 			}
 			else
 			{
@@ -2019,6 +2130,7 @@ void PrototypeAST::CreateArgumentAlloca()
     if (!llvm::isa<Types::VoidDecl>(type))
     {
 	llvm::AllocaInst* a = CreateAlloca(llvmFunc, VarDef(resname, type));
+	StoreVTables(type, a);
 	if (!variables.Add(resname, a))
 	{
 	    Error(this, "Duplicate function result name '" + resname + "'.");
@@ -2199,7 +2311,7 @@ llvm::Function* FunctionAST::CodeGen(const std::string& namePrefix)
 	d->CodeGen();
     }
 
-    llvm::BasicBlock::iterator ip = builder.GetInsertPoint();
+    auto ip = builder.saveIP();
 
     std::string newPrefix = theFunction->getName().str();
     for (auto fn : subFunctions)
@@ -2219,7 +2331,7 @@ llvm::Function* FunctionAST::CodeGen(const std::string& namePrefix)
 	DebugInfo& di = GetDebugInfo();
 	di.EmitLocation(body->Loc());
     }
-    builder.SetInsertPoint(bb, ip);
+    builder.restoreIP(ip);
     llvm::Value* block = body->CodeGen();
     ICE_IF(!block && !body->IsEmpty(), "Failed to generate function body");
 
@@ -2372,6 +2484,17 @@ llvm::Value* AssignExprAST::CodeGen()
 
     llvm::Value* dest = lhsv->Address();
 
+    // What an object is copied from may be of another class, but it remains of its own.
+    auto cd = llvm::dyn_cast<Types::ClassDecl>(lhs->Type());
+    if (cd && cd->VTableType(Types::Opaque))
+    {
+	llvm::Type*  ty = Types::GetVoidPtrType();
+	llvm::Value* vptr = builder.CreateStructGEP(cd->LlvmType(), dest, cd->VTableElement(), "vptr");
+	llvm::Value* vtable = builder.CreateLoad(ty, vptr, "vtable");
+	builder.CreateStore(rhs->CodeGen(), dest);
+	return builder.CreateStore(vtable, vptr);
+    }
+
     // If rhs is a simple variable, and "large", then use memcpy on it!
     size_t size = rhs->Type()->Size();
     if (!disableMemcpyOpt && size >= MEMCPY_THRESHOLD)
@@ -3307,24 +3430,9 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     }
 
     ICE_IF(!ty, "Type should have a value");
-    llvm::Constant*   init;
-    llvm::Constant*   nullValue = llvm::Constant::getNullValue(ty);
-    Types::ClassDecl* cd = llvm::dyn_cast<Types::ClassDecl>(var.Type());
-    if (cd && cd->VTableType(Types::Opaque))
-    {
-	llvm::GlobalVariable*        gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-	auto                         sty = llvm::dyn_cast<llvm::StructType>(ty);
-	std::vector<llvm::Constant*> vtable(sty->getNumElements());
-	vtable[0] = gv;
-	unsigned i = 1;
-	while (llvm::Constant* c = nullValue->getAggregateElement(i))
-	{
-	    vtable[i] = c;
-	    i++;
-	}
-	init = llvm::ConstantStruct::get(sty, vtable);
-    }
-    else if (ExprAST* iv = var.Init())
+    llvm::Constant* init;
+    llvm::Constant* nullValue = llvm::Constant::getNullValue(ty);
+    if (ExprAST* iv = var.Init())
     {
 	init = llvm::dyn_cast<llvm::Constant>(iv->CodeGen());
 	ICE_IF(!init, "Expected intializer to be constant");
@@ -3333,6 +3441,10 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     {
 	init = nullValue;
     }
+    if (HasVTables(var.Type()))
+    {
+	init = AddVTables(var.Type(), init);
+    }
     llvm::GlobalValue::LinkageTypes linkage = (var.IsExternal() ? llvm::GlobalValue::ExternalLinkage
                                                                 : llvm::Function::InternalLinkage);
 
@@ -3367,19 +3479,12 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
 llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 {
     llvm::Value* v = CreateAlloca(func->Proto()->LlvmFunction(), var);
-    auto         cd = llvm::dyn_cast<Types::ClassDecl>(var.Type());
-    if (cd && cd->VTableType(Types::Opaque))
-    {
-	llvm::GlobalVariable* gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-	llvm::Type*           ty = Types::GetVoidPtrType();
-	llvm::Value*          dest = builder.CreateGEP(ty, v, MakeIntegerConstant(0), "vtable");
-	builder.CreateStore(gv, dest);
-    }
-    else if (ExprAST* iv = var.Init())
+    if (ExprAST* iv = var.Init())
     {
 	llvm::Value* init = iv->CodeGen();
 	builder.CreateStore(init, v);
     }
+    StoreVTables(var.Type(), v);
     if (debugInfo)
     {
 	DebugInfo& di = GetDebugInfo();
@@ -4078,8 +4183,7 @@ llvm::Value* TypeCastAST::CodeGen()
     }
     if (llvm::isa<Types::ClassDecl>(type) && llvm::isa<Types::ClassDecl>(current))
     {
-	llvm::Type* ty = llvm::PointerType::getUnqual(type->LlvmType());
-	return builder.CreateLoad(ty, builder.CreateBitCast(Address(), ty));
+	return builder.CreateLoad(type->LlvmType(), Address(), "base");
     }
     if (llvm::isa<Types::CharDecl>(type) && llvm::isa<Types::CharDecl>(current))
     {
@@ -4221,22 +4325,15 @@ llvm::Value* VTableAST::CodeGen()
 
 std::vector<llvm::Constant*> VTableAST::GetInitializer()
 {
-    std::vector<llvm::Constant*> vtInit(classDecl->NumVirtFuncs());
-    for (size_t i = 0; i < classDecl->MembFuncCount(); i++)
+    std::vector<llvm::Constant*> vtInit;
+    for (auto m : classDecl->VirtFuncs())
     {
-	Types::MemberFuncDecl* m = classDecl->GetMembFunc(i);
-	if (m->IsVirtual() || m->IsOverride())
+	llvm::Constant* c = theModule->getFunction("P." + m->LongName());
+	if (!c)
 	{
-	    if (llvm::Constant* c = theModule->getFunction("P." + m->LongName()))
-	    {
-		vtInit[m->VirtIndex()] = c;
-	    }
-	    else
-	    {
-		vtInit.clear();
-		break;
-	    }
+	    return {};
 	}
+	vtInit.push_back(c);
     }
     return vtInit;
 }
@@ -4266,10 +4363,11 @@ llvm::Value* VirtFunctionAST::Address()
 {
     llvm::Value* v = MakeAddressable(self);
     llvm::Type*  ty = self->Type()->LlvmType();
-    auto         vtableTy = llvm::dyn_cast<Types::ClassDecl>(self->Type())->VTableType(Types::FilledIn);
+    auto         cd = llvm::dyn_cast<Types::ClassDecl>(self->Type());
+    auto         vtableTy = cd->VTableType(Types::FilledIn);
     llvm::Type*  ptrVTableTy = llvm::PointerType::getUnqual(vtableTy);
     llvm::Value* zero = MakeIntegerConstant(0);
-    v = builder.CreateGEP(ty, v, { zero, zero }, "vptr");
+    v = builder.CreateGEP(ty, v, { zero, MakeIntegerConstant(cd->VTableElement()) }, "vptr");
     v = builder.CreateLoad(ptrVTableTy, v, "vtable");
     v = builder.CreateGEP(vtableTy, v, { zero, MakeIntegerConstant(index) }, "mfunc");
     return v;
diff --git a/expr.h b/expr.h
index 9c4984e..095dd4d 100644
--- a/expr.h
+++ b/expr.h
@@ -1164,6 +1164,7 @@ llvm::FunctionCallee GetFunction(llvm::Type* resTy, const std::vector<llvm::Type
 ExprAST*             Recast(ExprAST* a, const Types::TypeDecl* ty);
 size_t               AlignOfType(llvm::Type* ty);
 llvm::AllocaInst*    CreateTempAlloca(Types::TypeDecl* ty);
+void                 StoreVTables(Types::TypeDecl* ty, llvm::Value* v);
 llvm::Value*         MakeStrCompare(Token::TokenType oper, llvm::Value* v);
 llvm::Value*         CallStrFunc(const std::string& name, ExprAST* lhs, ExprAST* rhs, Types::TypeDecl* resTy,
                                  const std::string& twine);
diff --git a/parser.cpp b/parser.cpp
index dd61ade..e1084d2 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1975,15 +1975,14 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
 
     std::vector<Types::MemberFuncDecl*> mf;
     std::vector<VarDef>                 vars;
-    bool                                needVtable = false;
     for (auto f = fields.begin(); f != fields.end();)
     {
 	if (auto m = llvm::dyn_cast<Types::MemberFuncDecl>((*f)->SubType()))
 	{
 	    mf.push_back(m);
-	    if (m->IsVirtual() || m->IsOverride())
+	    if (m->IsOverride() && !(base && base->HasVirtFunc(m->Proto()->Name())))
 	    {
-		needVtable = true;
+		return Error("'" + m->Proto()->Name() + "' is not a virtual function of a base class");
 	    }
 	    f = fields.erase(f);
 	}
@@ -2003,8 +2002,7 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
     }
 
     auto cd = new Types::ClassDecl(name, fields, mf, variant, base);
-    // For now, we generate vtable whether we need it or not.
-    if (needVtable)
+    if (!cd->VirtFuncs().empty())
     {
 	ast.push_back(new VTableAST(loc, cd));
     }
@@ -2441,8 +2439,6 @@ ExprAST* Parser::MakeSelfCall(ExprAST* self, Types::MemberFuncDecl* mf, Types::C
 {
     ExprAST*            expr = 0;
     const PrototypeAST* proto = mf->Proto();
-    // Make sure we enumerate the index of virtual functions
-    (void)cd->VTableType(Types::Opaque);
     if (mf->IsVirtual() || mf->IsOverride())
     {
 	int                 index = mf->VirtIndex();
@@ -2543,7 +2539,7 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
 	    }
 	    else
 	    {
-		e = new FieldExprAST(CurrentToken().Loc(), expr, elem, type);
+		e = new FieldExprAST(CurrentToken().Loc(), expr, cd->StructElement(elem), type);
 	    }
 	}
 	else
@@ -2563,7 +2559,7 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
 	    }
 	    else
 	    {
-		fc = cd->FieldCount();
+		fc = cd->StructElement(cd->FieldCount());
 		v = cd->Variant();
 	    }
 	}
@@ -2749,7 +2745,7 @@ VariableExprAST* Parser::ParseStaticMember(const TypeDef* def, Types::TypeDecl*&
 		if (fd->IsStatic())
 		{
 		    type = fd->SubType();
-		    std::string name = objname + "$" + field;
+		    std::string name = objname + "$" + fd->Name();
 		    return new VariableExprAST(CurrentToken().Loc(), name, type);
 		}
 		return Error("Expected static variable '" + field + "'");
@@ -4035,12 +4031,8 @@ ExprAST* Parser::ParseCaseExpr()
 void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, int parentCount)
 {
     TRACE();
-    int vtableoffset = 0;
-    if (const auto cd = llvm::dyn_cast<Types::ClassDecl>(fields))
-    {
-	vtableoffset = !!cd->VTableType(Types::Opaque);
-    }
-    for (int i = vtableoffset; i < fields->FieldCount() + vtableoffset; i++)
+    const auto cd = llvm::dyn_cast<Types::ClassDecl>(fields);
+    for (int i = 0; i < fields->FieldCount(); i++)
     {
 	const Types::FieldDecl* f = fields->GetElement(i);
 	Types::TypeDecl*        ty = f->SubType();
@@ -4058,7 +4050,20 @@ void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, i
 	else
 	{
 	    ExprAST* e;
-	    if (llvm::isa<Types::RecordDecl, Types::ClassDecl>(fields))
+	    if (cd)
+	    {
+		std::string objname;
+		cd->GetElement(i, objname);
+		if (f->IsStatic())
+		{
+		    e = new VariableExprAST(CurrentToken().Loc(), objname + "$" + f->Name(), ty);
+		}
+		else
+		{
+		    e = new FieldExprAST(CurrentToken().Loc(), v, cd->StructElement(i), ty);
+		}
+	    }
+	    else if (llvm::isa<Types::RecordDecl>(fields))
 	    {
 		e = new FieldExprAST(CurrentToken().Loc(), v, i, ty);
 	    }
diff --git a/types.cpp b/types.cpp
index 4bbf06c..a879dc0 100644
--- a/types.cpp
+++ b/types.cpp
@@ -322,7 +322,8 @@ namespace Types
 
     llvm::Type* PointerDecl::GetLlvmType() const
     {
-	return llvm::PointerType::getUnqual(baseType->LlvmType());
+	// All pointers are of the same type, and the type pointed to may contain this pointer.
+	return llvm::PointerType::getUnqual(theContext);
     }
 
     llvm::DIType* PointerDecl::GetDIType(llvm::DIBuilder* builder) const
@@ -736,7 +737,7 @@ namespace Types
 	{
 	    if (auto pf = llvm::dyn_cast_or_null<PointerDecl>(f->SubType()))
 	    {
-		if (pf->IsIncomplete() || !HasLlvmType(f))
+		if (pf->IsIncomplete())
 		{
 		    if (!opaqueType)
 		    {
@@ -865,6 +866,7 @@ namespace Types
 	if (baseobj)
 	{
 	    membfuncs = baseobj->membfuncs;
+	    virtfuncs = baseobj->virtfuncs;
 	}
 
 	std::vector<VarDef> self = { VarDef("self", this, VarDef::Flags::Reference) };
@@ -891,6 +893,21 @@ namespace Types
 	    {
 		membfuncs.push_back(i);
 	    }
+	    if (i->IsVirtual() || i->IsOverride())
+	    {
+		size_t index = 0;
+		while (index < virtfuncs.size() &&
+		       !SameName(virtfuncs[index]->Proto()->Name(), i->Proto()->Name()))
+		{
+		    index++;
+		}
+		if (index == virtfuncs.size())
+		{
+		    virtfuncs.push_back(i);
+		}
+		virtfuncs[index] = i;
+		i->VirtIndex(index);
+	    }
 	}
     }
 
@@ -931,20 +948,22 @@ namespace Types
 	return -1;
     }
 
-    MemberFuncDecl* ClassDecl::GetMembFunc(size_t index) const
+    bool ClassDecl::HasVirtFunc(const std::string& nm) const
     {
-	ICE_IF(index >= membfuncs.size(), "Expected index to be in range");
-	return membfuncs[index];
+	for (auto m : virtfuncs)
+	{
+	    if (SameName(m->Proto()->Name(), nm))
+	    {
+		return true;
+	    }
+	}
+	return false;
     }
 
-    size_t ClassDecl::NumVirtFuncs() const
+    MemberFuncDecl* ClassDecl::GetMembFunc(size_t index) const
     {
-	size_t count = 0;
-	for (auto mf : membfuncs)
-	{
-	    count += mf->IsVirtual() || mf->IsOverride();
-	}
-	return count;
+	ICE_IF(index >= membfuncs.size(), "Expected index to be in range");
+	return membfuncs[index];
     }
 
     llvm::Type* ClassDecl::VTableType(Opacity opacity) const
@@ -954,52 +973,20 @@ namespace Types
 	    return vtableType;
 	}
 
-	if (baseobj)
+	if (virtfuncs.empty())
 	{
-	    (void)baseobj->VTableType(opacity);
+	    return 0;
 	}
 
 	std::vector<llvm::Type*> vt;
-	bool                     needed = false;
-	int                      index = 0;
-	for (auto m : membfuncs)
+	if (opacity == FilledIn)
 	{
-	    if (m->IsVirtual())
-	    {
-		if (m->VirtIndex() == -1)
-		{
-		    m->VirtIndex(index);
-		}
-		index++;
-		needed = true;
-	    }
-	    else if (m->IsOverride())
-	    {
-		int elem = (baseobj) ? baseobj->MembFunc(m->Proto()->Name()) : -1;
-		if (elem < 0)
-		{
-		    std::cerr << "Overriding function " + m->Proto()->Name() +
-		                     " that is not a virtual function in the baseclass!";
-		    return 0;
-		}
-		// We need to continue digging here for multi-level functions
-		MemberFuncDecl* mf = baseobj->GetMembFunc(elem);
-		m->VirtIndex(mf->VirtIndex());
-		needed = true;
-		index++;
-	    }
-
-	    if (opacity == FilledIn && (m->IsOverride() || m->IsVirtual()))
+	    for (auto m : virtfuncs)
 	    {
 		FuncPtrDecl* fp = new FuncPtrDecl(m->Proto());
 		vt.push_back(fp->LlvmType());
 	    }
 	}
-	if (!needed)
-	{
-	    return (baseobj) ? baseobj->VTableType(opacity) : 0;
-	}
-
 	if (!vtableType)
 	{
 	    vtableType = llvm::StructType::create(theContext, "vtable_" + Name());
@@ -1019,12 +1006,7 @@ namespace Types
 	int elem = FieldCollection::Element(name);
 	if (elem >= 0)
 	{
-	    elem += b;
-	    if (VTableType(Opaque))
-	    {
-		elem++;
-	    }
-	    return elem;
+	    return elem + b;
 	}
 	return (baseobj) ? baseobj->Element(name) : -1;
     }
@@ -1032,13 +1014,39 @@ namespace Types
     const FieldDecl* ClassDecl::GetElement(unsigned int n, std::string& objname) const
     {
 	unsigned b = baseobj ? baseobj->FieldCount() : 0;
-	if (baseobj && n < b + (baseobj->VTableType(Opaque) ? 1 : 0))
+	if (n < b)
 	{
 	    return baseobj->GetElement(n, objname);
 	}
-	ICE_IF(n > b + fields.size(), "Out of range field");
+	ICE_IF(n >= b + fields.size(), "Out of range field");
 	objname = Name();
-	return fields[n - (b + (VTableType(Opaque) ? 1 : 0))];
+	return fields[n - b];
+    }
+
+    // The place of field n in the llvm struct: static fields are not in there, but the pointer to the vtable is.
+    int ClassDecl::StructElement(int n) const
+    {
+	int elem = 0;
+	for (int i = 0; i < n; i++)
+	{
+	    elem += !GetElement(i)->IsStatic();
+	}
+	return elem + (VTableType(Opaque) && elem >= VTableElement());
+    }
+
+    // The pointer to the vtable comes after the fields of base classes that have none, so that
+    // the struct of the base class is the first part of this one.
+    int ClassDecl::VTableElement() const
+    {
+	if (!baseobj)
+	{
+	    return 0;
+	}
+	if (baseobj->VTableType(Opaque))
+	{
+	    return baseobj->VTableElement();
+	}
+	return baseobj->StructElement(baseobj->FieldCount());
     }
 
     const FieldDecl* ClassDecl::GetElement(unsigned int n) const
@@ -1081,17 +1089,16 @@ namespace Types
     {
 	std::vector<llvm::Type*> fv;
 
-	int vtableoffset = 0;
-	if (VTableType(Opaque))
-	{
-	    vtableoffset = 1;
-	    fv.push_back(llvm::PointerType::getUnqual(vtableType));
-	}
-
+	int vtableElem = VTableType(Opaque) ? VTableElement() : -1;
 	int fc = FieldCount();
 	for (int i = 0; i < fc; i++)
 	{
-	    const FieldDecl* f = GetElement(i + vtableoffset);
+	    const FieldDecl* f = GetElement(i);
+
+	    if (int(fv.size()) == vtableElem)
+	    {
+		fv.push_back(llvm::PointerType::getUnqual(vtableType));
+	    }
 
 	    ICE_IF(llvm::isa<MemberFuncDecl>(f->SubType()), "Should not have member functions");
 
@@ -1099,7 +1106,7 @@ namespace Types
 	    {
 		if (auto pd = llvm::dyn_cast<PointerDecl>(f->SubType()))
 		{
-		    if (pd->IsIncomplete() && !HasLlvmType(pd))
+		    if (pd->IsIncomplete())
 		    {
 			if (!opaqueType)
 			{
@@ -1111,6 +1118,10 @@ namespace Types
 		fv.push_back(f->LlvmType());
 	    }
 	}
+	if (int(fv.size()) == vtableElem)
+	{
+	    fv.push_back(llvm::PointerType::getUnqual(vtableType));
+	}
 	if (variant)
 	{
 	    fv.push_back(variant->LlvmType());
diff --git a/types.h b/types.h
index cb47e89..4a79093 100644
--- a/types.h
+++ b/types.h
@@ -631,9 +631,12 @@ namespace Types
 	size_t           MembFuncCount() const;
 	int              MembFunc(const std::string& nm) const;
 	MemberFuncDecl*  GetMembFunc(size_t index) const;
-	size_t           NumVirtFuncs() const;
+	int              StructElement(int n) const;
+	bool             HasVirtFunc(const std::string& nm) const;
+	const std::vector<MemberFuncDecl*>& VirtFuncs() const { return virtfuncs; }
 	const TypeDecl*  CompatibleType(const TypeDecl* ty) const override;
 	llvm::Type*      VTableType(Opacity opaque) const;
+	int              VTableElement() const;
 	static bool      classof(const TypeDecl* e) { return e->getKind() == TK_Class; }
 	const TypeDecl*  DerivedFrom(const TypeDecl* ty) const;
 
@@ -645,6 +648,7 @@ namespace Types
 	ClassDecl*                   baseobj;
 	VariantDecl*                 variant;
 	std::vector<MemberFuncDecl*> membfuncs;
+	std::vector<MemberFuncDecl*> virtfuncs;
 	mutable llvm::StructType*    vtableType;
     };
 
-- 
2.43.0


From 778e4d43f966fe8ec8c50ad2a8d6637e3783a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 38/57] fix: arrays are only compatible with arrays of the same
 element type and size

---
 types.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types.cpp b/types.cpp
index a879dc0..fe78851 100644
--- a/types.cpp
+++ b/types.cpp
@@ -419,14 +419,15 @@ namespace Types
 	    {
 		for (size_t i = 0; i < ranges.size(); i++)
 		{
-		    if (ranges[i]->Size() != aty->Ranges()[i]->Size())
+		    if (ranges[i]->RangeSize() != aty->Ranges()[i]->RangeSize())
 		    {
 			return 0;
 		    }
 		}
+		return this;
 	    }
 	}
-	return this;
+	return 0;
     }
 
     TypeDecl* ArrayDecl::Clone() const
-- 
2.43.0


From 243ae36996ee216fbc907062f1cfb9d951adee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 39/57] fix: initial values of all variables of a declaration
 and all their components

---
 builtin.cpp |   1 +
 expr.cpp    | 140 ++++++++++++++++++----
 expr.h      |   1 +
 parser.cpp  | 333 ++++++++++++++++++++++++++++++----------------------
 types.h     |   6 +-
 5 files changed, 319 insertions(+), 162 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index b2a36b5..c2692b0 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -931,6 +931,7 @@ namespace Builtin
 	retVal = builder.CreateBitCast(retVal, pd->LlvmType(), "cast");
 	llvm::Value* pA = var->Address();
 
+	StoreInitialValue(pd->SubType(), retVal);
 	StoreVTables(pd->SubType(), retVal);
 	return builder.CreateStore(retVal, pA);
     }
diff --git a/expr.cpp b/expr.cpp
index a47c032..11129f7 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -391,6 +391,90 @@ static llvm::Constant* AddVTables(Types::TypeDecl* ty, llvm::Constant* init)
     return llvm::ConstantStruct::get(llvm::cast<llvm::StructType>(init->getType()), elems);
 }
 
+static bool HasInitialValue(Types::TypeDecl* ty)
+{
+    if (ty->Init())
+    {
+	return true;
+    }
+    if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
+    {
+	return HasInitialValue(ad->SubType());
+    }
+    if (auto fc = llvm::dyn_cast<Types::FieldCollection>(ty))
+    {
+	for (int i = 0; i < fc->FieldCount(); i++)
+	{
+	    const Types::FieldDecl* f = fc->GetElement(i);
+	    if (!f->IsStatic() && HasInitialValue(f->SubType()))
+	    {
+		return true;
+	    }
+	}
+    }
+    return false;
+}
+
+static llvm::Constant* InitialValue(Types::TypeDecl* ty);
+
+// The fields of a record or object that have no value in elems get the initial value of their type
+static llvm::Constant* InitialFields(Types::FieldCollection* fc, std::vector<llvm::Constant*> elems)
+{
+    fc->EnsureSized();
+    auto cd = llvm::dyn_cast<Types::ClassDecl>(fc);
+    auto structTy = llvm::cast<llvm::StructType>(fc->LlvmType());
+    elems.resize(structTy->getNumElements());
+    for (int i = 0; i < fc->FieldCount(); i++)
+    {
+	const Types::FieldDecl* f = fc->GetElement(i);
+	llvm::Constant*         unused = 0;
+	llvm::Constant*&        e = f->IsStatic() ? unused : elems[cd ? cd->StructElement(i) : i];
+	if (!f->IsStatic() && !e)
+	{
+	    e = InitialValue(f->SubType());
+	}
+    }
+    for (size_t i = 0; i < elems.size(); i++)
+    {
+	if (!elems[i])
+	{
+	    elems[i] = llvm::Constant::getNullValue(structTy->getElementType(i));
+	}
+    }
+    return llvm::ConstantStruct::get(structTy, elems);
+}
+
+// The value of a variable of the type that has no initializer of its own
+static llvm::Constant* InitialValue(Types::TypeDecl* ty)
+{
+    if (ExprAST* init = ty->Init())
+    {
+	auto c = llvm::dyn_cast<llvm::Constant>(init->CodeGen());
+	ICE_IF(!c, "Expected intializer to be constant");
+	return c;
+    }
+    if (HasInitialValue(ty))
+    {
+	if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
+	{
+	    auto                         arrTy = llvm::cast<llvm::ArrayType>(ty->LlvmType());
+	    std::vector<llvm::Constant*> elems(arrTy->getNumElements(), InitialValue(ad->SubType()));
+	    return llvm::ConstantArray::get(arrTy, elems);
+	}
+	return InitialFields(llvm::cast<Types::FieldCollection>(ty), {});
+    }
+    return llvm::Constant::getNullValue(ty->LlvmType());
+}
+
+// Store the initial value of a variable of the type, if it has one
+void StoreInitialValue(Types::TypeDecl* ty, llvm::Value* v)
+{
+    if (HasInitialValue(ty))
+    {
+	builder.CreateStore(InitialValue(ty), v);
+    }
+}
+
 // Store pointers to the vtables of all objects in a variable
 void StoreVTables(Types::TypeDecl* ty, llvm::Value* v)
 {
@@ -3431,7 +3515,6 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
 
     ICE_IF(!ty, "Type should have a value");
     llvm::Constant* init;
-    llvm::Constant* nullValue = llvm::Constant::getNullValue(ty);
     if (ExprAST* iv = var.Init())
     {
 	init = llvm::dyn_cast<llvm::Constant>(iv->CodeGen());
@@ -3439,7 +3522,7 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     }
     else
     {
-	init = nullValue;
+	init = InitialValue(var.Type());
     }
     if (HasVTables(var.Type()))
     {
@@ -3484,6 +3567,10 @@ llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 	llvm::Value* init = iv->CodeGen();
 	builder.CreateStore(init, v);
     }
+    else
+    {
+	StoreInitialValue(var.Type(), v);
+    }
     StoreVTables(var.Type(), v);
     if (debugInfo)
     {
@@ -4194,6 +4281,10 @@ llvm::Value* TypeCastAST::CodeGen()
     {
 	return builder.CreateLoad(type->LlvmType(), Address(), "set");
     }
+    if (llvm::isa<Types::ArrayDecl>(type) && type->LlvmType() == current->LlvmType())
+    {
+	return expr->CodeGen();
+    }
 #if !NDEBUG
     dump();
 #endif
@@ -4609,24 +4700,24 @@ llvm::Value* InitArrayAST::CodeGen()
 {
     auto aty = llvm::dyn_cast<Types::ArrayDecl>(type);
     ICE_IF(!aty, "Expected array type here");
-    ICE_IF(aty->Ranges().size() != 1, "Expect only 1D arrays right now");
     Types::Range*                range = aty->Ranges()[0]->GetRange();
     size_t                       size = range->Size();
-    std::vector<llvm::Constant*> initArr(size);
+    std::vector<llvm::Constant*> values(size);
     llvm::Constant*              otherwise = 0;
-    for (auto v : values)
+    for (auto v : this->values)
     {
 	auto c = llvm::dyn_cast<llvm::Constant>(v.Value()->CodeGen());
+	ICE_IF(!c, "Expected intializer to be constant");
 	switch (v.Kind())
 	{
 	case ArrayInit::InitKind::Range:
 	    for (int64_t i = v.Start(); i <= v.End(); i++)
 	    {
-		initArr[i - range->Start()] = c;
+		values[i - range->Start()] = c;
 	    }
 	    break;
 	case ArrayInit::InitKind::Single:
-	    initArr[v.Start() - range->Start()] = c;
+	    values[v.Start() - range->Start()] = c;
 	    break;
 	case ArrayInit::InitKind::Otherwise:
 	    ICE_IF(otherwise, "Expected only one otherwise initializer");
@@ -4636,19 +4727,26 @@ llvm::Value* InitArrayAST::CodeGen()
 	    ICE("Unknown initializer kind");
 	}
     }
-    for (auto& i : initArr)
+    // With more than one dimension, each value is that of an array with the remaining dimensions.
+    auto                         arrTy = llvm::cast<llvm::ArrayType>(type->LlvmType());
+    size_t                       count = arrTy->getNumElements() / size;
+    std::vector<llvm::Constant*> elems;
+    for (auto v : values)
     {
-	if (!i)
+	v = v ? v : otherwise;
+	for (size_t i = 0; i < count; i++)
 	{
-	    i = otherwise;
+	    if (!v)
+	    {
+		elems.push_back(InitialValue(aty->SubType()));
+	    }
+	    else
+	    {
+		elems.push_back(aty->Ranges().size() == 1 ? v : v->getAggregateElement(i));
+	    }
 	}
     }
-
-    auto arrty = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
-
-    llvm::Constant* init = llvm::ConstantArray::get(arrty,
-                                                    llvm::ArrayRef<llvm::Constant*>(initArr.data(), size));
-    return init;
+    return llvm::ConstantArray::get(arrTy, elems);
 }
 
 void InitArrayAST::DoDump() const
@@ -4679,20 +4777,18 @@ llvm::Value* InitRecordAST::CodeGen()
 {
     auto fty = llvm::dyn_cast<Types::FieldCollection>(type);
     ICE_IF(!fty, "Expected field collection type here");
-    std::vector<llvm::Constant*> initArr(fty->FieldCount());
+    std::vector<llvm::Constant*> elems(fty->FieldCount());
 
     for (auto v : values)
     {
 	auto c = llvm::dyn_cast<llvm::Constant>(v.Value()->CodeGen());
+	ICE_IF(!c, "Expected intializer to be constant");
 	for (auto e : v.Elements())
 	{
-	    initArr[e] = c;
+	    elems[e] = c;
 	}
     }
-    auto ty = llvm::dyn_cast<llvm::StructType>(type->LlvmType());
-
-    llvm::Constant* init = llvm::ConstantStruct::get(ty, initArr);
-    return init;
+    return InitialFields(fty, elems);
 }
 
 void InitRecordAST::DoDump() const
diff --git a/expr.h b/expr.h
index 095dd4d..2a9ce83 100644
--- a/expr.h
+++ b/expr.h
@@ -1164,6 +1164,7 @@ llvm::FunctionCallee GetFunction(llvm::Type* resTy, const std::vector<llvm::Type
 ExprAST*             Recast(ExprAST* a, const Types::TypeDecl* ty);
 size_t               AlignOfType(llvm::Type* ty);
 llvm::AllocaInst*    CreateTempAlloca(Types::TypeDecl* ty);
+void                 StoreInitialValue(Types::TypeDecl* ty, llvm::Value* v);
 void                 StoreVTables(Types::TypeDecl* ty, llvm::Value* v);
 llvm::Value*         MakeStrCompare(Token::TokenType oper, llvm::Value* v);
 llvm::Value*         CallStrFunc(const std::string& name, ExprAST* lhs, ExprAST* rhs, Types::TypeDecl* resTy,
diff --git a/parser.cpp b/parser.cpp
index e1084d2..a39c36c 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -19,6 +19,7 @@
 #include <cmath>
 #include <iostream>
 #include <limits>
+#include <set>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -497,6 +498,10 @@ ExprAST* Parser::ParseDefaultExpr()
     if (ty)
     {
 	expr = ty->Init();
+	if (!expr)
+	{
+	    return Error("Type has no default value");
+	}
     }
     if (!Expect(Token::RightParen, ExpectConsume))
     {
@@ -2803,7 +2808,7 @@ ExprAST* Parser::ParseVariableExpr(const NamedObject* def)
     return new VariableExprAST(CurrentToken().Loc(), def->Name(), type);
 }
 
-static ExprAST* CreateSetExprFromSetConst(const Constants::SetConstDecl* set)
+static ExprAST* CreateSetExprFromSetConst(const Constants::SetConstDecl* set, Types::TypeDecl* type)
 {
     TRACE();
     std::vector<ExprAST*> setValues;
@@ -2825,7 +2830,7 @@ static ExprAST* CreateSetExprFromSetConst(const Constants::SetConstDecl* set)
 	ICE_IF(!e, "Expected to have an ExprAST now!");
 	setValues.push_back(e);
     }
-    return new SetExprAST(set->Loc(), setValues, set->Type());
+    return new SetExprAST(set->Loc(), setValues, type);
 }
 
 ExprAST* Parser::ParseCallOrVariableExpr(const Token& token)
@@ -2844,7 +2849,7 @@ ExprAST* Parser::ParseCallOrVariableExpr(const Token& token)
 	}
 	if (auto sd = llvm::dyn_cast<Constants::SetConstDecl>(cd))
 	{
-	    return CreateSetExprFromSetConst(sd);
+	    return CreateSetExprFromSetConst(sd, sd->Type());
 	}
     }
     if (const EnumDef* enumDef = llvm::dyn_cast_or_null<EnumDef>(def))
@@ -3007,37 +3012,112 @@ ExprAST* Parser::ParseSetExpr(Types::TypeDecl* setType)
     return 0;
 }
 
+// Check that a constant can be a value of the ordinal type
+static bool IsValueOf(Types::TypeDecl* ty, const Constants::ConstDecl* c)
+{
+    if (!llvm::isa<Constants::IntConstDecl, Constants::EnumConstDecl, Constants::CharConstDecl,
+                   Constants::BoolConstDecl>(c) ||
+        !ty->CompatibleType(c->Type()))
+    {
+	return false;
+    }
+    if (llvm::isa<Types::Int64Decl>(ty))
+    {
+	return true;
+    }
+    Types::Range* range = ty->GetRange();
+    int64_t       value = Constants::ToInt(c);
+    return range->Start() <= value && value <= range->End();
+}
+
+// Check that all the elements of a constant set can be elements of a set of the type
+static bool IsValueOf(Types::SetDecl* ty, const Constants::SetConstDecl* set)
+{
+    Types::Range* range = ty->GetRange();
+    for (auto v : set->Value())
+    {
+	if (!ty->SubType()->CompatibleType(v->Type()))
+	{
+	    return false;
+	}
+	int64_t low = 0;
+	int64_t high = 0;
+	if (auto rc = llvm::dyn_cast<Constants::RangeConstDecl>(v))
+	{
+	    low = rc->Value().Start();
+	    high = rc->Value().End();
+	}
+	else
+	{
+	    low = high = Constants::ToInt(v);
+	}
+	if (low <= high && (low < range->Start() || high > range->End()))
+	{
+	    return false;
+	}
+    }
+    return true;
+}
+
 ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* c)
 {
-    if (IsIntegral(c->Type()))
+    if (llvm::isa<Types::RealDecl>(ty))
     {
-	if (llvm::isa<Types::RealDecl>(ty))
+	if (auto ci = llvm::dyn_cast<Constants::IntConstDecl>(c))
 	{
-	    if (auto ci = llvm::dyn_cast<Constants::IntConstDecl>(c))
-	    {
-		return new RealExprAST(loc, ci->Value());
-	    }
-	    return Error("Real constant initializer from incompatible type");
+	    return new RealExprAST(loc, ci->Value());
+	}
+	if (auto rc = llvm::dyn_cast<Constants::RealConstDecl>(c))
+	{
+	    return new RealExprAST(loc, rc->Value());
 	}
-	return new IntegerExprAST(loc, Constants::ToInt(c), c->Type());
     }
-    if (auto rc = llvm::dyn_cast<Constants::RealConstDecl>(c))
+    else if (IsIntegral(ty))
     {
-	if (!llvm::isa<Types::RealDecl>(ty))
+	if (IsValueOf(ty, c))
 	{
-	    return Error("Real constant initializer into incompatible type");
+	    return new IntegerExprAST(loc, Constants::ToInt(c), ty);
 	}
-	return new RealExprAST(loc, rc->Value());
     }
-    if (auto sc = llvm::dyn_cast<Constants::StringConstDecl>(c))
+    else if (auto st = llvm::dyn_cast<Types::SetDecl>(ty))
     {
-	return new StringExprAST(loc, sc->Value(), sc->Type());
+	auto set = llvm::dyn_cast<Constants::SetConstDecl>(c);
+	if (set && IsValueOf(st, set))
+	{
+	    return CreateSetExprFromSetConst(set, ty);
+	}
     }
-    if (auto cd = llvm::dyn_cast<Constants::CompoundConstDecl>(c))
+    else if (auto cd = llvm::dyn_cast<Constants::CompoundConstDecl>(c))
     {
-	return cd->Value();
+	if (*ty == *cd->Type())
+	{
+	    return cd->Value();
+	}
     }
-    return Error("Unexpected constant type");
+    else if (llvm::isa<Types::ArrayDecl>(ty) && IsStringLike(ty))
+    {
+	std::string value;
+	if (auto sc = llvm::dyn_cast<Constants::StringConstDecl>(c))
+	{
+	    value = sc->Value();
+	}
+	else if (auto cc = llvm::dyn_cast<Constants::CharConstDecl>(c))
+	{
+	    value = std::string(1, cc->Value());
+	}
+	else
+	{
+	    return Error("String initializer from incompatible type");
+	}
+	auto   sd = llvm::dyn_cast<Types::StringDecl>(ty);
+	size_t size = sd ? sd->Capacity() : ty->Size();
+	if (value.size() > size)
+	{
+	    return Error("String initializer is too long");
+	}
+	return new StringExprAST(loc, value, ty);
+    }
+    return Error("Initializer is not a value of the type");
 }
 
 class CCArrayInitList : public ListConsumer
@@ -3047,68 +3127,76 @@ public:
         : ListConsumer{ { Token::Comma, Token::Semicolon, { Token::Otherwise, NoExpectConsume } },
 	                { Token::RightSquare },
 	                ListConsumer::AllowEmpty::Yes }
-        , type(ty)
+        , elemType(ty->SubType())
+        , indexType(ty->Ranges()[0])
     {
+	if (ty->Ranges().size() > 1)
+	{
+	    std::vector<Types::RangeBaseDecl*> ranges(ty->Ranges().begin() + 1, ty->Ranges().end());
+	    elemType = new Types::ArrayDecl(elemType, ranges);
+	}
     }
     bool Consume(Parser& parser) override
     {
+	std::vector<Types::Range> indices;
 	if (parser.AcceptToken(Token::Otherwise))
 	{
-	    ExprAST* e = parser.ParseInitValue(type->SubType());
-	    list.push_back({ e });
-	    return true;
+	    if (ExprAST* e = parser.ParseInitValue(elemType))
+	    {
+		list.push_back({ e });
+		return true;
+	    }
+	    return false;
 	}
-	else if (const Constants::ConstDecl* cd = parser.ParseConstExpr(
-	             { Token::Comma, Token::Colon, Token::DotDot, Token::Otherwise }))
+	do
 	{
-	    if (!llvm::isa<Constants::IntConstDecl, Constants::EnumConstDecl, Constants::CharConstDecl,
-	                   Constants::BoolConstDecl>(cd))
+	    int64_t start = 0;
+	    int64_t end = 0;
+	    if (!ParseIndex(parser, start))
 	    {
-		parser.Error("Initializer index should be an integral type");
 		return false;
 	    }
-	    int  value = Constants::ToInt(cd);
-	    int  end = 0;
-	    bool hasEnd = false;
-	    if (parser.AcceptToken(Token::DotDot))
-	    {
-		cd = parser.ParseConstExpr({ Token::Colon });
-		if (!cd)
-		{
-		    return false;
-		}
-		if (!llvm::isa<Constants::IntConstDecl, Constants::EnumConstDecl, Constants::CharConstDecl,
-		               Constants::BoolConstDecl>(cd))
-		{
-		    parser.Error("Initializer index should be an integral type");
-		    return false;
-		}
-		end = Constants::ToInt(cd);
-		hasEnd = true;
-	    }
-	    parser.Expect(Token::Colon, ExpectConsume);
-	    ExprAST* e = parser.ParseInitValue(type->SubType());
-	    if (!e)
+	    end = start;
+	    if (parser.AcceptToken(Token::DotDot) && !ParseIndex(parser, end))
 	    {
 		return false;
 	    }
-	    if (hasEnd)
-	    {
-		list.push_back({ value, end, e });
-	    }
-	    else
-	    {
-		list.push_back({ value, e });
-	    }
-	    return true;
+	    indices.push_back({ start, end });
+	} while (parser.AcceptToken(Token::Comma));
+
+	ExprAST* e = 0;
+	if (!parser.Expect(Token::Colon, ExpectConsume) || !(e = parser.ParseInitValue(elemType)))
+	{
+	    return false;
 	}
-	return false;
+	for (auto i : indices)
+	{
+	    list.push_back({ i.Start(), i.End(), e });
+	}
+	return true;
     }
     const std::vector<ArrayInit>& Values() { return list; }
 
 private:
+    bool ParseIndex(Parser& parser, int64_t& value)
+    {
+	const Constants::ConstDecl* cd = parser.ParseConstExpr(
+	    { Token::Comma, Token::Colon, Token::DotDot, Token::Otherwise });
+	if (!cd)
+	{
+	    return false;
+	}
+	if (!IsValueOf(indexType, cd))
+	{
+	    return parser.ErrorT(bool, "Initializer index should be a value of the index type of the array");
+	}
+	value = Constants::ToInt(cd);
+	return true;
+    }
+
     std::vector<ArrayInit> list;
-    Types::ArrayDecl*      type;
+    Types::TypeDecl*       elemType;
+    Types::RangeBaseDecl*  indexType;
 };
 
 class CCRecordInitList : public ListConsumer
@@ -3122,7 +3210,8 @@ public:
 
     bool Consume(Parser& parser) override
     {
-	std::vector<int> elems;
+	std::vector<int>        elems;
+	const Types::FieldDecl* fty = nullptr;
 	do
 	{
 	    std::string fieldName = parser.GetIdentifier(ExpectConsume);
@@ -3130,42 +3219,38 @@ public:
 	    {
 		return false;
 	    }
-	    int                     elem = type->Element(fieldName);
-	    const Types::FieldDecl* fty = nullptr;
-	    if (elem >= 0)
+	    int elem = type->Element(fieldName);
+	    if (elem < 0)
 	    {
-		if (fty)
-		{
-		    if (fty != type->GetElement(elem))
-		    {
-			return parser.ErrorT(bool, "Should be same types for field initializers");
-		    }
-		}
-		else
-		{
-		    fty = type->GetElement(elem);
-		}
-		elems.push_back(elem);
+		return parser.ErrorT(bool, "Unknown record field: " + fieldName);
 	    }
-	    else
+	    if (!used.insert(elem).second)
 	    {
-		return parser.ErrorT(bool, "Unknown record field: " + fieldName);
+		return parser.ErrorT(bool, "Duplicate field initializer: " + fieldName);
 	    }
-	    if (!parser.AcceptToken(Token::Comma))
+	    if (fty && fty->SubType() != type->GetElement(elem)->SubType())
 	    {
-		parser.Expect(Token::Colon, ExpectConsume);
-		if (ExprAST* e = parser.ParseInitValue(fty->SubType()))
-		{
-		    list.push_back({ elems, e });
-		    return true;
-		}
+		return parser.ErrorT(bool, "Should be same types for field initializers");
 	    }
-	} while (true);
+	    fty = type->GetElement(elem);
+	    elems.push_back(elem);
+	} while (parser.AcceptToken(Token::Comma));
+
+	if (parser.Expect(Token::Colon, ExpectConsume))
+	{
+	    if (ExprAST* e = parser.ParseInitValue(fty->SubType()))
+	    {
+		list.push_back({ elems, e });
+		return true;
+	    }
+	}
+	return false;
     }
     const std::vector<RecordInit>& Values() { return list; }
 
 private:
     std::vector<RecordInit> list;
+    std::set<int>           used;
     Types::FieldCollection* type;
 };
 
@@ -3174,14 +3259,6 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
     TRACE();
 
     const Location loc = CurrentToken().Loc();
-    if (llvm::isa<Types::SetDecl>(ty))
-    {
-	if (ExprAST* e = ParseSetExpr(ty))
-	{
-	    return new InitValueAST(loc, ty, { e });
-	}
-	return 0;
-    }
     if (llvm::isa<Types::PointerDecl>(ty))
     {
 	if (AcceptToken(Token::Nil))
@@ -3190,56 +3267,34 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 	}
 	return Error("Expected NIL initallzier for pointer");
     }
-    if (auto arrTy = llvm::dyn_cast<Types::ArrayDecl>(ty))
+    auto arrTy = llvm::dyn_cast<Types::ArrayDecl>(ty);
+    if (arrTy && !llvm::isa<Types::StringDecl>(ty) && AcceptToken(Token::LeftSquare))
     {
-	std::string name = GetIdentifier(NoExpectConsume);
-	if (!name.empty())
-	{
-	    if (const Constants::ConstDecl* cd = GetConstDecl(name))
-	    {
-		const Types::TypeDecl* tt = ty->AssignableType(cd->Type());
-		if (!tt)
-		{
-		    return Error("Incompatible type");
-		}
-		NextToken();
-		return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
-	    }
-	    return Error("Unexpected identifier");
-	}
-	if (AcceptToken(Token::LeftSquare))
+	CCArrayInitList cca(arrTy);
+	if (ParseSeparatedList(*this, cca))
 	{
-	    CCArrayInitList cca(arrTy);
-	    if (ParseSeparatedList(*this, cca))
-	    {
-		return new InitArrayAST(loc, ty, cca.Values());
-	    }
-	    return 0;
-	}
-	else if (!IsStringLike(ty))
-	{
-	    return 0;
+	    return new InitArrayAST(loc, ty, cca.Values());
 	}
+	return 0;
     }
-    if (llvm::isa<Types::RecordDecl>(ty))
+    if (llvm::isa<Types::RecordDecl>(ty) && AcceptToken(Token::LeftSquare))
     {
-	if (AcceptToken(Token::LeftSquare))
+	CCRecordInitList ccr(ty);
+	if (ParseSeparatedList(*this, ccr))
 	{
-	    CCRecordInitList ccr(ty);
-	    if (ParseSeparatedList(*this, ccr))
-	    {
-		return new InitRecordAST(loc, ty, ccr.Values());
-	    }
-	    return 0;
+	    return new InitRecordAST(loc, ty, ccr.Values());
 	}
+	return 0;
     }
-    if (const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::Semicolon, Token::Colon,
-                                                          Token::RightSquare, Token::Otherwise,
-                                                          Token::RightParen }))
+    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::Semicolon, Token::Colon,
+                                                      Token::RightSquare, Token::Otherwise,
+                                                      Token::RightParen, Token::End });
+    if (!cd)
     {
-	return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
+	return 0;
     }
-    return 0;
+    ExprAST* e = ConstDeclToExpr(loc, ty, cd);
+    return e ? new InitValueAST(loc, ty, { e }) : 0;
 }
 
 // Code is generated from the names of variables, so a variable that hides another one where
@@ -3271,6 +3326,7 @@ VarDeclAST* Parser::ParseVarDecls()
 	{
 	    if (Types::TypeDecl* type = ParseType("", NoForwarding))
 	    {
+		size_t first = varList.size();
 		for (auto n : ccv.Names())
 		{
 		    VarDef v(VariableName(n), type);
@@ -3289,11 +3345,10 @@ VarDeclAST* Parser::ParseVarDecls()
 			return 0;
 		    }
 		}
-		else
+		for (size_t i = first; i < varList.size(); i++)
 		{
-		    init = type->Init();
+		    varList[i].SetInit(init);
 		}
-		varList.back().SetInit(init);
 		good = Expect(Token::Semicolon, ExpectConsume);
 	    }
 	}
diff --git a/types.h b/types.h
index 4a79093..ff76fcc 100644
--- a/types.h
+++ b/types.h
@@ -283,6 +283,7 @@ namespace Types
 	size_t      RangeSize() const override { return range->Size(); }
 	TypeKind    Type() const override { return baseType->Type(); }
 	Range*      GetRange() const override { return range; }
+	TypeDecl*   Clone() const override { return new RangeDecl(range, baseType); }
 
     private:
 	Range* range;
@@ -416,8 +417,9 @@ namespace Types
     public:
 	BoolDecl() : EnumDecl(TK_Boolean, std::vector<std::string>{ "false", "true" }, this) {}
 	void        DoDump() const override;
-	bool        SameAs(const TypeDecl* ty) const override { return ty == this; }
+	bool        SameAs(const TypeDecl* ty) const override { return ty->getKind() == TK_Boolean; }
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_Boolean; }
+	TypeDecl*   Clone() const override { return new BoolDecl; }
 
     protected:
 	llvm::Type*   GetLlvmType() const override;
@@ -720,6 +722,7 @@ namespace Types
 	void            UpdateSubtype(TypeDecl* ty);
 	bool            SameAs(const TypeDecl* ty) const override;
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
+	TypeDecl*       Clone() const override { return new SetDecl(kind, range, baseType); }
 
     protected:
 	llvm::Type*   GetLlvmType() const override;
@@ -741,6 +744,7 @@ namespace Types
 	void            DoDump() const override;
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
 	int             Capacity() const { return Ranges()[0]->GetRange()->Size() - 2; }
+	TypeDecl*       Clone() const override { return new StringDecl(Capacity()); }
     };
 
     class ComplexDecl : public RecordDecl
-- 
2.43.0


From b702c3ec6368c7ca636cfadb2c6d8c8e9c47aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 40/57] fix: assignments to elements check the array and not
 the index for being protected

---
 expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 11129f7..7fbddc2 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -706,11 +706,11 @@ llvm::Value* ArrayExprAST::Address()
 
 void ArrayExprAST::accept(ASTVisitor& v)
 {
+    expr->accept(v);
     for (auto i : indices)
     {
 	i->accept(v);
     }
-    expr->accept(v);
     v.visit(this);
 }
 
@@ -738,8 +738,8 @@ llvm::Value* DynArrayExprAST::Address()
 
 void DynArrayExprAST::accept(ASTVisitor& v)
 {
-    index->accept(v);
     expr->accept(v);
+    index->accept(v);
     v.visit(this);
 }
 
-- 
2.43.0


From f9ab345519aad5ad0472db5795259535193dc38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 41/57] fix: conformant array parameters as arguments, with
 shared bounds and structured elements

---
 expr.cpp      | 68 +++++++++++++++++++++++++++++++++++++++++++++------
 parser.cpp    | 33 +++++++++++++++++++------
 semantics.cpp | 56 ++++++++++++++++++++++++++++++++++++++++++
 types.cpp     |  7 ++++++
 4 files changed, 148 insertions(+), 16 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 7fbddc2..2ef462e 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1812,6 +1812,31 @@ void CallExprAST::DoDump() const
     std::cerr << ")";
 }
 
+// Conformant array parameter, not slice of an array
+static bool IsConformantArray(const ExprAST* e)
+{
+    return llvm::isa<Types::DynArrayDecl>(e->Type()) && !llvm::isa<ArraySliceAST>(e);
+}
+
+static llvm::Value* LoadConformantData(Types::DynArrayDecl* ty, llvm::Value* v)
+{
+    llvm::Type*  dynTy = ty->LlvmType();
+    llvm::Type*  ptrTy = llvm::PointerType::getUnqual(ty->SubType()->LlvmType());
+    llvm::Value* ptr = builder.CreateGEP(dynTy, v, { MakeIntegerConstant(0), MakeIntegerConstant(0) });
+    return builder.CreateLoad(ptrTy, ptr, "ptrLoad");
+}
+
+static llvm::Value* ConformantLength(Types::DynArrayDecl* ty, llvm::Value* v)
+{
+    llvm::Type*  dynTy = ty->LlvmType();
+    llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    llvm::Value* lPtr = builder.CreateGEP(dynTy, v, { MakeIntegerConstant(0), MakeIntegerConstant(1) });
+    llvm::Value* hPtr = builder.CreateGEP(dynTy, v, { MakeIntegerConstant(0), MakeIntegerConstant(2) });
+    llvm::Value* low = builder.CreateLoad(intTy, lPtr, "low");
+    llvm::Value* high = builder.CreateLoad(intTy, hPtr, "high");
+    return builder.CreateAdd(builder.CreateSub(high, low, "range"), MakeIntegerConstant(1), "length");
+}
+
 static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args,
                                                const std::vector<VarDef>&   vdef)
 {
@@ -1829,7 +1854,7 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 	else
 	{
 	    auto vi = llvm::dyn_cast<AddressableAST>(i);
-	    if (vdef[index].IsRef())
+	    if (vdef[index].IsRef() || IsConformantArray(i))
 	    {
 		ICE_IF(!vi, "This should be an addressable value");
 		v = vi->Address();
@@ -1874,7 +1899,7 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 	    }
 	}
 	ICE_IF(!v, "Expect argument here");
-	if (llvm::isa<Types::DynArrayDecl>(vdef[index].Type()))
+	if (llvm::isa<Types::DynArrayDecl>(vdef[index].Type()) && !IsConformantArray(i))
 	{
 	    auto        aty = llvm::dyn_cast<Types::ArrayDecl>(i->Type());
 	    llvm::Type* elemTy = aty->SubType()->LlvmType();
@@ -1891,8 +1916,10 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 	    llvm::Value*    arrStart = builder.CreateGEP(ptrTy, v, zero);
 	    builder.CreateStore(arrStart, arrPtr);
 	    auto         r = llvm::dyn_cast<Types::RangeDecl>(aty->Ranges()[0]);
-	    llvm::Value* low = MakeIntegerConstant(r->Start());
-	    llvm::Value* high = MakeIntegerConstant(r->End());
+	    // The characters of a string constant are numbered from 1
+	    int          offset = llvm::isa<StringExprAST>(i) ? 1 - r->Start() : 0;
+	    llvm::Value* low = MakeIntegerConstant(r->Start() + offset);
+	    llvm::Value* high = MakeIntegerConstant(r->End() + offset);
 	    llvm::Value* lPtr = builder.CreateGEP(dynTy, x, { zero, one });
 	    llvm::Value* hPtr = builder.CreateGEP(dynTy, x, { zero, two });
 	    builder.CreateStore(low, lPtr);
@@ -2150,6 +2177,7 @@ void PrototypeAST::CreateArgumentAlloca()
 	// Now "done" with this argument, so skip to next.
 	ai++;
     }
+    std::vector<Types::DynRangeDecl*> rangesDone;
     for (unsigned idx = offset; idx < args.size(); idx++, ai++)
     {
 	llvm::Value* a;
@@ -2166,13 +2194,29 @@ void PrototypeAST::CreateArgumentAlloca()
 		llvm::Value* high = builder.CreateGEP(
 		    dynTy, &*ai, { MakeIntegerConstant(0), MakeIntegerConstant(2) }, dr->HighName());
 
-		if (!variables.Add(dr->LowName(), low))
+		if (!llvm::is_contained(rangesDone, dr))
 		{
-		    Error(this, "Duplicate Variable name");
+		    if (!variables.Add(dr->LowName(), low))
+		    {
+			Error(this, "Duplicate Variable name");
+		    }
+		    if (!variables.Add(dr->HighName(), high))
+		    {
+			Error(this, "Duplicate Variable name");
+		    }
+		    rangesDone.push_back(dr);
 		}
-		if (!variables.Add(dr->HighName(), high))
+		if (!args[idx].IsRef())
 		{
-		    Error(this, "Duplicate Variable name");
+		    // Make a copy of the data, as the size isn't known when the argument is passed
+		    llvm::Value* num = builder.CreateZExt(ConformantLength(dty, a),
+		                                          Types::Get<Types::Int64Decl>()->LlvmType());
+		    llvm::Value* copy = builder.CreateAlloca(dty->SubType()->LlvmType(), num, "copy");
+		    llvm::Value* size = builder.CreateMul(num, llvm::ConstantInt::get(num->getType(), dty->SubType()->Size()));
+		    builder.CreateMemCpy(copy, llvm::Align(1), LoadConformantData(dty, a), llvm::Align(1),
+		                         size);
+		    builder.CreateStore(
+		        copy, builder.CreateGEP(dynTy, a, { MakeIntegerConstant(0), MakeIntegerConstant(0) }));
 		}
 	    }
 	}
@@ -3273,6 +3317,10 @@ llvm::Value* WriteAST::CodeGen()
 		    auto a = llvm::dyn_cast<AddressableAST>(arg.expr);
 		    ICE_IF(!a, "Expected addressable value");
 		    v = a->Address();
+		    if (IsConformantArray(a))
+		    {
+			v = LoadConformantData(llvm::dyn_cast<Types::DynArrayDecl>(type), v);
+		    }
 		    v = builder.CreateGEP(charTy, v, MakeIntegerConstant(0), "str_addr");
 		}
 		argsV.push_back(v);
@@ -3280,6 +3328,10 @@ llvm::Value* WriteAST::CodeGen()
 		{
 		    v = slice->Size();
 		}
+		else if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(type))
+		{
+		    v = ConformantLength(dty, llvm::dyn_cast<AddressableAST>(arg.expr)->Address());
+		}
 		else
 		{
 		    v = MakeIntegerConstant(type->Size());
diff --git a/parser.cpp b/parser.cpp
index a39c36c..aba3e19 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1531,8 +1531,20 @@ Types::TypeDecl* Parser::ParseArrayDecl(Types::Schema* schema)
 	{
 	    if (Types::TypeDecl* ty = ParseType("", NoForwarding))
 	    {
+		if (llvm::isa<Types::DynArrayDecl>(ty))
+		{
+		    return Error("Only the outermost dimension of an array can have dynamic bounds");
+		}
 		if (dr)
 		{
+		    if (!rv.empty())
+		    {
+			return Error("Only one dimension of an array can have dynamic bounds");
+		    }
+		    if (type->Size() > Types::Get<Types::IntegerDecl>()->Size())
+		    {
+			return Error("Bounds of this type are not supported");
+		    }
 		    return new Types::DynArrayDecl(ty, dr);
 		}
 		// TODO: Check that rv is schemarange?
@@ -2342,12 +2354,10 @@ ExprAST* Parser::ParseArrayExpr(ExprAST* expr, Types::TypeDecl*& type)
 	RangeExprAST* range;
 	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(type))
 	{
-	    if (indices.size() != 1)
-	    {
-		return Error("Too many indices");
-	    }
-
-	    return new DynArrayExprAST(CurrentToken().Loc(), expr, indices[0], dty->Range(), dty->SubType());
+	    expr = new DynArrayExprAST(CurrentToken().Loc(), expr, indices[0], dty->Range(), dty->SubType());
+	    type = dty->SubType();
+	    taken++;
+	    indices.erase(indices.begin(), indices.begin() + 1);
 	}
 	else
 	{
@@ -3751,6 +3761,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 	nameStack.Add(resName, new VarDef(proto->ResName(), proto->Type()));
     }
 
+    std::vector<Types::DynRangeDecl*> rangesDone;
     for (auto& v : proto->Args())
     {
 	std::string argName = v.Name();
@@ -3764,12 +3775,18 @@ FunctionAST* Parser::ParseDefinition(int level)
 	    Types::DynRangeDecl* dr = dty->Range();
 	    std::string lowName = dr->LowName();
 	    std::string highName = dr->HighName();
+	    // Several parameters of the same declaration have the same bounds
+	    if (llvm::is_contained(rangesDone, dr))
+	    {
+		continue;
+	    }
+	    rangesDone.push_back(dr);
 	    dr->SetNames(VariableName(lowName), VariableName(highName));
-	    if (!nameStack.Add(lowName, new VarDef(dr->LowName(), dr->SubType())))
+	    if (!nameStack.Add(lowName, new VarDef(dr->LowName(), dr->SubType(), VarDef::Flags::Protected)))
 	    {
 		return Error("Duplicate name '" + lowName + "'.");
 	    }
-	    if (!nameStack.Add(highName, new VarDef(dr->HighName(), dr->SubType())))
+	    if (!nameStack.Add(highName, new VarDef(dr->HighName(), dr->SubType(), VarDef::Flags::Protected)))
 	    {
 		return Error("Duplicate name '" + highName + "'.");
 	    }
diff --git a/semantics.cpp b/semantics.cpp
index 568b8b7..42379d1 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -703,6 +703,56 @@ void TypeCheckVisitor::Check<BuiltinExprAST>(BuiltinExprAST* b)
     }
 }
 
+static const Types::TypeDecl* BaseTypeOf(const Types::TypeDecl* ty)
+{
+    while (auto r = llvm::dyn_cast<Types::RangeBaseDecl>(ty))
+    {
+	ty = r->SubType();
+    }
+    return ty;
+}
+
+// Range of the index of an argument for a conformant array parameter
+static Types::RangeBaseDecl* IndexRangeOf(ExprAST* a)
+{
+    if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(a->Type()))
+    {
+	return dty->Range();
+    }
+    if (auto aty = llvm::dyn_cast<Types::ArrayDecl>(a->Type()))
+    {
+	return aty->Ranges()[0];
+    }
+    return 0;
+}
+
+static bool IsConformable(Types::DynRangeDecl* dr, ExprAST* a)
+{
+    Types::RangeBaseDecl* r = IndexRangeOf(a);
+    if (!r || BaseTypeOf(r) != BaseTypeOf(dr))
+    {
+	return false;
+    }
+    if (llvm::isa<Types::RangeDecl>(dr->SubType()) && !llvm::isa<Types::DynRangeDecl>(r))
+    {
+	Types::Range* lim = dr->SubType()->GetRange();
+	Types::Range* rr = r->GetRange();
+	return lim->Start() <= rr->Start() && rr->End() <= lim->End();
+    }
+    return true;
+}
+
+static bool SameBounds(ExprAST* a, ExprAST* b)
+{
+    Types::RangeBaseDecl* ra = IndexRangeOf(a);
+    Types::RangeBaseDecl* rb = IndexRangeOf(b);
+    if (llvm::isa<Types::DynRangeDecl>(ra) || llvm::isa<Types::DynRangeDecl>(rb))
+    {
+	return ra == rb;
+    }
+    return ra->GetRange()->Start() == rb->GetRange()->Start() && ra->GetRange()->End() == rb->GetRange()->End();
+}
+
 template<>
 void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 {
@@ -726,6 +776,12 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 	    {
 		Error(c, "Expect variable for 'var' parameter");
 	    }
+	    else if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(parg[idx].Type()))
+	    {
+		// Several arguments for one bounds declaration must have the same bounds
+		bad = !IsConformable(dty->Range(), a) ||
+		      (idx > 0 && parg[idx - 1].Type() == dty && !SameBounds(c->args[idx - 1], a));
+	    }
 	    else
 	    {
 		a = Recast(a, ty);
diff --git a/types.cpp b/types.cpp
index fe78851..2beb9c5 100644
--- a/types.cpp
+++ b/types.cpp
@@ -475,6 +475,13 @@ namespace Types
 	    }
 	    return aty;
 	}
+	if (const auto dty = llvm::dyn_cast<DynArrayDecl>(ty))
+	{
+	    if (dty->SubType() == SubType())
+	    {
+		return dty;
+	    }
+	}
 	return 0;
     }
 
-- 
2.43.0


From 8244c40b662e87de3103418f73f0af221f1d9f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 42/57] fix: schemas with discriminants for lower bounds, and
 checks of the actual values

---
 parser.cpp | 67 +++++++++++++++++++++++++++++++++++++++++++++++++-----
 schema.cpp | 52 +++++++++++++++++++++++++++++++++++++-----
 schema.h   | 14 ++++++++++--
 3 files changed, 119 insertions(+), 14 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index aba3e19..82c0fbc 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -732,12 +732,31 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
     if (Expect(Token::Identifier, NoExpectConsume) && PeekToken() == Token::DotDot)
     {
 	std::string lowName = GetIdentifier(ExpectConsume);
-	if (!Expect(Token::DotDot, ExpectConsume) || !Expect(Token::Identifier, NoExpectConsume))
+	if (!Expect(Token::DotDot, ExpectConsume))
+	{
+	    return 0;
+	}
+	const VarDef* lowVar = schema ? schema->FindVar(lowName) : 0;
+	if (lowVar && !(CurrentToken().GetToken() == Token::Identifier && schema->FindVar(GetIdentifier(NoExpectConsume))))
+	{
+	    const Constants::ConstDecl* endC = ParseConstExpr({ endToken, altToken });
+	    if (!endC)
+	    {
+		return 0;
+	    }
+	    type = endC->Type();
+	    if (!type->CompatibleType(lowVar->Type()))
+	    {
+		return Error("Expected same type for schema range");
+	    }
+	    return new Types::SchemaRange(lowName, Constants::ToInt(endC), type, schema);
+	}
+	if (!Expect(Token::Identifier, NoExpectConsume))
 	{
 	    return 0;
 	}
 	std::string highName = GetIdentifier(ExpectConsume);
-	if (endToken != Token::Semicolon)
+	if (endToken != Token::Semicolon && !schema)
 	{
 	    AcceptToken(Token::Colon);
 	    if (!Expect(Token::Identifier, NoExpectConsume))
@@ -2032,10 +2051,42 @@ Types::TypeDecl* Parser::ExpandSchema(Types::TypeDecl* ty)
     do
     {
 	const Constants::ConstDecl* c = ParseConstExpr({ Token::Comma, Token::RightParen });
-	vals.push_back(ToInt(c));
-	AcceptToken(Token::Comma);
+	if (!c)
+	{
+	    return Error("Expected constant value for schema");
+	}
+	const std::vector<VarDef>& vars = Types::SchemaOf(ty)->Vars();
+	if (vals.size() == vars.size())
+	{
+	    return Error("Too many values for schema");
+	}
+	Types::TypeDecl* varTy = vars[vals.size()].Type();
+	if (!varTy->CompatibleType(c->Type()) || !IsIntegral(varTy))
+	{
+	    return Error("Incorrect type of value for schema");
+	}
+	int64_t v = ToInt(c);
+	if (llvm::isa<Types::RangeDecl>(varTy) &&
+	    (v < varTy->GetRange()->Start() || v > varTy->GetRange()->End()))
+	{
+	    return Error("Value for schema is out of range");
+	}
+	vals.push_back(v);
+	if (CurrentToken().GetToken() != Token::RightParen && !Expect(Token::Comma, ExpectConsume))
+	{
+	    return 0;
+	}
     } while (!AcceptToken(Token::RightParen));
-    return Types::Instantiate(vals, ty);
+    if (vals.size() != Types::SchemaOf(ty)->Vars().size())
+    {
+	return Error("Not enough values for schema");
+    }
+    Types::TypeDecl* instTy = Types::Instantiate(vals, ty);
+    if (!instTy)
+    {
+	return Error("Invalid range for schema");
+    }
+    return instTy;
 }
 
 Types::TypeDecl* Parser::ParseType(const std::string& name, Forwarding maybeForwarded, Types::Schema* schema)
@@ -2084,8 +2135,12 @@ Types::TypeDecl* Parser::ParseType(const std::string& name, Forwarding maybeForw
 	{
 	    if (Types::TypeDecl* ty = ParseSimpleType(false))
 	    {
-		if (Types::IsSchema(ty) and AcceptToken(Token::LeftParen))
+		if (Types::IsSchema(ty))
 		{
+		    if (!Expect(Token::LeftParen, ExpectConsume))
+		    {
+			return 0;
+		    }
 		    return ExpandSchema(ty);
 		}
 		return ty;
diff --git a/schema.cpp b/schema.cpp
index eb96764..8c0717b 100644
--- a/schema.cpp
+++ b/schema.cpp
@@ -17,7 +17,7 @@ namespace Types
     {
 	for (const auto& v : vars)
 	{
-	    if (v.Name() == name)
+	    if (llvm::StringRef(v.Name()).equals_insensitive(name))
 	    {
 		return &v;
 	    }
@@ -30,7 +30,7 @@ namespace Types
 	int index = 0;
 	for (auto a : vars)
 	{
-	    if (a.Name() == nm)
+	    if (llvm::StringRef(a.Name()).equals_insensitive(nm))
 	    {
 		return index;
 	    }
@@ -57,12 +57,21 @@ namespace Types
 	    lowVal = vals[idx];
 	}
 
-	int idx = schema->NameToIndex(highName);
-	if (idx < 0)
+	int64_t highVal = end;
+	if (highName != "")
+	{
+	    int idx = schema->NameToIndex(highName);
+	    if (idx < 0)
+	    {
+		return 0;
+	    }
+	    highVal = vals[idx];
+	}
+	if (lowVal > highVal)
 	{
 	    return 0;
 	}
-	return new RangeDecl(new Range(lowVal, vals[idx]), baseType);
+	return new RangeDecl(new Range(lowVal, highVal), baseType);
     }
 
     TypeDecl* SchemaArrayDecl::Instantiate(const std::vector<int64_t>& vals)
@@ -72,7 +81,11 @@ namespace Types
 	{
 	    if (auto sr = llvm::dyn_cast<SchemaRange>(const_cast<RangeBaseDecl*>(r)))
 	    {
-		auto rr = llvm::dyn_cast<RangeBaseDecl>(sr->Instantiate(vals));
+		auto rr = llvm::dyn_cast_or_null<RangeBaseDecl>(sr->Instantiate(vals));
+		if (!rr)
+		{
+		    return 0;
+		}
 		rv.push_back(rr);
 	    }
 	    else
@@ -86,6 +99,10 @@ namespace Types
     TypeDecl* SchemaSetDecl::Instantiate(const std::vector<int64_t>& vals)
     {
 	auto rr = llvm::dyn_cast<SchemaRange>(range)->Instantiate(vals);
+	if (!rr || rr->GetRange()->Size() > MaxSetSize)
+	{
+	    return 0;
+	}
 	return new SetDecl(llvm::cast<RangeBaseDecl>(rr), baseType);
     }
 
@@ -102,6 +119,29 @@ namespace Types
 	}
     }
 
+    const Schema* SchemaOf(const TypeDecl* ty)
+    {
+	if (auto sr = llvm::dyn_cast<SchemaRange>(ty))
+	{
+	    return sr->GetSchema();
+	}
+	if (ty->Type() == TypeDecl::TK_SchSet)
+	{
+	    return SchemaOf(static_cast<const SchemaSetDecl*>(ty)->RangeBase());
+	}
+	if (auto arr = llvm::dyn_cast<ArrayDecl>(ty))
+	{
+	    for (auto r : arr->Ranges())
+	    {
+		if (const Schema* s = SchemaOf(r))
+		{
+		    return s;
+		}
+	    }
+	}
+	return 0;
+    }
+
     template<typename T>
     static TypeDecl* Instantiate(const std::vector<int64_t>& vals, TypeDecl* ty)
     {
diff --git a/schema.h b/schema.h
index 9414b04..55ed57d 100644
--- a/schema.h
+++ b/schema.h
@@ -7,8 +7,10 @@
 
 namespace Types
 {
-    bool      IsSchema(const TypeDecl* ty);
-    TypeDecl* Instantiate(const std::vector<int64_t>& values, TypeDecl* ty);
+    class Schema;
+    bool          IsSchema(const TypeDecl* ty);
+    const Schema* SchemaOf(const TypeDecl* ty);
+    TypeDecl*     Instantiate(const std::vector<int64_t>& values, TypeDecl* ty);
     class Schema
     {
     public:
@@ -16,6 +18,7 @@ namespace Types
 	void          CopyToNameStack(NameStack& stack);
 	const VarDef* FindVar(const std::string& name) const;
 	int           NameToIndex(const std::string& name) const;
+	const std::vector<VarDef>& Vars() const { return vars; }
 	virtual ~Schema() = default;
 
     private:
@@ -33,6 +36,10 @@ namespace Types
 	    : RangeBaseDecl(TK_SchRange, base), start(0), lowName(lnm), highName(hnm), schema(sc)
 	{
 	}
+	SchemaRange(const std::string& nm, int64_t e, TypeDecl* base, const Schema* sc)
+	    : RangeBaseDecl(TK_SchRange, base), start(0), end(e), lowName(nm), highName(""), schema(sc)
+	{
+	}
 	void      DoDump() const override;
 	size_t    RangeSize() const override
 	{
@@ -41,9 +48,11 @@ namespace Types
 	}
 	TypeDecl* Instantiate(const std::vector<int64_t>& vals);
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_SchRange; }
+	const Schema* GetSchema() const { return schema; }
 
     private:
 	int64_t                        start;
+	int64_t                        end = 0;
 	std::string                    lowName;
 	std::string                    highName;
 	const Schema*                  schema;
@@ -62,6 +71,7 @@ namespace Types
     public:
 	SchemaSetDecl(RangeBaseDecl* r, TypeDecl* ty) : SetDecl(TK_SchSet, r, ty) {}
 	TypeDecl* Instantiate(const std::vector<int64_t>& vals);
+	const RangeBaseDecl* RangeBase() const { return range; }
     };
 }; // namespace Types
 #endif
-- 
2.43.0


From 4644b7b826d18b21b5cdd56f6855f1dc19f90ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 43/57] fix: val takes decimal numbers only and leaves its
 argument alone

---
 runtime/val.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/runtime/val.c b/runtime/val.c
index 722e794..709ed2a 100644
--- a/runtime/val.c
+++ b/runtime/val.c
@@ -2,21 +2,30 @@
 #include <inttypes.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
+
+/* Make a C style string, without touching the string itself */
+static const char* CString(const String* s, char* buffer)
+{
+    memcpy(buffer, s->str, s->len);
+    buffer[s->len] = 0;
+    return buffer;
+}
 
 void __Val_int(String* s, int* res)
 {
-    s->str[s->len] = 0;
-    *res = strtol((const char*)&s->str, NULL, 0);
+    char buffer[MaxStringLen + 1];
+    *res = strtol(CString(s, buffer), NULL, 10);
 }
 
 void __Val_long(String* s, int64_t* res)
 {
-    s->str[s->len] = 0;
-    *res = strtoll((const char*)&s->str, NULL, 0);
+    char buffer[MaxStringLen + 1];
+    *res = strtoll(CString(s, buffer), NULL, 10);
 }
 
 void __Val_real(String* s, double* res)
 {
-    s->str[s->len] = 0;
-    *res = strtod((const char*)&s->str, NULL);
+    char buffer[MaxStringLen + 1];
+    *res = strtod(CString(s, buffer), NULL);
 }
-- 
2.43.0


From f5c754c1bc99e268de5daa7fe930f2ad5608e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:34 +0000
Subject: [PATCH 44/57] fix: files: reading at the end and past the buffer,
 seeking, unopened and unnamed files, room in the variables read into

---
 builtin.cpp        |   4 +-
 expr.cpp           |  27 +++-
 runtime/assign.c   |  39 +++--
 runtime/bind.c     |  22 +--
 runtime/fileio.c   |  45 +++---
 runtime/getput.c   |  53 ++++---
 runtime/read.c     | 347 +++++++++++++++++----------------------------
 runtime/readbin.c  |  11 +-
 runtime/runtime.h  |  36 ++++-
 runtime/seek.c     |  81 +++++------
 runtime/writebin.c |  11 +-
 11 files changed, 322 insertions(+), 354 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index c2692b0..52acf94 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1728,8 +1728,8 @@ namespace Builtin
 	auto fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	ICE_IF(!fvar, "Should be a variable here");
 	llvm::Value*             faddr = fvar->Address();
-	llvm::Value*             binding = args[1]->CodeGen();
-	std::vector<llvm::Type*> argTypes = { faddr->getType(), Types::GetBindingType()->LlvmType() };
+	llvm::Value*             binding = MakeAddressable(args[1]);
+	std::vector<llvm::Type*> argTypes = { faddr->getType(), binding->getType() };
 	llvm::FunctionCallee     f = GetFunction(Type()->LlvmType(), argTypes, "__" + name);
 
 	return builder.CreateCall(f, { faddr, binding });
diff --git a/expr.cpp b/expr.cpp
index 2ef462e..dacc315 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -824,10 +824,12 @@ void FilePointerExprAST::DoDump() const
 llvm::Value* FilePointerExprAST::Address()
 {
     TRACE();
-    auto vptr = llvm::dyn_cast<VariableExprAST>(pointer);
+    auto vptr = llvm::dyn_cast<AddressableAST>(pointer);
     ICE_IF(!vptr, "Expected variable expression!");
     llvm::Value* v = vptr->Address();
     llvm::Type*  fileTy = pointer->Type()->LlvmType();
+    // The character of a text file is only read when it is needed.
+    builder.CreateCall(GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { v->getType() }, "__preread"), v);
     llvm::Type*  ptrTy = llvm::PointerType::getUnqual(Type()->LlvmType());
     v = builder.CreateGEP(fileTy, v, { MakeIntegerConstant(0), MakeIntegerConstant(Types::FileDecl::Buffer) },
                           "bufptr");
@@ -3444,6 +3446,11 @@ static llvm::FunctionCallee CreateReadFunc(Types::TypeDecl* ty, llvm::Type* fty,
     {
 	ty = rd->SubType();
     }
+    if (llvm::isa<Types::StringDecl>(ty) || IsCharArray(ty))
+    {
+	// The number of characters that there is room for.
+	argTypes.push_back(Types::Get<Types::IntegerDecl>()->LlvmType());
+    }
     if (llvm::isa<Types::CharDecl>(ty))
     {
 	suffix = "chr";
@@ -3515,9 +3522,23 @@ llvm::Value* ReadAST::CodeGen()
 	ICE_IF(!v, "Could not evaluate address of expression for read");
 
 	llvm::FunctionCallee fn;
+	llvm::Value*         size = 0;
 	if (isText)
 	{
 	    fn = CreateReadFunc(ty, srcTy, kind);
+	    if (auto sd = llvm::dyn_cast<Types::StringDecl>(ty))
+	    {
+		size = MakeIntegerConstant(sd->Capacity());
+	    }
+	    else if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(ty))
+	    {
+		size = ConformantLength(dty, v);
+		v = LoadConformantData(dty, v);
+	    }
+	    else if (IsCharArray(ty))
+	    {
+		size = MakeIntegerConstant(ty->Size());
+	    }
 	}
 	else
 	{
@@ -3526,6 +3547,10 @@ llvm::Value* ReadAST::CodeGen()
 	}
 
 	argsV.push_back(v);
+	if (size)
+	{
+	    argsV.push_back(size);
+	}
 
 	ICE_IF(!fn, "Failed to generate function");
 	v = builder.CreateCall(fn, argsV, "");
diff --git a/runtime/assign.c b/runtime/assign.c
index d97ce5a..b88b20b 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -21,7 +21,9 @@ void InitFiles()
     SetupFile(&output, 1, 1);
 
     files[input.handle].file = stdin;
+    files[input.handle].mode = ReadMode;
     files[output.handle].file = stdout;
+    files[output.handle].mode = WriteMode;
 }
 
 /*******************************************
@@ -32,10 +34,12 @@ void SetupFile(File* f, int recSize, int isText)
 {
     f->recordSize = (isText) ? 1024 : recSize;
     f->isText = isText;
-    f->buffer = malloc(f->recordSize);
-    files[f->handle].readPos = 0;
-    files[f->handle].bufferSize = 0;
-    files[f->handle].readAhead = 0;
+    struct FileEntry* fe = &files[f->handle];
+    fe->buffer = realloc(fe->buffer, f->recordSize);
+    fe->readPos = 0;
+    fe->bufferSize = 0;
+    fe->readAhead = 0;
+    f->buffer = fe->buffer;
 }
 
 /*******************************************
@@ -45,13 +49,20 @@ void SetupFile(File* f, int recSize, int isText)
 void __assign(File* f, char* name)
 {
     int i;
-    for (i = 0; i < MaxPascalFiles && files[i].inUse; i++)
+    // A file variable that has an entry already uses that one again.
+    for (i = 0; i < MaxPascalFiles && files[i].inUse && files[i].fileData != f; i++)
 	;
     if (i == MaxPascalFiles)
     {
 	fprintf(stderr, "No free files... Exiting\n");
 	exit(1);
     }
+    if (files[i].file)
+    {
+	fclose(files[i].file);
+	files[i].file = NULL;
+    }
+    free(files[i].name);
     f->handle = i;
     files[i].inUse = 1;
     files[i].name = malloc(strlen(name) + 1);
@@ -60,6 +71,18 @@ void __assign(File* f, char* name)
     strcpy(files[i].name, name);
 }
 
+/*******************************************
+ * File assign, where the name is a Pascal string
+ *******************************************
+ */
+void __assign_str(File* f, const String* name)
+{
+    char buffer[MaxStringLen + 1];
+    memcpy(buffer, name->str, name->len);
+    buffer[name->len] = 0;
+    __assign(f, buffer);
+}
+
 /*******************************************
  * File assign for unnamed file
  *******************************************
@@ -71,10 +94,10 @@ void __assign_unnamed(File* f)
     n++;
     n %= MaxPascalFiles;
     size_t pos = strlen(name) - 1;
-    for (int i = 0; i < 6; i++)
+    for (int i = 0, v = n; i < 6; i++)
     {
-	name[pos] = '0' + (n % 10);
-	n /= 10;
+	name[pos] = '0' + (v % 10);
+	v /= 10;
 	pos--;
     }
     __assign(f, name);
diff --git a/runtime/bind.c b/runtime/bind.c
index 8d8d069..4b94d53 100644
--- a/runtime/bind.c
+++ b/runtime/bind.c
@@ -7,9 +7,9 @@ struct BindingType __binding(File* f)
     struct BindingType r;
     r.Bound = false;
     r.Name.len = 0;
-    if (f->handle > 0 && f->handle < MaxPascalFiles)
+    struct FileEntry* fe = getEntry(f);
+    if (fe)
     {
-	struct FileEntry* fe = &files[f->handle];
 	if (fe->name)
 	{
 	    size_t len = strlen(fe->name);
@@ -24,21 +24,21 @@ struct BindingType __binding(File* f)
 
 void __bind(File* f, struct BindingType* b)
 {
-    if (f->handle > 0 && f->handle > MaxPascalFiles)
+    struct FileEntry* fe = getEntry(f);
+    if (fe)
     {
-	if (files[f->handle].name)
-	    free(files[f->handle].name);
-	files[f->handle].name = calloc(1, b->Name.len + 1);
-	memcpy(files[f->handle].name, b->Name.str, b->Name.len);
+	free(fe->name);
+	fe->name = calloc(1, b->Name.len + 1);
+	memcpy(fe->name, b->Name.str, b->Name.len);
     }
 }
 
 void __unbind(File* f)
 {
-    if (f->handle > 0 && f->handle > MaxPascalFiles)
+    struct FileEntry* fe = getEntry(f);
+    if (fe)
     {
-	char* ptr = files[f->handle].name;
-	files[f->handle].name = NULL;
-	free(ptr);
+	free(fe->name);
+	fe->name = NULL;
     }
 }
diff --git a/runtime/fileio.c b/runtime/fileio.c
index db62af3..d15f83b 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -15,41 +15,50 @@ void FileError(const char* op)
 
 void __close(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fclose(files[f->handle].file);
-	files[f->handle].file = NULL;
-	return;
-    }
-    FileError("close");
+    struct FileEntry* fe = getOpenEntry(f, "close");
+    fclose(fe->file);
+    fe->file = NULL;
 }
 
 static void OpenFile(File* f, int recSize, int isText, const char* mode)
 {
-    if (!f->handle)
+    struct FileEntry* fe = getEntry(f);
+    if (!fe || !fe->name)
     {
 	__assign_unnamed(f);
+	fe = getEntry(f);
     }
     SetupFile(f, recSize, isText);
-    if (files[f->handle].inUse)
+    if (fe->file)
     {
-	if (files[f->handle].file)
-	{
-	    __close(f);
-	}
-	files[f->handle].file = fopen(files[f->handle].name, mode);
-	if (files[f->handle].file)
+	__close(f);
+    }
+    fe->mode = (*mode == 'r') ? ReadMode : WriteMode;
+    fe->file = fopen(fe->name, mode);
+    if (!fe->file)
+    {
+	FileError("open");
+    }
+    if (!isText)
+    {
+	// Other files than text files can be both read and written, see seekread, seekwrite and seekupdate.
+	FILE* both = fopen(fe->name, "r+");
+	if (both)
 	{
-	    return;
+	    fclose(fe->file);
+	    fe->file = both;
+	    fseek(both, 0, (*mode == 'a') ? SEEK_END : SEEK_SET);
 	}
     }
-    FileError("open");
 }
 
 void __reset(File* f, int recSize, int isText)
 {
     OpenFile(f, recSize, isText, "r");
-    __get(f);
+    if (!isText)
+    {
+	__get(f);
+    }
 }
 
 void __rewrite(File* f, int recSize, int isText)
diff --git a/runtime/getput.c b/runtime/getput.c
index 2259758..d515762 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -7,46 +7,45 @@
 
 void __put(File* file)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
+    struct FileEntry* fe = getOpenEntry(file, "put");
+    if (file->isText)
+    {
+	fwrite(file->buffer, 1, 1, fe->file);
+	return;
+    }
+    if (!(fe->mode & WriteMode))
     {
-	f = &files[file->handle];
+	FileError("put");
+    }
+    if (fe->readAhead)
+    {
+	// The component in the buffer is the one to be replaced.
+	fseek(fe->file, -(long)file->recordSize, SEEK_CUR);
+    }
+    fwrite(file->buffer, file->recordSize, 1, fe->file);
+    if (fe->mode & ReadMode)
+    {
+	fseek(fe->file, 0, SEEK_CUR);
+	__get(file);
     }
-    fwrite(file->buffer, file->recordSize, 1, f->file);
 }
 
-int __get(File* file)
+void __get(File* file)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
+    struct FileEntry* fe = getOpenEntry(file, "get");
     if (file->isText)
     {
-	int ch = fgetc(f->file);
-	*file->buffer = ch;
-	f->readAhead = (ch != EOF);
-	return f->readAhead;
+	__preread(file);
+	// The next character is fetched when it is needed.
+	fe->readAhead = 0;
     }
     else
     {
-	if (fread(file->buffer, file->recordSize, 1, f->file) > 0)
-	{
-	    f->readAhead = 1;
-	    return 1;
-	}
-	f->readAhead = 0;
+	fe->readAhead = (fe->mode & ReadMode) && fread(file->buffer, file->recordSize, 1, fe->file) > 0;
     }
-    return 0;
 }
 
 void __page(File* file)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
-    fputc('\014', f->file);
+    fputc('\014', getFile(file));
 }
diff --git a/runtime/read.c b/runtime/read.c
index 1853b4a..1ab884e 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -8,47 +8,50 @@
 static int read_chunk_text(struct FileEntry* f)
 {
     File* file = f->fileData;
+    if (f->mode & WriteMode)
+    {
+	return EOF;
+    }
     if (file->isText & 2)
     {
-	int ch = fgetc(f->file);
-	f->readAhead = f->bufferSize = (ch != EOF);
-	return ch;
+	return fgetc(f->file);
     }
-    else
+    if (f->readPos != f->bufferSize)
     {
-	if (f->readPos != f->bufferSize)
-	{
-	    f->readAhead = 1;
-	    return f->fileData->buffer[f->readPos++];
-	}
+	return (unsigned char)file->buffer[f->readPos++];
+    }
 
-	int n;
-	if ((n = fread(file->buffer, 1, file->recordSize, f->file)))
-	{
-	    if (n > 0)
-	    {
-		f->bufferSize = n;
-		f->readAhead = 1;
-		f->readPos = 1;
-		return *file->buffer;
-	    }
-	}
+    size_t n = fread(file->buffer, 1, file->recordSize, f->file);
+    if (n > 0)
+    {
+	f->bufferSize = n;
+	f->readPos = 1;
+	return (unsigned char)*file->buffer;
     }
     return EOF;
 }
 
-/* Make a local function so it can inline */
-static int __get_text(File* file)
+/* Fetch the next character. False at the end of the file. */
+bool __get_text(File* file)
 {
-    struct FileEntry* f = &files[file->handle];
+    struct FileEntry* f = getOpenEntry(file, "read");
     int               ch = read_chunk_text(f);
-    *file->buffer = ch;
-    if (ch == EOF)
+    f->readAhead = (ch != EOF);
+    if (f->readAhead)
     {
-	f->readAhead = 0;
-	return 0;
+	*file->buffer = ch;
+    }
+    return f->readAhead;
+}
+
+/* Make sure the current character is in the buffer, if there is one. */
+void __preread(File* file)
+{
+    struct FileEntry* f = getOpenEntry(file, "read");
+    if (file->isText && !f->readAhead)
+    {
+	__get_text(file);
     }
-    return 1;
 }
 
 /*******************************************
@@ -57,34 +60,25 @@ static int __get_text(File* file)
  */
 int __eof(File* file)
 {
-    if (!files[file->handle].readAhead)
-    {
-	if (!__get_text(file))
-	{
-	    return 1;
-	}
-    }
-    return 0;
+    __preread(file);
+    return !files[file->handle].readAhead;
 }
 
 int __eoln(File* file)
 {
-    if (!files[file->handle].readAhead)
-    {
-	if (!__get_text(file))
-	{
-	    return 1;
-	}
-    }
-    return *file->buffer == '\n';
+    return __eof(file) || *file->buffer == '\n';
 }
 
 struct interface
 {
-    int (*fngetnext)(struct interface* intf);
+    // True when there is a next character.
+    bool (*fngetnext)(struct interface* intf);
     int (*fneof)(struct interface* intf);
     int (*fneoln)(struct interface* intf);
+    // The current character, or EOF.
     int (*fncurrent)(struct interface* intf);
+    // Done with the current character.
+    void (*fnskip)(struct interface* intf);
     void (*fnpreread)(struct interface* intf);
 
     union
@@ -100,10 +94,10 @@ struct interface
 
 static int file_current(struct interface* intf)
 {
-    return *intf->file->buffer;
+    return files[intf->file->handle].readAhead ? (unsigned char)*intf->file->buffer : EOF;
 }
 
-static int file_get_text(struct interface* intf)
+static bool file_get_text(struct interface* intf)
 {
     return __get_text(intf->file);
 }
@@ -118,12 +112,14 @@ static int file_eoln(struct interface* intf)
     return __eoln(intf->file);
 }
 
+static void file_skip(struct interface* intf)
+{
+    files[intf->file->handle].readAhead = 0;
+}
+
 static void file_preread(struct interface* intf)
 {
-    if (!files[intf->file->handle].readAhead)
-    {
-	__get_text(intf->file);
-    }
+    __preread(intf->file);
 }
 
 static void initFile(File* file, struct interface* intf)
@@ -133,22 +129,27 @@ static void initFile(File* file, struct interface* intf)
     intf->fneof = file_eof;
     intf->fneoln = file_eoln;
     intf->fncurrent = file_current;
+    intf->fnskip = file_skip;
     intf->fnpreread = file_preread;
 }
 
 static int str_current(struct interface* intf)
 {
-    return intf->str->str[intf->strpos];
+    return (intf->strpos < intf->str->len) ? intf->str->str[intf->strpos] : EOF;
 }
 
-static int str_get_text(struct interface* intf)
+static void str_skip(struct interface* intf)
 {
-    if (intf->strpos == intf->str->len)
+    if (intf->strpos < intf->str->len)
     {
-	return EOF;
+	intf->strpos++;
     }
-    intf->strpos++;
-    return str_current(intf);
+}
+
+static bool str_get_text(struct interface* intf)
+{
+    str_skip(intf);
+    return intf->strpos < intf->str->len;
 }
 
 static int str_eof(struct interface* intf)
@@ -171,6 +172,7 @@ static void initStr(String* str, struct interface* intf)
     intf->fneof = str_eof;
     intf->fneoln = str_eof;
     intf->fncurrent = str_current;
+    intf->fnskip = str_skip;
     intf->fnpreread = str_preread;
 }
 
@@ -235,15 +237,13 @@ static struct interface* findInterface(String* str)
  */
 static void skip_spaces(struct interface* intf)
 {
-    while (isspace(intf->fncurrent(intf)) && !intf->fneof(intf))
-    {
-	intf->fngetnext(intf);
-    }
+    while (isspace(intf->fncurrent(intf)) && intf->fngetnext(intf))
+	;
 }
 
 static int get_sign(struct interface* intf)
 {
-    char ch = intf->fncurrent(intf);
+    int ch = intf->fncurrent(intf);
     if (ch == '-')
     {
 	intf->fngetnext(intf);
@@ -256,64 +256,26 @@ static int get_sign(struct interface* intf)
     return 1;
 }
 
-// Turn an exponent into a multiplier value.
-static double exponent_to_multi(int exponent)
-{
-    double m = 1.0;
-    int    oneover = 0;
-    if (exponent < 0)
-    {
-	oneover = 1;
-	exponent = -exponent;
-    }
-    while (exponent > 0)
-    {
-	if (exponent & 1)
-	{
-	    m *= 10.0;
-	    exponent--;
-	}
-	else
-	{
-	    m *= 100.0;
-	    exponent -= 2;
-	}
-    }
-    if (oneover)
-    {
-	return 1.0 / m;
-    }
-    return m;
-}
-
 static void readint64(struct interface* intf, int64_t* v)
 {
-    int64_t n = 0;
+    uint64_t n = 0;
 
     intf->fnpreread(intf);
 
     skip_spaces(intf);
     int sign = get_sign(intf);
-    char ch;
-    while ((ch = intf->fncurrent(intf)) && isdigit(ch))
+    int ch;
+    while (isdigit(ch = intf->fncurrent(intf)))
     {
 	n *= 10;
 	n += ch - '0';
-	if (!intf->fngetnext(intf))
-	{
-	    break;
-	}
+	intf->fngetnext(intf);
     }
-    *v = n * sign;
+    *v = (sign < 0) ? -n : n;
 }
 
 void __read_int64(File* file, int64_t* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
     readint64(&intf, v);
@@ -346,16 +308,11 @@ static void readchar(struct interface* intf, char* v)
     intf->fnpreread(intf);
 
     *v = intf->fncurrent(intf);
-    intf->fngetnext(intf);
+    intf->fnskip(intf);
 }
 
 void __read_chr(File* file, char* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
 
@@ -372,65 +329,70 @@ void __read_S_chr(String* str, char* v)
 
 static void readreal(struct interface* intf, double* v)
 {
-    double n = 0;
-    double divisor = 1.0;
-    double multiplicand = 1.0;
-    int    exponent = 0;
+    enum
+    {
+	MaxDigits = 800,
+	MaxExponent = 99999
+    };
+    char text[MaxDigits + 16];
+    int  count = 0;
+    int  scale = 0;
+    int  exponent = 0;
+    int  ch;
 
     intf->fnpreread(intf);
     skip_spaces(intf);
-    int sign = get_sign(intf);
+    text[count++] = (get_sign(intf) < 0) ? '-' : '+';
 
-    while (isdigit(intf->fncurrent(intf)))
+    while (isdigit(ch = intf->fncurrent(intf)))
     {
-	n *= 10.0;
-	n += (intf->fncurrent(intf)) - '0';
-	if (!intf->fngetnext(intf))
+	if (count < MaxDigits)
 	{
-	    break;
+	    text[count++] = ch;
 	}
+	else if (scale < MaxExponent)
+	{
+	    scale++;
+	}
+	intf->fngetnext(intf);
     }
-    if (intf->fncurrent(intf) == '.')
+    if (ch == '.')
     {
 	intf->fngetnext(intf);
-	while (isdigit(intf->fncurrent(intf)))
+	while (isdigit(ch = intf->fncurrent(intf)))
 	{
-	    n *= 10.0;
-	    n += (intf->fncurrent(intf)) - '0';
-	    divisor *= 10.0;
-	    if (!intf->fngetnext(intf))
+	    if (count < MaxDigits)
 	    {
-		break;
+		text[count++] = ch;
+		scale--;
 	    }
+	    intf->fngetnext(intf);
 	}
     }
-    if (intf->fncurrent(intf) == 'e' || intf->fncurrent(intf) == 'E')
+    if (ch == 'e' || ch == 'E')
     {
 	intf->fngetnext(intf);
 	int expsign = get_sign(intf);
-	while (isdigit(intf->fncurrent(intf)) && !intf->fneoln(intf))
+	while (isdigit(ch = intf->fncurrent(intf)))
 	{
-	    exponent *= 10;
-	    exponent += (intf->fncurrent(intf)) - '0';
-	    if (!intf->fngetnext(intf))
+	    if (exponent < MaxExponent)
 	    {
-		break;
+		exponent = exponent * 10 + ch - '0';
 	    }
+	    intf->fngetnext(intf);
 	}
-	exponent *= expsign;
-	multiplicand = exponent_to_multi(exponent);
+	scale += exponent * expsign;
     }
-    n = n * sign / divisor * multiplicand;
-    *v = n;
+    if (count == 1)
+    {
+	text[count++] = '0';
+    }
+    sprintf(&text[count], "e%d", scale);
+    *v = strtod(text, NULL);
 }
 
 void __read_real(File* file, double* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
 
@@ -447,92 +409,61 @@ void __read_S_real(String* str, double* v)
 
 void __read_nl(File* file)
 {
-    if (!files[file->handle].readAhead)
+    while (!__eoln(file))
     {
-	if (!__get_text(file))
-	{
-	    return;
-	}
-    }
-    while (*file->buffer != '\n')
-    {
-	if (!__get_text(file))
-	    break;
+	files[file->handle].readAhead = 0;
     }
     files[file->handle].readAhead = 0;
 }
 
-static void readstr(struct interface* intf, String* v)
+/* Reads to the end of the line, but no more than count characters. Returns the number of characters. */
+static int readline(struct interface* intf, unsigned char* v, int count)
 {
-    char   buffer[256];
-    size_t count = 0;
+    int n = 0;
 
     intf->fnpreread(intf);
-
-    while (!intf->fneoln(intf) && count < sizeof(buffer))
+    while (n < count && !intf->fneoln(intf))
     {
-	buffer[count++] = intf->fncurrent(intf);
-	if (!intf->fngetnext(intf))
-	{
-	    break;
-	}
+	v[n++] = intf->fncurrent(intf);
+	intf->fnskip(intf);
     }
-    v->len = count;
-    memcpy(v->str, buffer, count);
+    return n;
 }
 
-void __read_str(File* file, String* v)
+void __read_str(File* file, String* v, int capacity)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
 
-    readstr(&intf, v);
+    v->len = readline(&intf, v->str, capacity);
 }
 
-void __read_S_str(String* str, String* v)
+void __read_S_str(String* str, String* v, int capacity)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readstr(intf, v);
+    // The variable may be the string that is read from.
+    unsigned char buffer[MaxStringLen];
+    int           n = readline(intf, buffer, capacity);
+    v->len = n;
+    memcpy(v->str, buffer, n);
 }
 
-static void readchars(struct interface* intf, char* v)
+void __read_chars(File* file, char* v, int size)
 {
-    intf->fnpreread(intf);
-    while (intf->fncurrent(intf) != '\n')
-    {
-	*v++ = intf->fncurrent(intf);
-	if (!intf->fngetnext(intf))
-	{
-	    break;
-	}
-    }
-}
-
-void __read_chars(File* file, char* v)
-{
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
     struct interface intf;
     initFile(file, &intf);
 
-    readchars(&intf, v);
+    readline(&intf, (unsigned char*)v, size);
 }
 
-void __read_S_chars(String* str, char* v)
+void __read_S_chars(String* str, char* v, int size)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readchars(intf, v);
+    readline(intf, (unsigned char*)v, size);
 }
 
 static void upstr(char* s)
@@ -545,17 +476,17 @@ static void upstr(char* s)
     }
 }
 
-static void readbool(struct interface* intf, int* b)
+static void readbool(struct interface* intf, bool* b)
 {
     intf->fnpreread(intf);
     skip_spaces(intf);
     char     str[100];
     unsigned count = 0;
-    char     ch;
+    int      ch;
     for (;;)
     {
 	ch = intf->fncurrent(intf);
-	if (isspace(ch) || count >= sizeof(str) - 1)
+	if (ch == EOF || isspace(ch) || count >= sizeof(str) - 1)
 	{
 	    break;
 	}
@@ -564,32 +495,18 @@ static void readbool(struct interface* intf, int* b)
     }
     str[count] = 0;
     upstr(str);
-    if (strcmp("TRUE", str) == 0)
-    {
-	*b = 1;
-	return;
-    }
-    else if (strcmp("FALSE", str) == 0)
-    {
-	*b = 0;
-	return;
-    }
-    *b = -1;
+    *b = (strcmp("TRUE", str) == 0);
 }
 
-void __read_bool(File* file, int* b)
+void __read_bool(File* file, bool* b)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
     struct interface intf;
     initFile(file, &intf);
 
     readbool(&intf, b);
 }
 
-void __read_S_bool(String* str, int* b)
+void __read_S_bool(String* str, bool* b)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
diff --git a/runtime/readbin.c b/runtime/readbin.c
index e320233..a293cff 100644
--- a/runtime/readbin.c
+++ b/runtime/readbin.c
@@ -3,16 +3,7 @@
 
 void __read_bin(File* file, void* val)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
-    if (!f)
-    {
-	fprintf(stderr, "Invalid file used for read binary\n");
-	return;
-    }
+    getOpenEntry(file, "read");
     memcpy(val, file->buffer, file->recordSize);
     __get(file);
 }
diff --git a/runtime/runtime.h b/runtime/runtime.h
index eea64f8..9a5e357 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -26,6 +26,13 @@ typedef struct File
     int   isText;
 } File;
 
+/* What can be done with an open file */
+enum
+{
+    ReadMode = 1,
+    WriteMode = 2,
+};
+
 struct FileEntry
 {
     File* fileData;
@@ -35,6 +42,8 @@ struct FileEntry
     int   readAhead;
     int   readPos;
     int   bufferSize;
+    char* buffer;
+    int   mode;
 };
 
 typedef struct
@@ -101,16 +110,35 @@ void FileError(const char* op);
  * File Basics, low level I/O.
  *******************************************
  */
-static inline FILE* getFile(File* f)
+/* The entry of a file variable, or NULL when it has not been associated with a file. */
+static inline struct FileEntry* getEntry(File* f)
 {
-    if (f->handle < MaxPascalFiles && files[f->handle].inUse)
+    if (f->handle >= 0 && f->handle < MaxPascalFiles && files[f->handle].inUse && files[f->handle].fileData == f)
     {
-	return files[f->handle].file;
+	return &files[f->handle];
     }
     return NULL;
 }
 
-int  __get(File* file);
+/* The entry of an open file. */
+static inline struct FileEntry* getOpenEntry(File* f, const char* op)
+{
+    struct FileEntry* fe = getEntry(f);
+    if (!fe || !fe->file)
+    {
+	FileError(op);
+    }
+    return fe;
+}
+
+static inline FILE* getFile(File* f)
+{
+    return getOpenEntry(f, "write")->file;
+}
+
+void __get(File* file);
+bool __get_text(File* file);
+void __preread(File* file);
 void __put(File* file);
 int  __eof(File* file);
 int  __eoln(File* file);
diff --git a/runtime/seek.c b/runtime/seek.c
index 6f8cfda..ec81098 100644
--- a/runtime/seek.c
+++ b/runtime/seek.c
@@ -8,74 +8,59 @@
  *******************************************
  */
 
-void __seekwrite(File* f, uint64_t n)
+static void SeekTo(File* f, struct FileEntry* fe, uint64_t n, int mode, const char* op)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
+    if (fseek(fe->file, n * f->recordSize, SEEK_SET) != 0)
     {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
+	FileError(op);
     }
-    FileError("seekwrite");
+    fe->readAhead = 0;
+    fe->mode = mode;
+}
+
+static int64_t FileLength(FILE* file)
+{
+    long current = ftell(file);
+    fseek(file, 0, SEEK_END);
+    long len = ftell(file);
+    fseek(file, current, SEEK_SET);
+    return len;
+}
+
+void __seekwrite(File* f, uint64_t n)
+{
+    struct FileEntry* fe = getOpenEntry(f, "seekwrite");
+    SeekTo(f, fe, n, WriteMode, "seekwrite");
 }
 
 void __seekread(File* f, uint64_t n)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
-    }
-    FileError("seekread");
+    struct FileEntry* fe = getOpenEntry(f, "seekread");
+    SeekTo(f, fe, n, ReadMode, "seekread");
+    __get(f);
 }
 
 void __seekupdate(File* f, uint64_t n)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
-    }
-    FileError("seekupdate");
+    struct FileEntry* fe = getOpenEntry(f, "seekupdate");
+    SeekTo(f, fe, n, ReadMode | WriteMode, "seekupdate");
+    __get(f);
 }
 
 /* Note this is not thread-safe, but we don't have threads in Lacsap at present! */
 bool __empty(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	FILE* file = files[f->handle].file;
-	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
-	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
-	return (len == 0);
-    }
-    FileError("empty");
-    return false;
+    return FileLength(getOpenEntry(f, "empty")->file) == 0;
 }
 
-long __position(File* f)
+int64_t __position(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	long current = ftell(files[f->handle].file);
-	return current / f->recordSize;
-    }
-    FileError("position");
-    return 0;
+    struct FileEntry* fe = getOpenEntry(f, "position");
+    // The component in the buffer has been read already.
+    return ftell(fe->file) / f->recordSize - fe->readAhead;
 }
 
-long __lastposition(File* f)
+int64_t __lastposition(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	FILE* file = files[f->handle].file;
-	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
-	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
-	return len / f->recordSize;
-    }
-    FileError("lastposition");
-    return 0;
+    return FileLength(getOpenEntry(f, "lastposition")->file) / f->recordSize - 1;
 }
diff --git a/runtime/writebin.c b/runtime/writebin.c
index 5bfce92..f3fb40f 100644
--- a/runtime/writebin.c
+++ b/runtime/writebin.c
@@ -3,16 +3,7 @@
 
 void __write_bin(File* file, void* val)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
-    if (!f)
-    {
-	fprintf(stderr, "Invalid file used for write binary file\n");
-	return;
-    }
+    getOpenEntry(file, "write");
     memcpy(file->buffer, val, file->recordSize);
     __put(file);
 }
-- 
2.43.0


From 6122853751abad4c5f4b864f9403b5f1d49ce72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:34 +0000
Subject: [PATCH 45/57] fix: assign with a string variable as the name

---
 builtin.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 52acf94..38990d7 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1261,11 +1261,15 @@ namespace Builtin
 	auto         fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	llvm::Value* faddr = fvar->Address();
 
-	llvm::Value*             filename = args[1]->CodeGen();
+	// A string constant is a C style string as well.
+	bool                     isConst = llvm::isa<StringExprAST>(args[1]);
+	llvm::Value*             filename = isConst ? args[1]->CodeGen()
+	                                            : MakeStringFromExpr(args[1], args[1]->Type());
 	llvm::Type*              ty = filename->getType();
 	std::vector<llvm::Type*> argTypes = { faddr->getType(), ty };
 
-	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__assign");
+	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes,
+	                                     isConst ? "__assign" : "__assign_str");
 
 	return builder.CreateCall(f, { faddr, filename });
     }
-- 
2.43.0


From f9c376aa84eacef0180a8313f1d17b80ced71dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:34 +0000
Subject: [PATCH 46/57] fix: reading and writing files of components of another
 type than the value

---
 expr.cpp      | 18 ++++++++++++++++++
 expr.h        |  2 ++
 semantics.cpp | 14 +++++++++++++-
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index dacc315..40dd7af 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3292,6 +3292,15 @@ llvm::Value* WriteAST::CodeGen()
 	return NoOpValue();
     }
 
+    if (assign)
+    {
+	if (!assign->CodeGen())
+	{
+	    return 0;
+	}
+	return builder.CreateCall(GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy }, "__put"), dst);
+    }
+
     for (auto arg : args)
     {
 	std::vector<llvm::Value*> argsV;
@@ -3511,6 +3520,15 @@ llvm::Value* ReadAST::CodeGen()
 	return NoOpValue();
     }
 
+    if (assign)
+    {
+	if (!assign->CodeGen())
+	{
+	    return 0;
+	}
+	return builder.CreateCall(GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { srcTy }, "__get"), sc);
+    }
+
     for (auto arg : args)
     {
 	std::vector<llvm::Value*> argsV = { sc };
diff --git a/expr.h b/expr.h
index 2a9ce83..0afc9ef 100644
--- a/expr.h
+++ b/expr.h
@@ -791,6 +791,7 @@ private:
     AddressableAST*       dest;
     std::vector<WriteArg> args;
     WriteKind             kind;
+    AssignExprAST*        assign = nullptr; // When the value needs converting: dest^ := value
 };
 
 class ReadAST : public ExprAST
@@ -818,6 +819,7 @@ private:
     AddressableAST*       src;
     std::vector<ExprAST*> args;
     ReadKind              kind;
+    AssignExprAST*        assign = nullptr; // When the value needs converting: variable := src^
 };
 
 class LabelExprAST : public ExprAST
diff --git a/semantics.cpp b/semantics.cpp
index 42379d1..c920231 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -950,10 +950,16 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	    else
 	    {
 		auto fd = llvm::dyn_cast<Types::FileDecl>(r->src->Type());
-		if (!fd || !fd->SubType()->AssignableType(arg->Type()))
+		if (!fd || !arg->Type()->AssignableType(fd->SubType()))
 		{
 		    Error(arg, "Read argument should match elements of the file");
 		}
+		else if (!fd->SubType()->SameAs(arg->Type()))
+		{
+		    r->assign = new AssignExprAST(r->Loc(), arg,
+		                                  new FilePointerExprAST(r->Loc(), r->src, fd->SubType()));
+		    Check<AssignExprAST>(r->assign);
+		}
 	    }
 	}
     }
@@ -1035,6 +1041,12 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 	    {
 		Error(arg, "Write argument should match elements of the file");
 	    }
+	    else if (!fd->SubType()->SameAs(arg->Type()))
+	    {
+		w->assign = new AssignExprAST(
+		    w->Loc(), new FilePointerExprAST(w->Loc(), w->dest, fd->SubType()), arg);
+		Check<AssignExprAST>(w->assign);
+	    }
 	}
     }
 }
-- 
2.43.0


From f13aa5deeadd7ded9b612b2f75819b454d1b074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 47/57] fix: file variables in procedures, records and on the
 heap start out without a file

---
 expr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 40dd7af..7370ead 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -393,7 +393,8 @@ static llvm::Constant* AddVTables(Types::TypeDecl* ty, llvm::Constant* init)
 
 static bool HasInitialValue(Types::TypeDecl* ty)
 {
-    if (ty->Init())
+    // A file variable is not associated with a file to begin with.
+    if (ty->Init() || llvm::isa<Types::FileDecl>(ty))
     {
 	return true;
     }
@@ -461,7 +462,10 @@ static llvm::Constant* InitialValue(Types::TypeDecl* ty)
 	    std::vector<llvm::Constant*> elems(arrTy->getNumElements(), InitialValue(ad->SubType()));
 	    return llvm::ConstantArray::get(arrTy, elems);
 	}
-	return InitialFields(llvm::cast<Types::FieldCollection>(ty), {});
+	if (auto fc = llvm::dyn_cast<Types::FieldCollection>(ty))
+	{
+	    return InitialFields(fc, {});
+	}
     }
     return llvm::Constant::getNullValue(ty->LlvmType());
 }
-- 
2.43.0


From 7a6f5ca0a251d0da520fefb2f51ea4c0569b3afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 48/57] fix: writing subranges of enumerations, and
 enumerations with -m32

---
 expr.cpp        | 4 ++++
 runtime/write.c | 4 ++--
 types.cpp       | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 7370ead..40ee49b 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3317,6 +3317,10 @@ llvm::Value* WriteAST::CodeGen()
 	    ICE_IF(!type, "Expected type here");
 	    fn = CreateWriteFunc(type, dstTy, kind);
 	    ICE_IF(!fn, "Failed to generate write function");
+	    if (auto rd = llvm::dyn_cast<Types::RangeDecl>(type))
+	    {
+		type = rd->SubType();
+	    }
 	    if (llvm::isa<Types::StringDecl>(type))
 	    {
 		v = builder.CreateGEP(charTy, MakeAddressable(arg.expr), MakeIntegerConstant(0), "str_addr");
diff --git a/runtime/write.c b/runtime/write.c
index 9096161..7e5e2ef 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -189,7 +189,7 @@ void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
     else
     {
 	int   offset = e2s->offset[en];
-	int   len = e2s->strings[offset];
+	int   len = (unsigned char)e2s->strings[offset];
 	char* str = &e2s->strings[offset + 1];
 	__write_S_chars(strout, str, len, width);
     }
@@ -205,7 +205,7 @@ void __write_enum(File* file, int en, int width, struct EnumToString* e2s)
     else
     {
 	int   offset = e2s->offset[en];
-	int   len = e2s->strings[offset];
+	int   len = (unsigned char)e2s->strings[offset];
 	char* str = &e2s->strings[offset + 1];
 	__write_chars(file, str, len, width);
     }
diff --git a/types.cpp b/types.cpp
index 2beb9c5..08ca6e8 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1553,7 +1553,8 @@ namespace Types
 		new FieldDecl("offset", new ArrayDecl(Get<IntegerDecl>(), r), false)
 	    };
 	    enum2strType = new RecordDecl(fields, nullptr);
-	    ICE_IF(sizeof(EnumToString) != enum2strType->Size(),
+	    // The pointer may be of another size than on the machine that the compiler runs on.
+	    ICE_IF(sizeof(EnumToString) - sizeof(char*) != enum2strType->Size() - fields[0]->Size(),
 	           "Runtime and EnumToString type should match in size");
 	}
 	return enum2strType;
-- 
2.43.0


From a039ad5d090c23c0be097c2699367abdb93ebbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 49/57] fix: components and elements can be read from typed
 files, constants and functions cannot be read into

---
 semantics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index c920231..0407651 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -916,7 +916,7 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
     {
 	for (auto arg : r->args)
 	{
-	    if (!llvm::isa<AddressableAST>(arg))
+	    if (!llvm::isa<AddressableAST>(arg) || llvm::isa<StringExprAST, SetExprAST, FunctionExprAST>(arg))
 	    {
 		Error(arg, "Invalid argument for Read/ReadLN - must be a variable-expression");
 	    }
@@ -943,7 +943,7 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	else
 	{
 	    ExprAST* arg = r->args[0];
-	    if (!llvm::isa<VariableExprAST>(arg))
+	    if (!llvm::isa<AddressableAST>(arg) || llvm::isa<StringExprAST, SetExprAST, FunctionExprAST>(arg))
 	    {
 		Error(arg, "Invalid argument for read - must be a variable-expression");
 	    }
-- 
2.43.0


From 41d50215172604bfc06c6c77a1c56f34a53d1067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:54 +0000
Subject: [PATCH 50/57] fix: writestr into short strings and with the target as
 argument

---
 expr.cpp        | 10 ++++++++++
 runtime/write.c |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index 40ee49b..e7efe7a 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3285,8 +3285,11 @@ llvm::Value* WriteAST::CodeGen()
     llvm::Type*  voidPtrTy = Types::GetVoidPtrType();
     bool         isText = kind == WriteKind::WriteStr || llvm::isa<Types::TextDecl>(dest->Type());
     llvm::Type*  dstTy = dst->getType();
+    llvm::Value* target = dst;
     if (kind == WriteKind::WriteStr)
     {
+	// The target may be shorter than a full string, and may be one of the arguments.
+	dst = CreateTempAlloca(Types::Get<Types::StringDecl>(255));
 	llvm::FunctionCallee fc = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy },
 	                                      "__write_S_init");
 	v = builder.CreateCall(fc, { dst });
@@ -3416,6 +3419,13 @@ llvm::Value* WriteAST::CodeGen()
 	                                      "__write_nl");
 	v = builder.CreateCall(fc, dst);
     }
+    else if (kind == WriteKind::WriteStr)
+    {
+	llvm::Value*         capacity = MakeIntegerConstant(llvm::cast<Types::StringDecl>(dest->Type())->Capacity());
+	llvm::FunctionCallee fc = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+	                                      { dstTy, dstTy, capacity->getType() }, "__StrAssign");
+	v = builder.CreateCall(fc, { target, dst, capacity });
+    }
     return v;
 }
 
diff --git a/runtime/write.c b/runtime/write.c
index 7e5e2ef..fc008f8 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -17,6 +17,10 @@ void __write_S_init(String* str)
 
 static void SetStrResult(String* str, int n, const char* buffer)
 {
+    if (n < 0)
+    {
+	n = 0;
+    }
     // What does not fit is lost.
     if (n > MaxStringLen - str->len)
     {
-- 
2.43.0


From 1d43f54996fdbe45783fa1fea8ec65e7948a8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:54 +0000
Subject: [PATCH 51/57] fix: val, pack and unpack with elements, fields and
 subranges

---
 builtin.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 38990d7..e722a29 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1036,7 +1036,7 @@ namespace Builtin
 		{
 		    return ErrorType::WrongArgType;
 		}
-		if (!llvm::isa<VariableExprAST>(args[0]) || !llvm::isa<VariableExprAST>(args[2]))
+		if (!llvm::isa<AddressableAST>(args[0]) || !llvm::isa<AddressableAST>(args[2]))
 		{
 		    return ErrorType::WrongArgType;
 		}
@@ -1053,8 +1053,8 @@ namespace Builtin
     llvm::Value* FunctionPack::CodeGen(llvm::IRBuilder<>& builder)
     {
 	// Pack(X, n, Y) -> copy X to Y, starting at offset n
-	auto* var0 = llvm::dyn_cast<VariableExprAST>(args[0]);
-	auto* var2 = llvm::dyn_cast<VariableExprAST>(args[2]);
+	auto* var0 = llvm::dyn_cast<AddressableAST>(args[0]);
+	auto* var2 = llvm::dyn_cast<AddressableAST>(args[2]);
 
 	llvm::Value* start = args[1]->CodeGen();
 	auto*        ty0 = llvm::dyn_cast<Types::ArrayDecl>(args[0]->Type());
@@ -1091,7 +1091,7 @@ namespace Builtin
 		{
 		    return ErrorType::WrongArgType;
 		}
-		if (!llvm::isa<VariableExprAST>(args[0]) || !llvm::isa<VariableExprAST>(args[1]))
+		if (!llvm::isa<AddressableAST>(args[0]) || !llvm::isa<AddressableAST>(args[1]))
 		{
 		    return ErrorType::WrongArgType;
 		}
@@ -1108,8 +1108,8 @@ namespace Builtin
     llvm::Value* FunctionUnpack::CodeGen(llvm::IRBuilder<>& builder)
     {
 	// Unpack(X, Y, n) -> copy X to Y, starting at offset n
-	auto var0 = llvm::dyn_cast<VariableExprAST>(args[0]);
-	auto var1 = llvm::dyn_cast<VariableExprAST>(args[1]);
+	auto var0 = llvm::dyn_cast<AddressableAST>(args[0]);
+	auto var1 = llvm::dyn_cast<AddressableAST>(args[1]);
 
 	llvm::Value* start = args[2]->CodeGen();
 	auto         ty1 = llvm::dyn_cast<Types::ArrayDecl>(args[1]->Type());
@@ -1139,7 +1139,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgType;
 	}
-	if (!llvm::isa<VariableExprAST>(args[1]))
+	if (!llvm::isa<AddressableAST>(args[1]))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -1153,17 +1153,18 @@ namespace Builtin
     llvm::Value* FunctionVal::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	auto         var1 = llvm::dyn_cast<VariableExprAST>(args[1]);
+	auto         var1 = llvm::dyn_cast<AddressableAST>(args[1]);
+	auto         kind = var1->Type()->Type();
 	std::string  name = "__Val_";
-	if (llvm::isa<Types::IntegerDecl>(var1->Type()))
+	if (kind == Types::TypeDecl::TK_Integer)
 	{
 	    name += "int";
 	}
-	else if (llvm::isa<Types::Int64Decl>(var1->Type()))
+	else if (kind == Types::TypeDecl::TK_LongInt)
 	{
 	    name += "long";
 	}
-	else if (llvm::isa<Types::RealDecl>(var1->Type()))
+	else if (kind == Types::TypeDecl::TK_Real)
 	{
 	    name += "real";
 	}
-- 
2.43.0


From adc2fa27e57ddff2d411ad07ff2ab030c58613cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 52/57] fix: writeln and readln without arguments before else
 and until

---
 parser.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 82c0fbc..d723c2a 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -165,7 +165,7 @@ public:
     bool        Expect(Token::TokenType type, ExpectConsuming consumption, const char* file, int line);
     void        AssertToken(Token::TokenType type, const char* file, int line);
     bool        AcceptToken(Token::TokenType type, const char* file, int line);
-    bool        IsSemicolonOrEnd();
+    bool        IsEndOfStatement();
     bool        ExpectSemicolonOrEnd(const char* file, int line);
     std::string GetIdentifier(const char* file, int line, ExpectConsuming consumption);
 
@@ -377,9 +377,18 @@ bool Parser::Expect(Token::TokenType type, ExpectConsuming consumption, const ch
     return true;
 }
 
-bool Parser::IsSemicolonOrEnd()
+bool Parser::IsEndOfStatement()
 {
-    return (CurrentToken().GetToken() == Token::End || CurrentToken().GetToken() == Token::Semicolon);
+    switch (CurrentToken().GetToken())
+    {
+    case Token::Semicolon:
+    case Token::End:
+    case Token::Else:
+    case Token::Until:
+	return true;
+    default:
+	return false;
+    }
 }
 
 bool Parser::ExpectSemicolonOrEnd(const char* file, int line)
@@ -4404,7 +4413,7 @@ ExprAST* Parser::ParseWrite()
     const Location                  loc = CurrentToken().Loc();
     AddressableAST*                 dest;
     std::vector<WriteAST::WriteArg> args;
-    if (IsSemicolonOrEnd())
+    if (IsEndOfStatement())
     {
 	if (kind != WriteAST::WriteKind::WriteLn)
 	{
@@ -4499,7 +4508,7 @@ ExprAST* Parser::ParseRead()
 
     std::vector<ExprAST*> args;
     AddressableAST*       src = 0;
-    if (IsSemicolonOrEnd())
+    if (IsEndOfStatement())
     {
 	if (kind != ReadAST::ReadKind::ReadLn)
 	{
-- 
2.43.0


From 9bb0341cc00008c524eb1bb9ee763a0cc3ffcef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 53/57] fix: binding of a file with a name of 255 characters,
 paramstr of a negative number

---
 runtime/bind.c   | 5 ++++-
 runtime/params.c | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/runtime/bind.c b/runtime/bind.c
index 4b94d53..68772b1 100644
--- a/runtime/bind.c
+++ b/runtime/bind.c
@@ -13,7 +13,10 @@ struct BindingType __binding(File* f)
 	if (fe->name)
 	{
 	    size_t len = strlen(fe->name);
-	    assert(len < 255);
+	    if (len > MaxStringLen)
+	    {
+		len = MaxStringLen;
+	    }
 	    r.Name.len = len;
 	    memcpy(r.Name.str, fe->name, len);
 	    r.Bound = true;
diff --git a/runtime/params.c b/runtime/params.c
index c28b7a0..b39bcdf 100644
--- a/runtime/params.c
+++ b/runtime/params.c
@@ -7,7 +7,7 @@ extern int    c_argc;
 String __ParamStr(int n)
 {
     String s = { 0, "" };
-    if (n < c_argc)
+    if (n >= 0 && n < c_argc)
     {
 	size_t len = strlen(c_argv[n]);
 	if (len > 255)
-- 
2.43.0


From 4bce7b12a419ff53e192da4f59ceddfe690de43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 54/57] fix: time and date are strings, gettimestamp fills in
 the microseconds

---
 builtin.cpp            | 58 ++++++++++++------------------------------
 runtime/gettimestamp.c | 11 ++++----
 2 files changed, 21 insertions(+), 48 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index e722a29..26fc010 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -425,28 +425,20 @@ namespace Builtin
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
-    class FunctionTime : public FunctionBase
+    class FunctionTime : public FunctionString
     {
     public:
-	FunctionTime(const std::string& fn, ArgList& a);
-	ErrorType        Semantics() override;
-	llvm::Value*     CodeGen(llvm::IRBuilder<>& builder) override;
-	Types::TypeDecl* Type() const override { return arrayType; }
-
-    private:
-	Types::TypeDecl* arrayType;
+	using FunctionString::FunctionString;
+	ErrorType    Semantics() override;
+	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
-    class FunctionDate : public FunctionBase
+    class FunctionDate : public FunctionString
     {
     public:
-	FunctionDate(const std::string& fn, ArgList& a);
-	ErrorType        Semantics() override;
-	llvm::Value*     CodeGen(llvm::IRBuilder<>& builder) override;
-	Types::TypeDecl* Type() const override { return arrayType; }
-
-    private:
-	Types::TypeDecl* arrayType;
+	using FunctionString::FunctionString;
+	ErrorType    Semantics() override;
+	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
     class FunctionBinding : public FunctionFile
@@ -1644,13 +1636,6 @@ namespace Builtin
 	return builder.CreateCall(f, { tsaddr });
     }
 
-    FunctionTime::FunctionTime(const std::string& fn, ArgList& a) : FunctionBase(fn, a)
-    {
-	arrayType = new Types::ArrayDecl(
-	    Types::Get<Types::CharDecl>(),
-	    { new Types::RangeDecl(new Types::Range(1, 9), Types::Get<Types::IntegerDecl>()) });
-    }
-
     ErrorType FunctionTime::Semantics()
     {
 	if (args.size() != 1)
@@ -1666,24 +1651,15 @@ namespace Builtin
 
     llvm::Value* FunctionTime::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value* storage = CreateTempAlloca(arrayType);
+	llvm::Value* res = CreateTempAlloca(Type());
 	auto         ts = llvm::dyn_cast<AddressableAST>(args[0]);
 	llvm::Value* tsaddr = ts->Address();
-	llvm::Type*  charTy = Types::Get<Types::CharDecl>()->LlvmType();
 
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
-	                                     { tsaddr->getType(), storage->getType() }, "__Time");
-	builder.CreateCall(f, { tsaddr, storage });
-	llvm::Value* addr = builder.CreateGEP(charTy, storage, MakeIntegerConstant(0), "addr");
+	                                     { tsaddr->getType(), res->getType() }, "__Time");
+	builder.CreateCall(f, { tsaddr, res });
 
-	return addr;
-    }
-
-    FunctionDate::FunctionDate(const std::string& fn, ArgList& a) : FunctionBase(fn, a)
-    {
-	arrayType = new Types::ArrayDecl(
-	    Types::Get<Types::CharDecl>(),
-	    { new Types::RangeDecl(new Types::Range(1, 11), Types::Get<Types::IntegerDecl>()) });
+	return res;
     }
 
     ErrorType FunctionDate::Semantics()
@@ -1701,17 +1677,15 @@ namespace Builtin
 
     llvm::Value* FunctionDate::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value* storage = CreateTempAlloca(arrayType);
+	llvm::Value* res = CreateTempAlloca(Type());
 	auto         ts = llvm::dyn_cast<AddressableAST>(args[0]);
 	llvm::Value* tsaddr = ts->Address();
-	llvm::Type*  charTy = Types::Get<Types::CharDecl>()->LlvmType();
 
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
-	                                     { tsaddr->getType(), storage->getType() }, "__Date");
-	builder.CreateCall(f, { tsaddr, storage });
-	llvm::Value* addr = builder.CreateGEP(charTy, storage, MakeIntegerConstant(0), "addr");
+	                                     { tsaddr->getType(), res->getType() }, "__Date");
+	builder.CreateCall(f, { tsaddr, res });
 
-	return addr;
+	return res;
     }
 
     ErrorType FunctionBind::Semantics()
diff --git a/runtime/gettimestamp.c b/runtime/gettimestamp.c
index e47b15a..bd496ce 100644
--- a/runtime/gettimestamp.c
+++ b/runtime/gettimestamp.c
@@ -15,16 +15,15 @@ void __gettimestamp(struct TimeStamp* ts)
     ts->Hour = tt.tm_hour;
     ts->Minute = tt.tm_min;
     ts->Second = tt.tm_sec;
+    ts->MicroSecond = 0;
 }
 
-// Length: 8+nul = 9
-void __Time(struct TimeStamp* ts, char* dest)
+void __Time(struct TimeStamp* ts, String* dest)
 {
-    sprintf(dest, "%02d:%02d:%02d", ts->Hour, ts->Minute, ts->Second);
+    dest->len = sprintf((char*)dest->str, "%02d:%02d:%02d", ts->Hour, ts->Minute, ts->Second);
 }
 
-// Lenght: 10+nul = 11
-void __Date(struct TimeStamp* ts, char* dest)
+void __Date(struct TimeStamp* ts, String* dest)
 {
-    sprintf(dest, "%04d-%02d-%02d", ts->Year, ts->Month, ts->Day);
+    dest->len = sprintf((char*)dest->str, "%04d-%02d-%02d", ts->Year, ts->Month, ts->Day);
 }
-- 
2.43.0


From 7cfa41c56612ce6f7b47325c572e076100ee4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:11 +0000
Subject: [PATCH 55/57] fix: constant expressions: signed division, shifts,
 promotion of negative integers, signs and not

---
 constants.cpp | 145 +++++++++++++++++++++++++++++++++++++-------------
 parser.cpp    |  85 +++++++++++++++++++----------
 2 files changed, 163 insertions(+), 67 deletions(-)

diff --git a/constants.cpp b/constants.cpp
index 0efe3ee..ddef029 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -119,12 +119,12 @@ namespace Constants
 	{
 	    if (rhsI)
 	    {
-		rValue = rhsI->Value();
+		rValue = static_cast<int64_t>(rhsI->Value());
 		ok = true;
 	    }
 	    if (lhsI)
 	    {
-		lValue = lhsI->Value();
+		lValue = static_cast<int64_t>(lhsI->Value());
 		ok = true;
 	    }
 	}
@@ -241,12 +241,32 @@ namespace Constants
 	return v;
     }
 
+    static bool IsZero(const ConstDecl& c)
+    {
+	const auto ic = llvm::dyn_cast<IntConstDecl>(&c);
+	return ic && ic->Value() == 0;
+    }
+
+    // Signed division, which must not trap for the smallest value divided by -1
+    static std::pair<uint64_t, uint64_t> DivMod(int64_t lv, int64_t rv)
+    {
+	if (rv == -1)
+	{
+	    return { -static_cast<uint64_t>(lv), 0 };
+	}
+	return { lv / rv, lv % rv };
+    }
+
     ConstDecl* operator/(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	ConstDecl* v = DoRealMath(lhs, rhs, [](double lv, double rv) { return lv / rv; });
 	if (!v)
 	{
-	    v = DoIntegerMath(lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv / rv; });
+	    if (IsZero(rhs))
+	    {
+		return ErrorConst("Division by zero");
+	    }
+	    v = DoIntegerMath(lhs, rhs, [](uint64_t lv, uint64_t rv) { return DivMod(lv, rv).first; });
 	}
 	if (!v)
 	{
@@ -255,10 +275,23 @@ namespace Constants
 	return v;
     }
 
+    enum class BooleanOperands
+    {
+	NotAllowed,
+	Allowed,
+    };
+
     template<typename FN>
     static ConstDecl* IntegerOrErrorMath(const ConstDecl& lhs, const ConstDecl& rhs, FN func,
-                                         const std::string& oper)
+                                         const std::string& oper,
+                                         BooleanOperands    booleans = BooleanOperands::NotAllowed)
     {
+	const auto lhsB = llvm::dyn_cast<BoolConstDecl>(&lhs);
+	const auto rhsB = llvm::dyn_cast<BoolConstDecl>(&rhs);
+	if (booleans == BooleanOperands::Allowed && lhsB && rhsB)
+	{
+	    return new BoolConstDecl(Location(), func(lhsB->Value(), rhsB->Value()));
+	}
 	if (ConstDecl* v = DoIntegerMath(lhs, rhs, func))
 	{
 	    return v;
@@ -268,26 +301,30 @@ namespace Constants
 
     ConstDecl* operator%(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (IsZero(rhs))
+	{
+	    return ErrorConst("Division by zero");
+	}
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv % rv; }, "mod");
+	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return DivMod(lv, rv).second; }, "mod");
     }
 
     ConstDecl* operator&(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv & rv; }, "and");
+	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv & rv; }, "and", BooleanOperands::Allowed);
     }
 
     ConstDecl* operator|(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv | rv; }, "or");
+	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv | rv; }, "or", BooleanOperands::Allowed);
     }
 
     ConstDecl* operator^(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv ^ rv; }, "xor");
+	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv ^ rv; }, "xor", BooleanOperands::Allowed);
     }
 
     ConstDecl* operator<<(const ConstDecl& lhs, const ConstDecl& rhs)
@@ -299,7 +336,14 @@ namespace Constants
     ConstDecl* operator>>(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv >> rv; }, "shr");
+	    lhs, rhs,
+	    [](uint64_t lv, uint64_t rv)
+	    {
+		// The value of an integer has 32 bits.
+		bool isInt32 = static_cast<int64_t>(lv) == static_cast<int32_t>(lv);
+		return (isInt32 ? lv & UINT32_MAX : lv) >> rv;
+	    },
+	    "shr");
     }
 
     template<typename T>
@@ -313,27 +357,27 @@ namespace Constants
 	{
 	    return new EnumConstDecl(enumConst->Type(), enumConst->Loc(), func(enumConst->Value()));
 	}
+	if (auto charConst = llvm::dyn_cast<CharConstDecl>(cd))
+	{
+	    return new CharConstDecl(charConst->Loc(), func(charConst->Value()));
+	}
+	if (auto boolConst = llvm::dyn_cast<BoolConstDecl>(cd))
+	{
+	    return new BoolConstDecl(boolConst->Loc(), func(boolConst->Value()));
+	}
 	return 0;
     }
 
-    template<typename T>
-    static T PowerToInt(T x, int y)
+    static uint64_t PowerToInt(uint64_t x, uint64_t y)
     {
-	if (y == 0)
-	{
-	    return 1;
-	}
-	if (y < 0)
+	uint64_t res = 1;
+	for (; y; y >>= 1, x *= x)
 	{
-	    return 1 / PowerToInt(x, -y);
+	    if (y & 1)
+	    {
+		res *= x;
+	    }
 	}
-	ICE_IF(y <= 0, "Expect y > 0");
-	T res = 1;
-	do
-	{
-	    res *= x;
-	    y--;
-	} while (y > 0);
 	return res;
     }
 
@@ -344,28 +388,41 @@ namespace Constants
 	{
 	    return 0;
 	}
-	int y = intConst->Value();
+	int64_t y = intConst->Value();
 	if (auto ic = llvm::dyn_cast<IntConstDecl>(&lhs))
 	{
-	    int x = ic->Value();
-	    return new IntConstDecl(ic->Loc(), PowerToInt(x, y));
+	    int64_t x = ic->Value();
+	    if (y >= 0)
+	    {
+		return new IntConstDecl(ic->Loc(), PowerToInt(x, y));
+	    }
+	    if (x == 0)
+	    {
+		return ErrorConst("Division by zero");
+	    }
+	    if (x == 1 || x == -1)
+	    {
+		return new IntConstDecl(ic->Loc(), (y & 1) ? x : 1);
+	    }
+	    return new IntConstDecl(ic->Loc(), 0);
 	}
 
 	if (auto rc = llvm::dyn_cast<RealConstDecl>(&lhs))
 	{
-	    double x = rc->Value();
-	    return new RealConstDecl(rc->Loc(), PowerToInt(x, y));
+	    return new RealConstDecl(rc->Loc(), pow(rc->Value(), y));
 	}
-	return 0;
+	return ErrorConst("Invalid operand for pow");
     }
 
     ConstDecl* Power(const ConstDecl& lhs, const ConstDecl& rhs)
     {
-	const RealConstDecl* l = llvm::cast<RealConstDecl>(ToRealConstDecl(&lhs));
-	const RealConstDecl* r = llvm::cast<RealConstDecl>(ToRealConstDecl(&rhs));
-	double               x = l->Value();
-	double               y = r->Value();
-	return new RealConstDecl(l->Loc(), exp(log(x) * y));
+	const RealConstDecl* l = llvm::cast_or_null<RealConstDecl>(ToRealConstDecl(&lhs));
+	const RealConstDecl* r = llvm::cast_or_null<RealConstDecl>(ToRealConstDecl(&rhs));
+	if (!l || !r)
+	{
+	    return 0;
+	}
+	return new RealConstDecl(l->Loc(), pow(l->Value(), r->Value()));
     }
 
     using ConstArgs = std::vector<const ConstDecl*>;
@@ -422,8 +479,20 @@ namespace Constants
 	      }
 	      return UpdateValueSameType(args[0], [n](int64_t v) { return v - n; });
 	  } },
-	{ "ord", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
-	  { return new IntConstDecl(args[0]->Loc(), ToInt(args[0])); } },
+	{ "ord", 1, 1,
+	  [](const ConstArgs& args) -> const ConstDecl*
+	  {
+	      switch (args[0]->getKind())
+	      {
+	      case CK_IntConstDecl:
+	      case CK_CharConstDecl:
+	      case CK_EnumConstDecl:
+	      case CK_BoolConstDecl:
+	          return new IntConstDecl(args[0]->Loc(), ToInt(args[0]));
+	      default:
+	          return 0;
+	      }
+	  } },
 	{ "length", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
@@ -589,7 +658,7 @@ namespace Constants
 	}
 	if (auto ic = llvm::dyn_cast<IntConstDecl>(c))
 	{
-	    return new RealConstDecl(ic->Loc(), ic->Value());
+	    return new RealConstDecl(ic->Loc(), static_cast<int64_t>(ic->Value()));
 	}
 	return ErrorConst("Expected an integer constant");
     }
diff --git a/parser.cpp b/parser.cpp
index d723c2a..29b0de1 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -133,6 +133,8 @@ public:
     const Constants::ConstDecl* ParseConstRHS(int exprPrec, const Constants::ConstDecl* lhs);
     Constants::ConstDecl*       ParseConstEval(const Constants::ConstDecl* lhs, const Token& binOp,
                                                const Constants::ConstDecl* rhs);
+    const Constants::ConstDecl* ParseConstUnary(Token::TokenType unaryToken, const Constants::ConstDecl* cd,
+                                                const Location& loc);
     const Constants::ConstDecl* ParseConstTerm(const Location& loc);
     const Constants::ConstDecl* ParseConstFunction(const std::string& name);
     const Constants::ConstDecl* ParseConstSetExpr();
@@ -924,15 +926,20 @@ const Constants::ConstDecl* Parser::ParseConstFunction(const std::string& name)
 	for (;;)
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::RightParen });
+	    if (!cd)
+	    {
+		return 0;
+	    }
 	    args.push_back(cd);
 	    if (AcceptToken(Token::Comma))
 	    {
 		continue;
 	    }
-	    else if (Expect(Token::RightParen, ExpectConsume))
+	    if (!Expect(Token::RightParen, ExpectConsume))
 	    {
-		return Constants::EvalFunction(name, args);
+		return 0;
 	    }
+	    return Constants::EvalFunction(name, args);
 	}
     }
     return 0;
@@ -1002,6 +1009,45 @@ const Constants::ConstDecl* Parser::ParseConstSetExpr()
     return 0;
 }
 
+const Constants::ConstDecl* Parser::ParseConstUnary(Token::TokenType unaryToken, const Constants::ConstDecl* cd,
+                                                    const Location& loc)
+{
+    switch (unaryToken)
+    {
+    case Token::Minus:
+	if (const auto rd = llvm::dyn_cast<Constants::RealConstDecl>(cd))
+	{
+	    return new Constants::RealConstDecl(loc, -rd->Value());
+	}
+	if (const auto id = llvm::dyn_cast<Constants::IntConstDecl>(cd))
+	{
+	    return new Constants::IntConstDecl(loc, -id->Value());
+	}
+	return Error("Only integer and real constants can be negated");
+
+    case Token::Plus:
+	if (!llvm::isa<Constants::RealConstDecl, Constants::IntConstDecl>(cd))
+	{
+	    return Error("Unary + only allowed for integer and real constants");
+	}
+	return cd;
+
+    case Token::Not:
+	if (const auto bd = llvm::dyn_cast<Constants::BoolConstDecl>(cd))
+	{
+	    return new Constants::BoolConstDecl(loc, !bd->Value());
+	}
+	if (const auto id = llvm::dyn_cast<Constants::IntConstDecl>(cd))
+	{
+	    return new Constants::IntConstDecl(loc, ~id->Value());
+	}
+	return Error("Unary 'not' only allowed for integer and boolean constants");
+
+    default:
+	return cd;
+    }
+}
+
 const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 {
     TRACE();
@@ -1027,12 +1073,11 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
     case Token::LeftParen:
 	AssertToken(Token::LeftParen);
 	cd = ParseConstExpr({ Token::RightParen });
-	// We don't eat the right paren here, it gets eaten later.
-	if (!Expect(Token::RightParen, ExpectConsume))
+	if (!cd || !Expect(Token::RightParen, ExpectConsume))
 	{
 	    return 0;
 	}
-	break;
+	return ParseConstUnary(unaryToken, cd, loc);
 
     case Token::LeftSquare:
 	cd = ParseConstSetExpr();
@@ -1108,6 +1153,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	std::string name = GetIdentifier(NoExpectConsume);
 	if ((cd = ParseConstFunction(name)))
 	{
+	    return ParseConstUnary(unaryToken, cd, loc);
 	}
 	else if (const EnumDef* ed = GetEnumValue(name))
 	{
@@ -1140,30 +1186,8 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	    {
 		return 0;
 	    }
-	    if (llvm::isa<Constants::BoolConstDecl>(cd) && unaryToken == Token::Not)
-	    {
-		const auto bd = llvm::dyn_cast<Constants::BoolConstDecl>(cd);
-		cd = new Constants::BoolConstDecl(loc, !bd->Value());
-	    }
-
-	    if (mul == -1)
-	    {
-		if (const auto rd = llvm::dyn_cast<Constants::RealConstDecl>(cd))
-		{
-		    ;
-		    cd = new Constants::RealConstDecl(loc, -rd->Value());
-		}
-		else if (const auto id = llvm::dyn_cast<Constants::IntConstDecl>(cd))
-		{
-		    cd = new Constants::IntConstDecl(loc, -id->Value());
-		}
-		else
-		{
-		    return Error("Can't negate the type of " + CurrentToken().GetIdentName() +
-		                 " only integer and real types can be negated");
-		}
-	    }
 	    NextToken();
+	    return ParseConstUnary(unaryToken, cd, loc);
 	}
 	break;
     }
@@ -1202,7 +1226,10 @@ const Constants::ConstDecl* Parser::ParseConstRHS(int exprPrec, const Constants:
 		return 0;
 	    }
 	}
-	lhs = ParseConstEval(lhs, binOp, rhs);
+	if (!(lhs = ParseConstEval(lhs, binOp, rhs)))
+	{
+	    return 0;
+	}
     }
 }
 
-- 
2.43.0


From c5f41f21fbd1d5b8598f77a21166af1a25f27754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:31 +0000
Subject: [PATCH 56/57] fix: types of builtin functions of mixed expressions,
 complex functions of expressions, integer operands of complex expressions
 evaluated twice

---
 builtin.cpp   | 34 +++++++++++++++++++++-------------
 builtin.h     |  3 +++
 expr.cpp      |  2 +-
 semantics.cpp |  2 ++
 4 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 26fc010..7d15ec0 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -74,7 +74,7 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override { return args[0]->Type(); }
+	Types::TypeDecl* Type() const override { return TypeOfArg(0); }
 	ErrorType        Semantics() override;
     };
 
@@ -532,14 +532,25 @@ namespace Builtin
 	return ErrorType::Ok;
     }
 
+    Types::TypeDecl* FunctionBase::TypeOfArg(size_t i) const
+    {
+	if (i < args.size() && args[i]->Type())
+	{
+	    return args[i]->Type();
+	}
+	// Semantics() reports the missing argument.
+	return Types::Get<Types::IntegerDecl>();
+    }
+
     // The type both arguments can be converted to.
     Types::TypeDecl* FunctionSameAsArg2::Type() const
     {
-	if (llvm::isa<Types::RealDecl>(args[0]->Type()) || llvm::isa<Types::RealDecl>(args[1]->Type()))
+	if (llvm::isa<Types::RealDecl>(TypeOfArg(0)) ||
+	    llvm::isa<Types::RealDecl>(TypeOfArg(1)))
 	{
 	    return Types::Get<Types::RealDecl>();
 	}
-	return (args[1]->Type()->Size() > args[0]->Type()->Size()) ? args[1]->Type() : args[0]->Type();
+	return (TypeOfArg(1)->Size() > TypeOfArg(0)->Size()) ? TypeOfArg(1) : TypeOfArg(0);
     }
 
     ErrorType FunctionSameAsArg2::Semantics()
@@ -566,11 +577,11 @@ namespace Builtin
     /* Note that abs returnes "real" for complex, otherwise int or real depending on input type */
     Types::TypeDecl* FunctionAbs::Type() const
     {
-	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
+	if (llvm::isa<Types::ComplexDecl>(TypeOfArg(0)))
 	{
 	    return Types::Get<Types::RealDecl>();
 	}
-	return args[0]->Type();
+	return TypeOfArg(0);
     }
 
     llvm::Value* FunctionAbs::CodeGen(llvm::IRBuilder<>& builder)
@@ -579,8 +590,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 
 	    llvm::Value* re = builder.CreateLoad(ty, builder.CreateGEP(ty, a, zero, "re"));
@@ -634,8 +644,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 	    llvm::Type*     cplxTy = Types::Get<Types::ComplexDecl>()->LlvmType();
 
@@ -670,7 +679,7 @@ namespace Builtin
 
     Types::TypeDecl* FunctionFloat::Type() const
     {
-	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
+	if (llvm::isa<Types::ComplexDecl>(TypeOfArg(0)))
 	{
 	    return Types::Get<Types::ComplexDecl>();
 	}
@@ -839,7 +848,7 @@ namespace Builtin
     Types::TypeDecl* FunctionOrd::Type() const
     {
 	Types::TypeDecl* intTy = Types::Get<Types::IntegerDecl>();
-	return (args[0]->Type()->Size() > intTy->Size()) ? Types::Get<Types::Int64Decl>() : intTy;
+	return (TypeOfArg(0)->Size() > intTy->Size()) ? Types::Get<Types::Int64Decl>() : intTy;
     }
 
     llvm::Value* FunctionOrd::CodeGen(llvm::IRBuilder<>& builder)
@@ -1820,8 +1829,7 @@ namespace Builtin
 
     llvm::Value* FunctionReIm::CodeGen(llvm::IRBuilder<>& builder)
     {
-	auto         cmplx = llvm::dyn_cast<AddressableAST>(args[0]);
-	llvm::Value* caddr = cmplx->Address();
+	llvm::Value* caddr = MakeAddressable(args[0]);
 	llvm::Type*  realTy = Types::Get<Types::RealDecl>()->LlvmType();
 
 	return builder.CreateLoad(realTy,
diff --git a/builtin.h b/builtin.h
index 449271a..0324932 100644
--- a/builtin.h
+++ b/builtin.h
@@ -32,6 +32,9 @@ namespace Builtin
 	virtual ~FunctionBase() {}
 
     protected:
+	// Type of an argument, null when there aren't that many arguments
+	Types::TypeDecl* TypeOfArg(size_t i) const;
+
 	std::string           name;
 	std::vector<ExprAST*> args;
     };
diff --git a/expr.cpp b/expr.cpp
index e7efe7a..25e8bce 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4426,7 +4426,7 @@ llvm::Value* TypeCastAST::Address()
 
 	if (IsIntegral(current))
 	{
-	    re = builder.CreateSIToFP(expr->CodeGen(), realTy, "tofp");
+	    re = builder.CreateSIToFP(re, realTy, "tofp");
 	}
 	llvm::Value* im = MakeRealConstant(0.0);
 
diff --git a/semantics.cpp b/semantics.cpp
index 0407651..4f443bb 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -699,6 +699,8 @@ void TypeCheckVisitor::Check<BuiltinExprAST>(BuiltinExprAST* b)
 	Error(b, "Builtin function: '" + b->bif->Name() + "' wrong argument type(s)");
 	break;
     case Builtin::ErrorType::Ok:
+	// The types of the arguments are now known, so the type of the result is too.
+	b->SetType(b->bif->Type());
 	break;
     }
 }
-- 
2.43.0


From c0b774f68c00d9e0972f2d12f4146300cba949c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:48 +0000
Subject: [PATCH 57/57] fix: lexer: adjacent comments, malformed based and too
 large literals, byte 255, characters above 127, line of a token after blank
 lines

---
 lexer.cpp  | 50 +++++++++++++++++++++++++++++++++-----------------
 source.cpp |  4 ++--
 source.h   |  5 +++--
 token.cpp  |  2 ++
 4 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index 249a9fc..d344a0c 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -1,6 +1,8 @@
 #include "lexer.h"
 
 #include <cctype>
+#include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <iostream>
 #include <limits>
@@ -48,7 +50,7 @@ static Token ConvertFloat(const std::string& num, const Location& w)
     double v = 0;
     char*  endPtr = 0;
     v = strtod(num.c_str(), &endPtr);
-    if (*endPtr != 0)
+    if (*endPtr != 0 || std::isinf(v))
     {
 	return Token(Token::Overflow, w);
     }
@@ -60,8 +62,9 @@ static T SafeConvert(const std::string& num, bool& err, FN fn, int base)
 {
     err = false;
     char* endPtr = 0;
-    T     v = fn(num.c_str(), &endPtr, base);
-    if (*endPtr != 0 || (v == std::numeric_limits<T>::max() && errno == ERANGE))
+    errno = 0;
+    auto v = fn(num.c_str(), &endPtr, base);
+    if (num.empty() || *endPtr != 0 || errno == ERANGE || v > std::numeric_limits<T>::max())
     {
 	err = true;
     }
@@ -79,7 +82,7 @@ static Token ConvertInt(const std::string& num, const Location& w, int base)
     return Token(Token::Integer, w, v);
 }
 
-bool ValidForBase(char c, int base)
+bool ValidForBase(int c, int base)
 {
     if (base == 10)
 	return isdigit(c);
@@ -91,7 +94,7 @@ bool ValidForBase(char c, int base)
 	return true;
     }
 
-    c = std::tolower(static_cast<unsigned char>(c));
+    c = std::tolower(c);
     // We have base > 10, as base = 10 has already been done.
     return (isdigit(c) || (c >= 'a' && c < 'a' + (base - 10)));
 }
@@ -102,10 +105,12 @@ Token Lexer::NumberToken()
     const Location& w = Where();
     std::string     num;
     int             base = 10;
+    bool            based = false;
 
     if (ch == '$')
     {
 	base = 16;
+	based = true;
 	ch = NextChar();
     }
     num = static_cast<char>(ch);
@@ -125,9 +130,9 @@ Token Lexer::NumberToken()
 	{
 	case Intpart:
 	    ch = NextChar();
-	    while (ValidForBase(ch, base) || ch == '#')
+	    while (ValidForBase(ch, base) || (ch == '#' && !based))
 	    {
-		if (ch == '#' && base == 10)
+		if (ch == '#')
 		{
 		    ch = NextChar();
 		    bool err;
@@ -136,7 +141,9 @@ Token Lexer::NumberToken()
 		    {
 			return Token(Token::Unknown, w);
 		    }
+		    based = true;
 		    num = "";
+		    continue;
 		}
 		num += ch;
 		ch = NextChar();
@@ -180,11 +187,11 @@ Token Lexer::NumberToken()
 	}
 
 	// If the next char is a dot or an 'e'/'E', we have a floating point number.
-	if (ch == '.' && state != Fraction && base != 16)
+	if (ch == '.' && state == Intpart && !based)
 	{
 	    state = Fraction;
 	}
-	else if (state != Exponent && (ch == 'E' || ch == 'e'))
+	else if (state != Exponent && !based && (ch == 'E' || ch == 'e'))
 	{
 	    state = Exponent;
 	}
@@ -228,7 +235,7 @@ Token Lexer::StringToken()
     NextChar();
     if (str.size() == 1)
     {
-	return Token(Token::Char, w, (uint64_t)str[0]);
+	return Token(Token::Char, w, (uint64_t)(unsigned char)str[0]);
     }
     return Token(Token::StringLiteral, w, str);
 }
@@ -249,23 +256,28 @@ static const SingleCharToken singleCharTokenTable[] = {
 
 Token Lexer::GetToken()
 {
-    int             ch = CurChar();
-    const Location& w = Where();
+    int      ch = CurChar();
+    Location w = Where();
 
-    do
+    for (;;)
     {
 	while (isspace(ch))
 	{
 	    ch = NextChar();
 	}
 
+	// The token starts here, unless it is a comment.
+	if (Where().LineNumber() != w.LineNumber())
+	{
+	    w = Where();
+	}
 	if (ch == '{')
 	{
 	    while ((ch = NextChar()) != EOF && ch != '}')
 		;
 	    ch = NextChar();
 	}
-	if (ch == '(' && PeekChar() == '*')
+	else if (ch == '(' && PeekChar() == '*')
 	{
 	    NextChar(); /* Skip first * */
 	    while ((ch = NextChar()) != EOF && !(ch == '*' && PeekChar() == ')'))
@@ -274,15 +286,18 @@ Token Lexer::GetToken()
 	    ch = NextChar();
 	}
 	// C++ style comments.
-	if (ch == '/' && PeekChar() == '/')
+	else if (ch == '/' && PeekChar() == '/')
 	{
 	    do
 	    {
 		ch = NextChar();
 	    } while (ch != '\n' && ch != EOF);
 	}
-
-    } while (isspace(ch));
+	else
+	{
+	    break;
+	}
+    }
 
     // EOF -> return now...
     if (ch == EOF)
@@ -420,6 +435,7 @@ Token Lexer::GetToken()
 	return NumberToken();
     }
     // We really shouldn't get here!
+    NextChar();
     std::cerr << "ch=" << ch << std::endl;
     return Token(Token::Unknown, w);
 }
diff --git a/source.cpp b/source.cpp
index 8f057bd..2a8e1b4 100644
--- a/source.cpp
+++ b/source.cpp
@@ -1,9 +1,9 @@
 #include "source.h"
 #include <iostream>
 
-char FileSource::Get()
+int FileSource::Get()
 {
-    char ch = input.get();
+    int ch = input.get();
     if (ch == '\n')
     {
 	lineNo++;
diff --git a/source.h b/source.h
index 46c34c6..5fecc29 100644
--- a/source.h
+++ b/source.h
@@ -11,7 +11,8 @@ class Source
 {
 public:
     virtual ~Source() {}
-    virtual char Get() = 0;
+    // The next character, or EOF.
+    virtual int Get() = 0;
     virtual operator bool() const = 0;
     virtual operator Location() const = 0;
     virtual void PrintSource(uint32_t line) {}
@@ -21,7 +22,7 @@ class FileSource : public Source
 {
 public:
     FileSource(const std::string& name) : name(name), input(name), column(1), lineNo(1) { lineStart[1] = 0; }
-    char Get() override;
+    int  Get() override;
     operator bool() const override { return (bool)input; }
     operator Location() const override { return Location(name, lineNo, column); }
     void PrintSource(uint32_t line) override;
diff --git a/token.cpp b/token.cpp
index 21858bf..5f7714d 100644
--- a/token.cpp
+++ b/token.cpp
@@ -186,6 +186,8 @@ const TokenEntry tokenTable[] = {
     { Token::FileName, true, -1, "__FILE__" },
     { Token::SizeOf, true, -1, "sizeof" },
     { Token::Identifier, false, -1, "identifier" },
+    { Token::Overflow, false, -1, "malformed or too large number" },
+    { Token::UntermString, false, -1, "unterminated string" },
     { Token::Unknown, false, -1, "Unknown" },
     { Token::EndOfFile, false, -1, "EOF" },
 };
-- 
2.43.0

