// Hash-consed bit-vector expression DAG with constant folding and light normalisation.
#pragma once
#include <cstdint>
#include <llvm/ADT/APInt.h>
#include <memory>
#include <string>
#include <vector>
#include <z3.h>

enum class K : uint8_t
{
    Const, // width <= 64: val; wider: *wide
    Sym,   // val = symbol id
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Not, Eq, Ult, Ule, Slt, Sle,
    Concat,  // op0 = high part, op1 = low part
    Extract, // val = bit offset
    ZExt, SExt, Ite,
    // floating point on IEEE bit patterns (width of the result; NaN results canonical)
    FAdd, FSub, FMul, FDiv, FRem, FSqrt,
    FRound, // val: 0 trunc 1 floor 2 ceil 3 rint 4 round-half-away
    SIToFP, UIToFP, FPToSI, FPToUI, FPExt, FPTrunc,
    UF, // uninterpreted function: val = function id, args
};

struct Expr;
using E = const Expr*;
using VarSet = std::shared_ptr<const std::vector<uint32_t>>;

struct Expr
{
    K        k;
    uint32_t width;
    uint32_t id;
    uint32_t prov; // provenance of an address constant: object id + 1; 0 = none
    uint64_t val;
    uint64_t hash;
    E        op[3];
    const llvm::APInt* wide = nullptr;
    const std::vector<E>* args = nullptr;
    mutable VarSet   vars;
    mutable Z3_ast   z3 = nullptr;
    mutable uint64_t evEpoch = 0;
    mutable uint64_t evVal = 0;
    bool hasFP = false, hasMul = false, hasUF = false;

    bool isConst() const { return k == K::Const; }
    bool isC() const { return k == K::Const && width <= 64; }
    bool isTrue() const { return k == K::Const && width == 1 && val == 1; }
    bool isFalse() const { return k == K::Const && width == 1 && val == 0; }
};

struct SymInfo
{
    std::string name;
    unsigned    width;
    bool        input; // named by the harness, as opposed to undefined / uninitialised data
};
extern std::vector<SymInfo>     symbols;
extern std::vector<std::string> ufNames;

inline uint64_t maskOf(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t  sextOf(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskOf(w);
    return (int64_t)((v ^ m) - m);
}
double   bitsToD(uint64_t v);
uint64_t dToBits(double d); // canonical NaN
float    bitsToF(uint64_t v);
uint64_t fToBits(float f);

E           mkConst(uint64_t v, unsigned w, uint32_t prov = 0);
E           mkConstAP(const llvm::APInt& a);
llvm::APInt constAP(E e);
E           mkSym(const std::string& name, unsigned w, bool input);
E           mkUndef(unsigned w);
E           mkBin(K k, E a, E b);
E           mkNot(E a);
E           mkIte(E c, E t, E f);
E           mkExtract(E a, unsigned off, unsigned w);
E           mkConcat(E hi, E lo);
E           mkZExt(E a, unsigned w);
E           mkSExt(E a, unsigned w);
E           mkZTrunc(E a, unsigned w); // zero-extend or truncate to w
E           mkSTrunc(E a, unsigned w);
E           mkF(K k, unsigned w, E a, E b = nullptr, uint64_t val = 0);
E           mkUF(const std::string& name, unsigned w, const std::vector<E>& args);
inline E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }
inline E mkNe(E a, E b) { return mkNot(mkBin(K::Eq, a, b)); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkAnd(E a, E b) { return mkBin(K::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(K::Or, a, b); }
E stripProv(E e);

const VarSet& varsOf(E e);
// conservative unsigned interval
void urange(E e, uint64_t& lo, uint64_t& hi);
// value == res (mod stride) provided nothing wraps; stride 0 = constant
void strideOf(E e, uint64_t& stride, uint64_t& res);

E mkFIsNaN(E a);
E mkFCmp(unsigned llvmPred, E a, E b);

struct Model
{
    std::vector<uint64_t> v;
    uint64_t get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
    void     set(uint32_t id, uint64_t x)
    {
	if (v.size() <= id) v.resize(id + 1, 0);
	v[id] = x;
    }
};
void        newEvalEpoch();
bool        evalExpr(E e, const Model& m, uint64_t& out); // call newEvalEpoch() first for a new model
std::string exprStr(E e, int depth = 5);
uint64_t    exprCount();
// object ids that occur as provenance of address constants in e
void ptrProvs(E e, std::vector<uint32_t>& out);
