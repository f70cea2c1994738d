#include "expr.h"
#include <algorithm>
#include <map>
#include <cmath>
#include <cstring>
#include <numeric>
#include <unordered_map>

std::vector<SymInfo>     symbols;
std::vector<std::string> ufNames;
static std::unordered_map<std::string, uint32_t> ufIds;
static std::vector<E>    symExprs;

double bitsToD(uint64_t v)
{
    double d;
    memcpy(&d, &v, 8);
    return d;
}
uint64_t dToBits(double d)
{
    if (std::isnan(d)) return 0x7ff8000000000000ull;
    uint64_t v;
    memcpy(&v, &d, 8);
    return v;
}
float bitsToF(uint64_t v)
{
    uint32_t u = (uint32_t)v;
    float    f;
    memcpy(&f, &u, 4);
    return f;
}
uint64_t fToBits(float f)
{
    if (std::isnan(f)) return 0x7fc00000u;
    uint32_t u;
    memcpy(&u, &f, 4);
    return u;
}

// ---- hash consing -------------------------------------------------------------------------------------------------
static std::vector<Expr*> table(1 << 16, nullptr);
static uint64_t           count = 0;
static uint32_t           nextId = 1;

uint64_t exprCount() { return count; }

static uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

static void grow()
{
    std::vector<Expr*> nt(table.size() * 2, nullptr);
    uint64_t           m = nt.size() - 1;
    for (auto e : table)
    {
	if (!e) continue;
	uint64_t i = e->hash & m;
	while (nt[i]) i = (i + 1) & m;
	nt[i] = e;
    }
    table.swap(nt);
}

static bool sameNode(const Expr* e, K k, unsigned w, uint32_t prov, uint64_t val, E a, E b, E c,
                     const llvm::APInt* wide, const std::vector<E>* args)
{
    if (e->k != k || e->width != w || e->prov != prov || e->val != val || e->op[0] != a || e->op[1] != b ||
        e->op[2] != c)
	return false;
    if (wide) return e->wide && *e->wide == *wide;
    if (args) return e->args && *e->args == *args;
    return true;
}

static E make(K k, unsigned w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr, uint32_t prov = 0,
              const llvm::APInt* wide = nullptr, const std::vector<E>* args = nullptr)
{
    uint64_t h = mix((uint64_t)k * 131 + w, val);
    h = mix(h, prov);
    if (a) h = mix(h, a->id);
    if (b) h = mix(h, b->id + 7);
    if (c) h = mix(h, c->id + 13);
    if (wide)
	for (unsigned i = 0; i < wide->getNumWords(); i++) h = mix(h, wide->getRawData()[i]);
    if (args)
	for (auto x : *args) h = mix(h, x->id);
    uint64_t m = table.size() - 1;
    uint64_t i = h & m;
    while (table[i])
    {
	if (table[i]->hash == h && sameNode(table[i], k, w, prov, val, a, b, c, wide, args)) return table[i];
	i = (i + 1) & m;
    }
    Expr* e = new Expr();
    e->k = k;
    e->width = w;
    e->id = nextId++;
    e->prov = prov;
    e->val = val;
    e->hash = h;
    e->op[0] = a;
    e->op[1] = b;
    e->op[2] = c;
    if (wide) e->wide = new llvm::APInt(*wide);
    if (args) e->args = new std::vector<E>(*args);
    auto inherit = [&](E x) {
	if (!x) return;
	e->hasFP |= x->hasFP;
	e->hasMul |= x->hasMul;
	e->hasUF |= x->hasUF;
    };
    inherit(a);
    inherit(b);
    inherit(c);
    if (args)
	for (auto x : *args) inherit(x);
    if (k >= K::FAdd && k <= K::FPTrunc) e->hasFP = true;
    if (k == K::UF) e->hasUF = true;
    if (k == K::Mul || k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) e->hasMul = true;
    table[i] = e;
    count++;
    if (count * 2 > table.size()) grow();
    return e;
}

E mkConst(uint64_t v, unsigned w, uint32_t prov)
{
    if (w > 64) return mkConstAP(llvm::APInt(w, v));
    return make(K::Const, w, v & maskOf(w), nullptr, nullptr, nullptr, prov);
}

E mkConstAP(const llvm::APInt& a)
{
    if (a.getBitWidth() <= 64) return mkConst(a.getZExtValue(), a.getBitWidth());
    return make(K::Const, a.getBitWidth(), 0, nullptr, nullptr, nullptr, 0, &a);
}

llvm::APInt constAP(E e) { return e->width <= 64 ? llvm::APInt(e->width, e->val) : *e->wide; }

E mkSym(const std::string& name, unsigned w, bool input)
{
    uint32_t id = symbols.size();
    symbols.push_back({ name, w, input });
    E e = make(K::Sym, w, id);
    symExprs.push_back(e);
    return e;
}

static unsigned undefCount = 0;
E mkUndef(unsigned w)
{
    if (w > 64) return mkConcat(mkUndef(w - 64), mkUndef(64));
    return mkSym("undef" + std::to_string(undefCount++), w, false);
}

E stripProv(E e) { return e->k == K::Const && e->prov ? mkConst(e->val, e->width) : e; }

// ---- bit vector operations ----------------------------------------------------------------------------------------
static bool isPow2(uint64_t v) { return v && !(v & (v - 1)); }
static unsigned log2u(uint64_t v) { return 63 - __builtin_clzll(v); }

static E foldWide(K k, E a, E b)
{
    llvm::APInt x = constAP(a), y = constAP(b);
    switch (k)
    {
    case K::Add: return mkConstAP(x + y);
    case K::Sub: return mkConstAP(x - y);
    case K::Mul: return mkConstAP(x * y);
    case K::UDiv: return y.isZero() ? nullptr : mkConstAP(x.udiv(y));
    case K::SDiv: return y.isZero() ? nullptr : mkConstAP(x.sdiv(y));
    case K::URem: return y.isZero() ? nullptr : mkConstAP(x.urem(y));
    case K::SRem: return y.isZero() ? nullptr : mkConstAP(x.srem(y));
    case K::And: return mkConstAP(x & y);
    case K::Or: return mkConstAP(x | y);
    case K::Xor: return mkConstAP(x ^ y);
    case K::Shl: return mkConstAP(x.shl(y));
    case K::LShr: return mkConstAP(x.lshr(y));
    case K::AShr: return mkConstAP(x.ashr(y));
    case K::Eq: return mkConst(x == y, 1);
    case K::Ult: return mkConst(x.ult(y), 1);
    case K::Ule: return mkConst(x.ule(y), 1);
    case K::Slt: return mkConst(x.slt(y), 1);
    case K::Sle: return mkConst(x.sle(y), 1);
    default: return nullptr;
    }
}

static E foldC(K k, E a, E b)
{
    unsigned w = a->width;
    uint64_t x = a->val, y = b->val, m = maskOf(w);
    int64_t  sx = sextOf(x, w), sy = sextOf(y, w);
    switch (k)
    {
    case K::Add:
	return mkConst(x + y, w, a->prov ? (b->prov ? 0 : a->prov) : b->prov);
    case K::Sub:
	return mkConst(x - y, w, b->prov ? 0 : a->prov);
    case K::Mul: return mkConst(x * y, w);
    case K::UDiv: return y ? mkConst(x / y, w) : mkConst(m, w);
    case K::SDiv:
	if (!y) return nullptr;
	if (sy == -1) return mkConst(-x, w);
	return mkConst(sx / sy, w);
    case K::URem: return y ? mkConst(x % y, w) : a;
    case K::SRem:
	if (!y) return nullptr;
	if (sy == -1) return mkConst(0, w);
	return mkConst(sx % sy, w);
    case K::And: return mkConst(x & y, w, a->prov && !b->prov ? a->prov : (b->prov && !a->prov ? b->prov : 0));
    case K::Or: return mkConst(x | y, w, a->prov && !b->prov ? a->prov : (b->prov && !a->prov ? b->prov : 0));
    case K::Xor: return mkConst(x ^ y, w);
    case K::Shl: return mkConst(y >= w ? 0 : x << y, w);
    case K::LShr: return mkConst(y >= w ? 0 : x >> y, w);
    case K::AShr: return mkConst(y >= w ? (sx < 0 ? m : 0) : (uint64_t)(sx >> y), w);
    case K::Eq: return mkConst(x == y, 1);
    case K::Ult: return mkConst(x < y, 1);
    case K::Ule: return mkConst(x <= y, 1);
    case K::Slt: return mkConst(sx < sy, 1);
    case K::Sle: return mkConst(sx <= sy, 1);
    default: return nullptr;
    }
}

E mkNot(E a)
{
    if (a->isConst())
    {
	if (a->width <= 64) return mkConst(~a->val, a->width);
	return mkConstAP(~constAP(a));
    }
    if (a->k == K::Not) return a->op[0];
    if (a->width == 1)
    {
	// canonical negation of orders
	if (a->k == K::Ult) return mkBin(K::Ule, a->op[1], a->op[0]);
	if (a->k == K::Ule) return mkBin(K::Ult, a->op[1], a->op[0]);
	if (a->k == K::Slt) return mkBin(K::Sle, a->op[1], a->op[0]);
	if (a->k == K::Sle) return mkBin(K::Slt, a->op[1], a->op[0]);
    }
    return make(K::Not, a->width, 0, a);
}

// Polynomial over the ring of integers mod 2^w: monomial (sorted atom ids) -> coefficient.  Settles the equality of
// terms that differ only by reassociation, distribution or the way constants are multiplied in.
using Mono = std::vector<uint32_t>;
using Poly = std::map<Mono, uint64_t>;
static bool toPoly(E e, unsigned w, uint64_t coef, Poly& out, int& budget);
static bool polyMul(const Poly& x, const Poly& y, uint64_t coef, Poly& out)
{
    if (x.size() * y.size() > 256) return false;
    for (auto& p : x)
	for (auto& q : y)
	{
	    Mono m = p.first;
	    m.insert(m.end(), q.first.begin(), q.first.end());
	    if (m.size() > 12) return false;
	    std::sort(m.begin(), m.end());
	    out[m] += p.second * q.second * coef;
	}
    return out.size() <= 256;
}
static bool toPoly(E e, unsigned w, uint64_t coef, Poly& out, int& budget)
{
    if (--budget < 0 || e->width > 64) return false;
    switch (e->k)
    {
    case K::Const: out[{}] += coef * e->val; return true;
    case K::Add: return toPoly(e->op[0], w, coef, out, budget) && toPoly(e->op[1], w, coef, out, budget);
    case K::Sub: return toPoly(e->op[0], w, coef, out, budget) && toPoly(e->op[1], w, 0 - coef, out, budget);
    case K::Mul:
    {
	if (e->op[0]->isC()) return toPoly(e->op[1], w, coef * e->op[0]->val, out, budget);
	if (e->op[1]->isC()) return toPoly(e->op[0], w, coef * e->op[1]->val, out, budget);
	Poly x, y;
	return toPoly(e->op[0], w, 1, x, budget) && toPoly(e->op[1], w, 1, y, budget) && polyMul(x, y, coef, out);
    }
    case K::Shl:
	if (e->op[1]->isC())
	{
	    if (e->op[1]->val >= e->width) return true;
	    return toPoly(e->op[0], w, coef << e->op[1]->val, out, budget);
	}
	break;
    case K::Not:
	if (e->width < 2) break;
	out[{}] -= coef;
	return toPoly(e->op[0], w, 0 - coef, out, budget);
    case K::Extract:
	if (e->val == 0) return toPoly(e->op[0], w, coef, out, budget);
	break;
    default: break;
    }
    E t = e->width > w ? mkExtract(e, 0, w) : e;
    if (t != e && t->k != K::Extract) return toPoly(t, w, coef, out, budget);
    out[{ t->id }] += coef;
    return true;
}
// 1 equal, 0 different, -1 unknown
static int polyCompare(E a, E b)
{
    auto isArith = [](E e) { return e->k == K::Add || e->k == K::Sub || e->k == K::Mul || e->k == K::Shl || e->k == K::Extract; };
    if (a->width > 64 || a->width < 8 || !(isArith(a) || isArith(b))) return -1;
    int  budget = 400;
    Poly p;
    if (!toPoly(a, a->width, 1, p, budget) || !toPoly(b, a->width, (uint64_t)0 - 1, p, budget)) return -1;
    uint64_t m = maskOf(a->width);
    for (auto& t : p)
	if (!t.first.empty() && (t.second & m)) return -1;
    auto c = p.find({});
    return c == p.end() || !(c->second & m);
}

static E mkEqSimpl(E a, E b)
{
    if (a == b) return mkTrue();
    if (b->isConst() && !a->isConst()) std::swap(a, b);
    if (a->width == 1)
    {
	if (a->isTrue()) return b;
	if (a->isFalse()) return mkNot(b);
    }
    if (a->isC())
    {
	uint64_t c = a->val;
	switch (b->k)
	{
	case K::ZExt:
	{
	    unsigned w = b->op[0]->width;
	    if (c & ~maskOf(w)) return mkFalse();
	    return mkEq(mkConst(c, w), b->op[0]);
	}
	case K::SExt:
	{
	    unsigned w = b->op[0]->width;
	    if ((uint64_t)sextOf(c, a->width) != (uint64_t)sextOf(c, w)) return mkFalse();
	    return mkEq(mkConst(c, w), b->op[0]);
	}
	case K::Add:
	    if (b->op[0]->isC()) return mkEq(mkBin(K::Sub, a, b->op[0]), b->op[1]);
	    break;
	case K::Sub:
	    if (c == 0) return mkEq(b->op[0], b->op[1]);
	    break;
	case K::Xor:
	    if (b->op[0]->isC()) return mkEq(mkBin(K::Xor, a, b->op[0]), b->op[1]);
	    if (c == 0) return mkEq(b->op[0], b->op[1]);
	    break;
	case K::Not: return mkEq(mkNot(a), b->op[0]);
	case K::Concat:
	{
	    unsigned lw = b->op[1]->width;
	    return mkAnd(mkEq(mkConst(lw >= 64 ? 0 : c >> lw, b->op[0]->width), b->op[0]),
	                 mkEq(mkConst(c, lw), b->op[1]));
	}
	case K::Ite:
	    if (b->op[1]->isConst() || b->op[2]->isConst())
	    {
		E t = mkEq(a, b->op[1]), f = mkEq(a, b->op[2]);
		if (t->isConst() || f->isConst()) return mkIte(b->op[0], t, f);
	    }
	    break;
	default: break;
	}
	uint64_t lo, hi;
	urange(b, lo, hi);
	if (c < lo || c > hi) return mkFalse();
    }
    if (a->k == K::ZExt && b->k == K::ZExt && a->op[0]->width == b->op[0]->width)
	return mkEq(a->op[0], b->op[0]);
    if (a->k == K::SExt && b->k == K::SExt && a->op[0]->width == b->op[0]->width)
	return mkEq(a->op[0], b->op[0]);
    if (a->k == K::Add && b->k == K::Add && a->op[0] == b->op[0]) return mkEq(a->op[1], b->op[1]);
    switch (polyCompare(a, b))
    {
    case 1: return mkTrue();
    case 0: return mkFalse();
    default: break;
    }
    if (a->id > b->id && !a->isConst()) std::swap(a, b);
    return make(K::Eq, 1, 0, a, b);
}

E mkBin(K k, E a, E b)
{
    if (a->width != b->width)
    {
	fprintf(stderr, "width mismatch in mkBin %d: %u %u\n", (int)k, a->width, b->width);
	abort();
    }
    unsigned w = a->width;
    if (a->isConst() && b->isConst())
    {
	E r = w <= 64 ? foldC(k, a, b) : foldWide(k, a, b);
	if (r) return r;
	return make(k, w, 0, a, b);
    }
    if (k == K::Eq) return mkEqSimpl(a, b);
    bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor;
    if (comm)
    {
	if (b->isConst() && !a->isConst())
	    std::swap(a, b);
	else if (!a->isConst() && a->id > b->id)
	    std::swap(a, b);
    }
    bool     ac = a->isC(), bc = b->isC();
    uint64_t av = ac ? a->val : 0, bv = bc ? b->val : 0;
    switch (k)
    {
    case K::Add:
	if (ac && av == 0 && !a->prov) return b;
	if (ac && b->k == K::Add && b->op[0]->isC())
	    return mkBin(K::Add, mkBin(K::Add, a, b->op[0]), b->op[1]);
	if (ac && b->k == K::Sub && b->op[0]->isC())
	    return mkBin(K::Sub, mkBin(K::Add, a, b->op[0]), b->op[1]);
	if (!ac && b->k == K::Add && b->op[0]->isC())
	    return mkBin(K::Add, b->op[0], mkBin(K::Add, a, b->op[1]));
	if (!ac && a->k == K::Add && a->op[0]->isC())
	    return mkBin(K::Add, a->op[0], mkBin(K::Add, a->op[1], b));
	if (b->k == K::Sub && b->op[1] == a) return b->op[0];
	if (a->k == K::Sub && a->op[1] == b) return a->op[0];
	if (w == 1) return mkBin(K::Xor, a, b);
	if (a == b && w <= 64) return mkBin(K::Shl, a, mkConst(1, w));
	break;
    case K::Sub:
	if (a == b) return mkConst(0, w);
	if (bc && !b->prov) return mkBin(K::Add, mkConst(-bv, w), a);
	if (ac && b->k == K::Add && b->op[0]->isC())
	    return mkBin(K::Sub, mkBin(K::Sub, a, b->op[0]), b->op[1]);
	if (a->k == K::Add && a->op[0] == b) return a->op[1];
	if (a->k == K::Add && a->op[1] == b) return a->op[0];
	if (a->k == K::Add && b->k == K::Add && a->op[0]->isC() && b->op[0]->isC())
	    return mkBin(K::Add, mkBin(K::Sub, a->op[0], b->op[0]), mkBin(K::Sub, a->op[1], b->op[1]));
	if (a->k == K::Add && a->op[0]->isC() && a->op[0]->prov == 0 && !bc)
	    return mkBin(K::Add, a->op[0], mkBin(K::Sub, a->op[1], b));
	if (a->k == K::Add && a->op[0]->isC() && !bc)
	    return mkBin(K::Add, a->op[0], mkBin(K::Sub, a->op[1], b));
	if (bc && b->prov && a->k == K::Add && a->op[0]->isC())
	    return mkBin(K::Add, mkBin(K::Sub, a->op[0], b), a->op[1]);
	if (w == 1) return mkBin(K::Xor, a, b);
	break;
    case K::Mul:
	if (ac)
	{
	    if (av == 0) return a;
	    if (av == 1) return b;
	    if (isPow2(av)) return mkBin(K::Shl, b, mkConst(log2u(av), w));
	    if (b->k == K::Mul && b->op[0]->isC()) return mkBin(K::Mul, mkBin(K::Mul, a, b->op[0]), b->op[1]);
	    // constants out of sums
	    if (b->k == K::Add && b->op[0]->isC() && !b->op[0]->prov && !a->prov)
		return mkBin(K::Add, mkBin(K::Mul, a, b->op[0]), mkBin(K::Mul, a, b->op[1]));
	}
	if (w == 1) return mkBin(K::And, a, b);
	break;
    case K::UDiv:
	if (bc && bv == 1) return a;
	if (bc && isPow2(bv)) return mkBin(K::LShr, a, mkConst(log2u(bv), w));
	if (bc && bv && w <= 64)
	{
	    uint64_t lo, hi;
	    urange(a, lo, hi);
	    if (lo / bv == hi / bv) return mkConst(lo / bv, w);
	}
	break;
    case K::SDiv:
	if (bc && bv == 1) return a;
	break;
    case K::URem:
	if (bc && bv == 1) return mkConst(0, w);
	if (bc && isPow2(bv)) return mkBin(K::And, mkConst(bv - 1, w), a);
	if (bc && bv && w <= 64)
	{
	    uint64_t lo, hi;
	    urange(a, lo, hi);
	    if (hi < bv) return a;
	}
	break;
    case K::SRem:
	if (bc && (bv == 1 || bv == maskOf(w))) return mkConst(0, w);
	break;
    case K::And:
	if (a == b) return a;
	if (ac && av == 0) return mkConst(0, w);
	if (ac && av == maskOf(w)) return b;
	if (a->k == K::Not && a->op[0] == b) return mkConst(0, w);
	if (b->k == K::Not && b->op[0] == a) return mkConst(0, w);
	if (ac && b->k == K::And && b->op[0]->isC()) return mkBin(K::And, mkBin(K::And, a, b->op[0]), b->op[1]);
	if (ac && b->k == K::Ite && b->op[1]->isC() && b->op[2]->isC())
	    return mkIte(b->op[0], mkBin(K::And, a, b->op[1]), mkBin(K::And, a, b->op[2]));
	if (ac && w > 1)
	{
	    // contiguous mask -> extract
	    unsigned lo = __builtin_ctzll(av);
	    uint64_t sh = av >> lo;
	    if (isPow2(sh + 1) || sh == ~0ull)
	    {
		unsigned len = sh == ~0ull ? 64 : log2u(sh + 1);
		E        x = mkExtract(b, lo, len);
		if (lo) x = mkConcat(x, mkConst(0, lo));
		return mkZExt(x, w);
	    }
	}
	if (w == 1)
	{
	    // absorb: a & (a & b)
	    if (b->k == K::And && (b->op[0] == a || b->op[1] == a)) return b;
	    if (a->k == K::And && (a->op[0] == b || a->op[1] == b)) return a;
	}
	break;
    case K::Or:
	if (a == b) return a;
	if (ac && av == 0) return b;
	if (ac && av == maskOf(w)) return mkConst(maskOf(w), w);
	if (a->k == K::Not && a->op[0] == b) return mkConst(maskOf(w), w);
	if (b->k == K::Not && b->op[0] == a) return mkConst(maskOf(w), w);
	if (ac && b->k == K::Or && b->op[0]->isC()) return mkBin(K::Or, mkBin(K::Or, a, b->op[0]), b->op[1]);
	// (x concat 0_n) | zext(y_n) -> concat
	{
	    auto tryMerge = [&](E p, E q) -> E {
		// p = [zext](concat(hi, 0_n)), q = zext(lo) with lo->width <= n
		E core = p->k == K::ZExt ? p->op[0] : p;
		if (core->k == K::Concat && core->op[1]->isC() && core->op[1]->val == 0)
		{
		    unsigned n = core->op[1]->width;
		    if (q->k == K::ZExt && q->op[0]->width <= n)
			return mkZExt(mkConcat(core->op[0], mkZExt(q->op[0], n)), w);
		    if (q->isC() && n < 64 && q->val <= maskOf(n))
			return mkZExt(mkConcat(core->op[0], mkConst(q->val, n)), w);
		}
		return nullptr;
	    };
	    if (E r = tryMerge(a, b)) return r;
	    if (E r = tryMerge(b, a)) return r;
	}
	// '0' + digit: better as a sum, the zero is subtracted again when the number is read
	if (w == 8 && ac && av == '0' && b->k == K::ZExt && b->op[0]->width <= 4) return mkBin(K::Add, a, b);
	break;
    case K::Xor:
	if (a == b) return mkConst(0, w);
	if (ac && av == 0) return b;
	if (ac && av == maskOf(w)) return mkNot(b);
	if (ac && b->k == K::Xor && b->op[0]->isC()) return mkBin(K::Xor, mkBin(K::Xor, a, b->op[0]), b->op[1]);
	break;
    case K::Shl:
	if (bc && w <= 64)
	{
	    if (bv == 0) return a;
	    if (bv >= w) return mkConst(0, w);
	    return mkConcat(mkExtract(a, 0, w - bv), mkConst(0, bv));
	}
	if (ac && av == 0) return a;
	break;
    case K::LShr:
	if (bc && w <= 64)
	{
	    if (bv == 0) return a;
	    if (bv >= w) return mkConst(0, w);
	    return mkZExt(mkExtract(a, bv, w - bv), w);
	}
	if (ac && av == 0) return a;
	break;
    case K::AShr:
	if (bc && w <= 64)
	{
	    if (bv == 0) return a;
	    if (bv >= w) bv = w - 1;
	    return mkSExt(mkExtract(a, bv, w - bv), w);
	}
	break;
    case K::Ult:
	if (a == b) return mkFalse();
	if (bc && bv == 0) return mkFalse();
	if (bc && bv == 1) return mkEq(mkConst(0, w), a);
	if (ac && av == maskOf(w)) return mkFalse();
	if (ac && av == 0 && w <= 64) return mkNe(a, b);
	if (w <= 64)
	{
	    uint64_t l1, h1, l2, h2;
	    urange(a, l1, h1);
	    urange(b, l2, h2);
	    if (h1 < l2) return mkTrue();
	    if (l1 >= h2) return mkFalse();
	    if (a->k == K::ZExt && b->k == K::ZExt)
	    {
		unsigned mw = std::max(a->op[0]->width, b->op[0]->width);
		return mkBin(K::Ult, mkZExt(a->op[0], mw), mkZExt(b->op[0], mw));
	    }
	    if (a->k == K::ZExt && bc && bv <= maskOf(a->op[0]->width))
		return mkBin(K::Ult, a->op[0], mkConst(bv, a->op[0]->width));
	    if (b->k == K::ZExt && ac && av <= maskOf(b->op[0]->width))
		return mkBin(K::Ult, mkConst(av, b->op[0]->width), b->op[0]);
	    if (w == 1) return mkAnd(mkNot(a), b);
	}
	break;
    case K::Ule:
	if (a == b) return mkTrue();
	if (ac && av == 0) return mkTrue();
	if (bc && bv == maskOf(w)) return mkTrue();
	if (bc && bv == 0) return mkEq(b, a);
	if (w <= 64)
	{
	    uint64_t l1, h1, l2, h2;
	    urange(a, l1, h1);
	    urange(b, l2, h2);
	    if (h1 <= l2) return mkTrue();
	    if (l1 > h2) return mkFalse();
	    if (a->k == K::ZExt && b->k == K::ZExt)
	    {
		unsigned mw = std::max(a->op[0]->width, b->op[0]->width);
		return mkBin(K::Ule, mkZExt(a->op[0], mw), mkZExt(b->op[0], mw));
	    }
	    if (a->k == K::ZExt && bc && bv <= maskOf(a->op[0]->width))
		return mkBin(K::Ule, a->op[0], mkConst(bv, a->op[0]->width));
	    if (b->k == K::ZExt && ac && av <= maskOf(b->op[0]->width))
		return mkBin(K::Ule, mkConst(av, b->op[0]->width), b->op[0]);
	    if (w == 1) return mkOr(mkNot(a), b);
	}
	break;
    case K::Slt:
    case K::Sle:
	if (a == b) return k == K::Sle ? mkTrue() : mkFalse();
	if (w <= 64)
	{
	    uint64_t l1, h1, l2, h2;
	    urange(a, l1, h1);
	    urange(b, l2, h2);
	    uint64_t half = maskOf(w) >> 1;
	    // same-sign intervals: signed comparison = unsigned comparison
	    bool an = h1 <= half, bn = h2 <= half;       // non negative
	    bool aneg = l1 > half, bneg = l2 > half;     // negative
	    if ((an && bn) || (aneg && bneg)) return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
	    if (an && bneg) return mkFalse();
	    if (aneg && bn) return mkTrue();
	    if (a->k == K::SExt && b->k == K::SExt && a->op[0]->width == b->op[0]->width)
		return mkBin(k, a->op[0], b->op[0]);
	    if (a->k == K::SExt && bc && sextOf(bv, w) == sextOf(bv, a->op[0]->width))
		return mkBin(k, a->op[0], mkConst(bv, a->op[0]->width));
	    if (b->k == K::SExt && ac && sextOf(av, w) == sextOf(av, b->op[0]->width))
		return mkBin(k, mkConst(av, b->op[0]->width), b->op[0]);
	    // SExt against an out-of-range constant
	    if (a->k == K::SExt && bc)
		return mkConst(sextOf(bv, w) > 0 ? 1 : 0, 1);
	    if (b->k == K::SExt && ac)
		return mkConst(sextOf(av, w) < 0 ? 1 : 0, 1);
	    if (k == K::Slt && bc && sextOf(bv, w) == sextOf(1ull << (w - 1), w)) return mkFalse();
	    if (k == K::Sle && ac && sextOf(av, w) == sextOf(1ull << (w - 1), w)) return mkTrue();
	    if (k == K::Sle && bc && bv == half) return mkTrue();
	}
	break;
    default: break;
    }
    // push constants into ites with constant arms
    if (w <= 64)
    {
	if (ac && b->k == K::Ite && b->op[1]->isC() && b->op[2]->isC())
	    return mkIte(b->op[0], mkBin(k, a, b->op[1]), mkBin(k, a, b->op[2]));
	if (bc && a->k == K::Ite && a->op[1]->isC() && a->op[2]->isC() &&
	    !(bv == 0 && (k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem)))
	    return mkIte(a->op[0], mkBin(k, a->op[1], b), mkBin(k, a->op[2], b));
    }
    bool cmp = k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle;
    return make(k, cmp ? 1 : w, 0, a, b);
}

E mkIte(E c, E t, E f)
{
    if (c->isTrue()) return t;
    if (c->isFalse()) return f;
    if (t == f) return t;
    if (c->k == K::Not) return mkIte(c->op[0], f, t);
    if (t->width == 1)
    {
	if (t->isTrue()) return mkOr(c, f);
	if (t->isFalse()) return mkAnd(mkNot(c), f);
	if (f->isTrue()) return mkOr(mkNot(c), t);
	if (f->isFalse()) return mkAnd(c, t);
    }
    if (t->k == K::Ite && t->op[0] == c) t = t->op[1];
    if (f->k == K::Ite && f->op[0] == c) f = f->op[2];
    if (t == f) return t;
    if (f->k == K::Ite && f->op[1] == t) return mkIte(mkOr(c, f->op[0]), t, f->op[2]);
    return make(K::Ite, t->width, 0, c, t, f);
}

E mkExtract(E a, unsigned off, unsigned w)
{
    if (off == 0 && w == a->width) return a;
    if (off + w > a->width)
    {
	fprintf(stderr, "bad extract\n");
	abort();
    }
    if (w == 1 && a->width <= 64 && (a->k == K::Ite || a->k == K::Or || a->k == K::And || a->k == K::Xor || a->k == K::Shl || a->k == K::LShr))
    {
	// single bits of masks and bit sets become conditions on the shift amounts
	static std::unordered_map<uint64_t, E> memo;
	uint64_t key = (uint64_t)a->id * 64 + off;
	auto it = memo.find(key);
	if (it != memo.end()) return it->second;
	E r = nullptr;
	switch (a->k)
	{
	case K::Ite: r = mkIte(a->op[0], mkExtract(a->op[1], off, 1), mkExtract(a->op[2], off, 1)); break;
	case K::And: case K::Or: case K::Xor: r = mkBin(a->k, mkExtract(a->op[0], off, 1), mkExtract(a->op[1], off, 1)); break;
	default:
	{
	    E v = a->op[0], sh = a->op[1];
	    uint64_t ones = 0; // bits of v that may be set
	    if (v->isC() && !v->prov) ones = v->val;
	    else if (v->k == K::ZExt) ones = maskOf(v->op[0]->width);
	    else ones = maskOf(v->width);
	    if (__builtin_popcountll(ones) > 2) break;
	    r = mkFalse();
	    for (unsigned i = 0; i < a->width; i++)
		if (ones >> i & 1)
		{
		    if (a->k == K::Shl ? i > off : i < off) continue;
		    uint64_t d = a->k == K::Shl ? off - i : i - off;
		    r = mkOr(r, mkAnd(mkExtract(v, i, 1), mkEq(mkConst(d, sh->width), sh)));
		}
	}
	}
	if (r)
	{
	    memo[key] = r;
	    return r;
	}
    }
    switch (a->k)
    {
    case K::Const:
	if (a->width <= 64 && !a->prov) return mkConst(a->val >> off, w);
	if (a->width > 64) return mkConstAP(constAP(a).extractBits(w, off));
	break; // keep extracts of addresses symbolic so provenance survives
    case K::Concat:
    {
	unsigned lw = a->op[1]->width;
	if (off >= lw) return mkExtract(a->op[0], off - lw, w);
	if (off + w <= lw) return mkExtract(a->op[1], off, w);
	return mkConcat(mkExtract(a->op[0], 0, off + w - lw), mkExtract(a->op[1], off, lw - off));
    }
    case K::Extract: return mkExtract(a->op[0], off + a->val, w);
    case K::ZExt:
    {
	unsigned iw = a->op[0]->width;
	if (off >= iw) return mkConst(0, w);
	if (off + w <= iw) return mkExtract(a->op[0], off, w);
	return mkZExt(mkExtract(a->op[0], off, iw - off), w);
    }
    case K::SExt:
    {
	unsigned iw = a->op[0]->width;
	if (off + w <= iw) return mkExtract(a->op[0], off, w);
	if (off < iw) return mkSExt(mkExtract(a->op[0], off, iw - off), w);
	return mkSExt(mkExtract(a->op[0], iw - 1, 1), w);
    }
    case K::Ite:
	if (a->op[1]->isConst() || a->op[2]->isConst() || a->op[1]->k == K::Ite || a->op[2]->k == K::Ite ||
	    (a->op[1]->k == K::Concat || a->op[2]->k == K::Concat))
	{
	    return mkIte(a->op[0], mkExtract(a->op[1], off, w), mkExtract(a->op[2], off, w));
	}
	break;
    case K::And:
    case K::Or:
    case K::Xor:
	return mkBin(a->k, mkExtract(a->op[0], off, w), mkExtract(a->op[1], off, w));
    case K::Not: return mkNot(mkExtract(a->op[0], off, w));
    case K::Add:
    case K::Sub:
    case K::Mul:
	if (off == 0 && !(a->op[0]->isC() && a->op[0]->prov))
	    return mkBin(a->k, mkExtract(a->op[0], 0, w), mkExtract(a->op[1], 0, w));
	break;
    default: break;
    }
    return make(K::Extract, w, off, a);
}

E mkConcat(E hi, E lo)
{
    unsigned w = hi->width + lo->width;
    if (hi->isConst() && lo->isConst())
    {
	if (w <= 64 && !hi->prov && !lo->prov) return mkConst((hi->val << lo->width) | lo->val, w);
	if (w > 64 && !hi->prov && !lo->prov)
	{
	    llvm::APInt r = constAP(hi).zext(w).shl(lo->width) | constAP(lo).zext(w);
	    return mkConstAP(r);
	}
    }
    if (hi->isC() && hi->val == 0 && !hi->prov) return mkZExt(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->op[0] == lo->op[0] && hi->val == lo->val + lo->width)
	return mkExtract(hi->op[0], lo->val, w);
    // the low part of an arithmetic term has been narrowed into its operands
    if (hi->k == K::Extract && hi->val >= lo->width && lo->k != K::Concat &&
        mkExtract(hi->op[0], hi->val - lo->width, lo->width) == lo)
	return mkExtract(hi->op[0], hi->val - lo->width, w);
    // concat(a, concat(b, c)) with a,b mergeable
    if (lo->k == K::Concat)
    {
	E m = nullptr;
	E h2 = lo->op[0];
	if (hi->k == K::Extract && h2->k == K::Extract && hi->op[0] == h2->op[0] && hi->val == h2->val + h2->width)
	    m = mkExtract(hi->op[0], h2->val, hi->width + h2->width);
	else if (hi->isConst() && h2->isConst() && hi->width + h2->width <= 64)
	    m = mkConcat(hi, h2);
	if (m) return mkConcat(m, lo->op[1]);
    }
    // left-associate nothing else; merge ites with the same condition
    if (hi->k == K::Ite && lo->k == K::Ite && hi->op[0] == lo->op[0])
	return mkIte(hi->op[0], mkConcat(hi->op[1], lo->op[1]), mkConcat(hi->op[2], lo->op[2]));
    // sign extension written as concat(sext(msb), x)
    if (hi->k == K::SExt && hi->op[0]->width == 1 && hi->op[0]->k == K::Extract && lo->width >= 1)
    {
	E msb = hi->op[0];
	if (msb == mkExtract(lo, lo->width - 1, 1)) return mkSExt(lo, w);
    }
    if (hi->k == K::ZExt && !(hi->op[0]->isConst()))
    {
	return mkZExt(mkConcat(hi->op[0], lo), w);
    }
    return make(K::Concat, w, 0, hi, lo);
}

E mkZExt(E a, unsigned w)
{
    if (w == a->width) return a;
    if (a->isConst() && !a->prov)
    {
	if (w <= 64) return mkConst(a->val, w);
	return mkConstAP(constAP(a).zext(w));
    }
    if (a->k == K::ZExt) return mkZExt(a->op[0], w);
    // a small constant added to something small: no carry out
    if (a->k == K::Add && a->width <= 32 && w <= 64 && a->op[0]->isC() && !a->op[0]->prov && a->op[1]->k == K::ZExt)
    {
	uint64_t hi = maskOf(a->op[1]->op[0]->width);
	if (a->op[0]->val + hi <= maskOf(a->width)) return mkBin(K::Add, mkConst(a->op[0]->val, w), mkZExt(a->op[1], w));
    }
    if (a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst())
	return mkIte(a->op[0], mkZExt(a->op[1], w), mkZExt(a->op[2], w));
    return make(K::ZExt, w, 0, a);
}

E mkSExt(E a, unsigned w)
{
    if (w == a->width) return a;
    if (a->isConst() && !a->prov)
    {
	if (w <= 64) return mkConst(sextOf(a->val, a->width), w);
	return mkConstAP(constAP(a).sext(w));
    }
    if (a->k == K::SExt) return mkSExt(a->op[0], w);
    if (a->k == K::ZExt) return mkZExt(a->op[0], w);
    if (a->k == K::Add && a->width <= 32 && w <= 64 && a->op[0]->isC() && !a->op[0]->prov && a->op[1]->k == K::ZExt)
    {
	uint64_t hi = maskOf(a->op[1]->op[0]->width);
	if (a->op[0]->val + hi <= maskOf(a->width - 1)) return mkBin(K::Add, mkConst(a->op[0]->val, w), mkZExt(a->op[1], w));
    }
    if (a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst())
	return mkIte(a->op[0], mkSExt(a->op[1], w), mkSExt(a->op[2], w));
    return make(K::SExt, w, 0, a);
}

E mkZTrunc(E a, unsigned w) { return w <= a->width ? mkExtract(a, 0, w) : mkZExt(a, w); }
E mkSTrunc(E a, unsigned w) { return w <= a->width ? mkExtract(a, 0, w) : mkSExt(a, w); }

// ---- floating point -----------------------------------------------------------------------------------------------
static bool foldF(K k, unsigned w, E a, E b, uint64_t val, uint64_t& out)
{
    if (!a->isC() || (b && !b->isC())) return false;
    auto rnd = [&](double d) {
	switch (val)
	{
	case 0: return std::trunc(d);
	case 1: return std::floor(d);
	case 2: return std::ceil(d);
	case 3: return std::nearbyint(d);
	default: return std::round(d);
	}
    };
    switch (k)
    {
    case K::FAdd: out = w == 64 ? dToBits(bitsToD(a->val) + bitsToD(b->val)) : fToBits(bitsToF(a->val) + bitsToF(b->val)); return true;
    case K::FSub: out = w == 64 ? dToBits(bitsToD(a->val) - bitsToD(b->val)) : fToBits(bitsToF(a->val) - bitsToF(b->val)); return true;
    case K::FMul: out = w == 64 ? dToBits(bitsToD(a->val) * bitsToD(b->val)) : fToBits(bitsToF(a->val) * bitsToF(b->val)); return true;
    case K::FDiv: out = w == 64 ? dToBits(bitsToD(a->val) / bitsToD(b->val)) : fToBits(bitsToF(a->val) / bitsToF(b->val)); return true;
    case K::FRem: out = w == 64 ? dToBits(std::fmod(bitsToD(a->val), bitsToD(b->val))) : fToBits(std::fmod(bitsToF(a->val), bitsToF(b->val))); return true;
    case K::FSqrt: out = w == 64 ? dToBits(std::sqrt(bitsToD(a->val))) : fToBits(std::sqrt(bitsToF(a->val))); return true;
    case K::FRound: out = w == 64 ? dToBits(rnd(bitsToD(a->val))) : fToBits((float)rnd(bitsToF(a->val))); return true;
    case K::SIToFP:
    {
	int64_t v = sextOf(a->val, a->width);
	out = w == 64 ? dToBits((double)v) : fToBits((float)v);
	return true;
    }
    case K::UIToFP: out = w == 64 ? dToBits((double)a->val) : fToBits((float)a->val); return true;
    case K::FPToSI:
    {
	double d = a->width == 64 ? bitsToD(a->val) : bitsToF(a->val);
	d = std::trunc(d);
	double lim = std::ldexp(1.0, w - 1);
	if (!(d >= -lim && d < lim)) return false;
	out = (uint64_t)(int64_t)d & maskOf(w);
	return true;
    }
    case K::FPToUI:
    {
	double d = a->width == 64 ? bitsToD(a->val) : bitsToF(a->val);
	d = std::trunc(d);
	if (!(d >= 0 && d < std::ldexp(1.0, w))) return false;
	out = (uint64_t)d & maskOf(w);
	return true;
    }
    case K::FPExt: out = dToBits((double)bitsToF(a->val)); return true;
    case K::FPTrunc: out = fToBits((float)bitsToD(a->val)); return true;
    default: return false;
    }
}

static E mkFNeg(E x) { return mkConcat(mkNot(mkExtract(x, x->width - 1, 1)), mkExtract(x, 0, x->width - 1)); }

// x of a term -x; for mul and div a negative constant is the negation of its magnitude
static E fNegated(E e, bool consts)
{
    if (e->isC()) return consts && (e->val >> (e->width - 1)) ? mkConst(e->val ^ (1ull << (e->width - 1)), e->width) : nullptr;
    if (e->k != K::Concat || !e->op[1] || e->op[1]->k != K::Extract) return nullptr;
    E x = e->op[1]->op[0];
    return x->width == e->width && mkFNeg(x) == e ? x : nullptr;
}

// Identities that hold for every operand (a NaN result is any NaN): both sides of a comparison get the same normal form
static E normF(K k, unsigned w, E a, E b)
{
    if (k == K::FMul || k == K::FDiv)
    {
	E na = fNegated(a, true), nb = fNegated(b, true);
	if (na && nb) return mkF(k, w, na, nb);
	if (na) return mkFNeg(mkF(k, w, na, b));
	if (nb) return mkFNeg(mkF(k, w, a, nb));
    }
    if (k == K::FMul && w == 64)
    {
	if (a->isC()) std::swap(a, b);
	if (b->isC() && bitsToD(b->val) == 1.0) return a;
	if (b->isC() && bitsToD(b->val) == 2.0) return mkF(K::FAdd, w, a, a);
    }
    if (k == K::FDiv && w == 64 && b->isC())
    {
	int    ex;
	double d = bitsToD(b->val);
	if (std::frexp(d, &ex) == 0.5 && ex > -1000 && ex < 1000) return mkF(K::FMul, w, a, mkConst(dToBits(1 / d), w));
    }
    if (k == K::FSub)
	if (E nb = fNegated(b, false)) return mkF(K::FAdd, w, a, nb);
    if (k == K::FAdd)
    {
	if (a->isC()) std::swap(a, b);
	if (b->isC() && w == 64 && b->val == 1ull << 63) return a;
	if (E nb = fNegated(b, false)) return mkF(K::FSub, w, a, nb);
	if (E na = fNegated(a, false)) return mkF(K::FSub, w, b, na);
    }
    return nullptr;
}

E mkF(K k, unsigned w, E a, E b, uint64_t val)
{
    uint64_t out;
    if (w <= 64 && foldF(k, w, a, b, val, out)) return mkConst(out, w);
    if (b)
	if (E n = normF(k, w, a, b)) return n;
    if ((k == K::FAdd || k == K::FMul) && a->id > b->id) std::swap(a, b);
    if (k == K::FSub)
    {
	// x - y and x + (-y) share a node
	if (b->isC()) return mkF(K::FAdd, w, a, mkConst(b->val ^ (1ull << (w - 1)), w));
    }
    // int -> fp of a sign/zero extended value: use the narrowest source
    if (k == K::SIToFP && a->k == K::SExt) return mkF(k, w, a->op[0]);
    if (k == K::SIToFP && a->k == K::ZExt) return mkF(K::UIToFP, w, a->op[0]);
    if (k == K::UIToFP && a->k == K::ZExt) return mkF(k, w, a->op[0]);
    // rounding / conversion identities
    if (k == K::FPToSI && a->k == K::SIToFP && a->width == 64 && a->op[0]->width <= 53)
	return mkSTrunc(a->op[0], w);
    return make(k, w, val, a, b);
}

E mkUF(const std::string& name, unsigned w, const std::vector<E>& args)
{
    std::string key = name + "/" + std::to_string(w);
    for (auto a : args) key += "," + std::to_string(a->width);
    auto it = ufIds.find(key);
    uint32_t id;
    if (it == ufIds.end())
    {
	id = ufNames.size();
	ufNames.push_back(key);
	ufIds[key] = id;
    }
    else
	id = it->second;
    return make(K::UF, w, id, nullptr, nullptr, nullptr, 0, nullptr, &args);
}

E mkFIsNaN(E a)
{
    unsigned w = a->width, mant = w == 64 ? 52 : 23;
    E        mag = mkZExt(mkExtract(a, 0, w - 1), w);
    return mkBin(K::Ult, mkConst(w == 64 ? 0x7ff0000000000000ull : 0x7f800000u, w), mag);
    (void)mant;
}

static E fEq(E a, E b)
{
    // equal, neither NaN assumed
    unsigned w = a->width;
    E        zero = mkConst(0, w - 1);
    E        bothZero = mkAnd(mkEq(zero, mkExtract(a, 0, w - 1)), mkEq(zero, mkExtract(b, 0, w - 1)));
    return mkOr(mkEq(a, b), bothZero);
}
static E fLt(E a, E b)
{
    // a < b, neither NaN assumed: via monotone signed key; treat -0 == +0
    unsigned w = a->width;
    auto     key = [&](E x) {
        E mag = mkExtract(x, 0, w - 1);
        E s = mkExtract(x, w - 1, 1);
        E pos = mkZExt(mag, w);
        return mkIte(s, mkBin(K::Sub, mkConst(0, w), pos), pos);
    };
    return mkBin(K::Slt, key(a), key(b));
}

E mkFCmp(unsigned p, E a, E b)
{
    // llvm predicates: bit0 = eq, bit1 = gt, bit2 = lt, bit3 = uno
    E nan = mkOr(mkFIsNaN(a), mkFIsNaN(b));
    if (p == 0) return mkFalse();
    if (p == 15) return mkTrue();
    E r = mkFalse();
    if ((p & 7) == 7)
	r = mkTrue();
    else
    {
	if ((p & 3) == 3) // gt or eq == not lt (given ordered)
	    r = mkNot(fLt(a, b));
	else if ((p & 5) == 5)
	    r = mkNot(fLt(b, a));
	else if ((p & 6) == 6)
	    r = mkNot(fEq(a, b));
	else
	{
	    if (p & 1) r = fEq(a, b);
	    if (p & 2) r = fLt(b, a);
	    if (p & 4) r = fLt(a, b);
	}
    }
    if (p & 8) return mkOr(nan, r);
    return mkAnd(mkNot(nan), r);
}

// ---- analyses -----------------------------------------------------------------------------------------------------
static const VarSet emptyVars = std::make_shared<const std::vector<uint32_t>>();

const VarSet& varsOf(E e)
{
    if (e->vars) return e->vars;
    if (e->k == K::Const)
    {
	e->vars = emptyVars;
	return e->vars;
    }
    if (e->k == K::Sym)
    {
	e->vars = std::make_shared<const std::vector<uint32_t>>(std::vector<uint32_t>{ (uint32_t)e->val });
	return e->vars;
    }
    VarSet acc = emptyVars;
    auto   add = [&](E x) {
        if (!x) return;
        const VarSet& v = varsOf(x);
        if (v == acc || v->empty()) return;
        if (acc->empty())
        {
            acc = v;
            return;
        }
        if (std::includes(acc->begin(), acc->end(), v->begin(), v->end())) return;
        if (std::includes(v->begin(), v->end(), acc->begin(), acc->end()))
        {
            acc = v;
            return;
        }
        std::vector<uint32_t> r;
        std::set_union(acc->begin(), acc->end(), v->begin(), v->end(), std::back_inserter(r));
        acc = std::make_shared<const std::vector<uint32_t>>(std::move(r));
    };
    for (int i = 0; i < 3; i++) add(e->op[i]);
    if (e->args)
	for (auto x : *e->args) add(x);
    e->vars = acc;
    return e->vars;
}

static void urangeD(E e, uint64_t& lo, uint64_t& hi, int depth)
{
    uint64_t m = maskOf(e->width);
    lo = 0;
    hi = m;
    if (e->width > 64)
    {
	hi = ~0ull;
	return;
    }
    if (e->k == K::Const)
    {
	lo = hi = e->val;
	return;
    }
    if (depth <= 0) return;
    uint64_t l1, h1, l2, h2;
    switch (e->k)
    {
    case K::ZExt: urangeD(e->op[0], lo, hi, depth - 1); break;
    case K::SExt:
	urangeD(e->op[0], l1, h1, depth - 1);
	if (h1 <= (maskOf(e->op[0]->width) >> 1))
	{
	    lo = l1;
	    hi = h1;
	}
	break;
    case K::Extract:
	if (e->val == 0 && e->op[0]->width <= 64)
	{
	    urangeD(e->op[0], l1, h1, depth - 1);
	    if (h1 <= m)
	    {
		lo = l1;
		hi = h1;
	    }
	}
	break;
    case K::Concat:
	if (e->op[1]->width < 64)
	{
	    urangeD(e->op[0], l1, h1, depth - 1);
	    urangeD(e->op[1], l2, h2, depth - 1);
	    lo = (l1 << e->op[1]->width) + l2;
	    hi = (h1 << e->op[1]->width) + h2;
	}
	break;
    case K::Add:
	urangeD(e->op[0], l1, h1, depth - 1);
	urangeD(e->op[1], l2, h2, depth - 1);
	if (h1 + h2 >= h1 && h1 + h2 <= m)
	{
	    lo = l1 + l2;
	    hi = h1 + h2;
	}
	else if (e->op[0]->k == K::Const && l2 == 0 ? false : (l1 + l2 < l1 || l1 + l2 > m))
	{
	    // both ends wrap (adding a negative constant to something large enough)
	    lo = (l1 + l2) & m;
	    hi = (h1 + h2) & m;
	}
	break;
    case K::Mul:
	urangeD(e->op[0], l1, h1, depth - 1);
	urangeD(e->op[1], l2, h2, depth - 1);
	if (h1 == 0 || h2 == 0 || (h1 <= m / (h2 ? h2 : 1)))
	{
	    lo = l1 * l2;
	    hi = h1 * h2;
	}
	break;
    case K::And:
	urangeD(e->op[0], l1, h1, depth - 1);
	urangeD(e->op[1], l2, h2, depth - 1);
	hi = std::min(h1, h2);
	break;
    case K::Or:
    case K::Xor:
	urangeD(e->op[0], l1, h1, depth - 1);
	urangeD(e->op[1], l2, h2, depth - 1);
	{
	    uint64_t x = h1 | h2;
	    while (x & (x + 1)) x |= x >> 1;
	    hi = x & m;
	    lo = e->k == K::Or ? std::max(l1, l2) : 0;
	}
	break;
    case K::URem:
	urangeD(e->op[0], l1, h1, depth - 1);
	urangeD(e->op[1], l2, h2, depth - 1);
	hi = l2 > 0 ? std::min(h1, h2 - 1) : h1;
	break;
    case K::UDiv:
	urangeD(e->op[0], l1, h1, depth - 1);
	urangeD(e->op[1], l2, h2, depth - 1);
	if (l2 > 0)
	{
	    hi = h1 / l2;
	    lo = l1 / h2;
	}
	break;
    case K::LShr:
	urangeD(e->op[0], l1, h1, depth - 1);
	hi = h1;
	break;
    case K::Ite:
	urangeD(e->op[1], l1, h1, depth - 1);
	urangeD(e->op[2], l2, h2, depth - 1);
	lo = std::min(l1, l2);
	hi = std::max(h1, h2);
	break;
    default: break;
    }
}
void urange(E e, uint64_t& lo, uint64_t& hi) { urangeD(e, lo, hi, 8); }

void strideOf(E e, uint64_t& s, uint64_t& r)
{
    uint64_t s1, r1, s2, r2;
    switch (e->k)
    {
    case K::Const:
	s = 0;
	r = e->val;
	return;
    case K::Mul:
	if (e->op[0]->isC())
	{
	    // trusted only when the product is small enough not to wrap is checked by the caller's bounds query
	    strideOf(e->op[1], s1, r1);
	    uint64_t c = e->op[0]->val;
	    bool small = e->width == 64 && (e->op[1]->k == K::SExt || e->op[1]->k == K::ZExt) &&
	                 e->op[1]->op[0]->width <= 32;
	    if ((c >> 31) || !small)
	    {
		// the product may wrap: only powers of two survive
		s = 1ull << __builtin_ctzll(c);
		r = 0;
		return;
	    }
	    s = s1 * c;
	    r = r1 * c;
	    return;
	}
	break;
    case K::Concat:
	if (e->op[1]->isC() && e->op[1]->width < 32)
	{
	    strideOf(e->op[0], s1, r1);
	    s = s1 << e->op[1]->width;
	    r = (r1 << e->op[1]->width) + e->op[1]->val;
	    // wrapping only preserves powers of two
	    uint64_t p = s ? (s & -s) : 0;
	    s = p;
	    if (s) r %= s;
	    return;
	}
	break;
    case K::ZExt:
    case K::SExt:
	strideOf(e->op[0], s1, r1);
	if (s1 == 0)
	{
	    s = 0;
	    r = r1;
	    return;
	}
	s = s1 & -s1;
	r = r1 % s;
	return;
    case K::Add:
	strideOf(e->op[0], s1, r1);
	strideOf(e->op[1], s2, r2);
	s = std::gcd(s1, s2);
	r = r1 + r2;
	if (s)
	{
	    int64_t q = (int64_t)r % (int64_t)s;
	    r = q < 0 ? q + s : q;
	}
	return;
    case K::Ite:
	strideOf(e->op[1], s1, r1);
	strideOf(e->op[2], s2, r2);
	s = std::gcd(std::gcd(s1, s2), (int64_t)r1 > (int64_t)r2 ? r1 - r2 : r2 - r1);
	r = r1;
	if (s)
	{
	    int64_t q = (int64_t)r % (int64_t)s;
	    r = q < 0 ? q + s : q;
	}
	return;
    default: break;
    }
    s = 1;
    r = 0;
}

void ptrProvs(E e, std::vector<uint32_t>& out)
{
    if (e->k == K::Const)
    {
	if (e->prov && std::find(out.begin(), out.end(), e->prov) == out.end()) out.push_back(e->prov);
	return;
    }
    switch (e->k)
    {
    case K::Add:
    case K::And:
    case K::Or:
	ptrProvs(e->op[0], out);
	ptrProvs(e->op[1], out);
	break;
    case K::Sub: ptrProvs(e->op[0], out); break;
    case K::Ite:
	ptrProvs(e->op[1], out);
	ptrProvs(e->op[2], out);
	break;
    case K::Extract:
    case K::ZExt:
    case K::SExt: ptrProvs(e->op[0], out); break;
    case K::Concat:
	ptrProvs(e->op[0], out);
	ptrProvs(e->op[1], out);
	break;
    default: break;
    }
}

// ---- evaluation ---------------------------------------------------------------------------------------------------
static uint64_t epoch = 1;
void            newEvalEpoch() { epoch += 2; }
// epoch = evaluated, epoch+1 = not evaluable

bool evalExpr(E e, const Model& m, uint64_t& out)
{
    if (e->width > 64) return false;
    if (e->k == K::Const)
    {
	out = e->val;
	return true;
    }
    if (e->evEpoch == epoch)
    {
	out = e->evVal;
	return true;
    }
    if (e->evEpoch == epoch + 1) return false;
    auto fail = [&] {
	e->evEpoch = epoch + 1;
	return false;
    };
    auto done = [&](uint64_t v) {
	v &= maskOf(e->width);
	e->evEpoch = epoch;
	e->evVal = v;
	out = v;
	return true;
    };
    if (e->k == K::Sym) return done(m.get(e->val));
    if (e->k == K::UF) return fail();
    uint64_t v[3] = { 0, 0, 0 };
    if (e->k == K::Ite)
    {
	if (!evalExpr(e->op[0], m, v[0])) return fail();
	if (!evalExpr(v[0] ? e->op[1] : e->op[2], m, v[1])) return fail();
	return done(v[1]);
    }
    if (e->k == K::Extract && e->op[0]->width > 64)
    {
	// extract of a wide concat etc. is not evaluated
	return fail();
    }
    for (int i = 0; i < 3; i++)
	if (e->op[i] && !evalExpr(e->op[i], m, v[i])) return fail();
    switch (e->k)
    {
    case K::Not: return done(~v[0]);
    case K::Extract: return done(v[0] >> e->val);
    case K::Concat: return done((v[0] << e->op[1]->width) | v[1]);
    case K::ZExt: return done(v[0]);
    case K::SExt: return done(sextOf(v[0], e->op[0]->width));
    default: break;
    }
    if (e->k >= K::FAdd && e->k <= K::FPTrunc)
    {
	uint64_t r;
	E        a = mkConst(v[0], e->op[0]->width), b = e->op[1] ? mkConst(v[1], e->op[1]->width) : nullptr;
	if (!foldF(e->k, e->width, a, b, e->val, r)) return fail();
	return done(r);
    }
    if (e->op[0]->width > 64) return fail();
    if ((e->k == K::SDiv || e->k == K::SRem) && v[1] == 0)
    {
	// SMT-LIB semantics
	int64_t s = sextOf(v[0], e->width);
	return done(e->k == K::SRem ? v[0] : (s >= 0 ? maskOf(e->width) : 1));
    }
    E r = foldC(e->k, mkConst(v[0], e->op[0]->width), mkConst(v[1], e->op[1]->width));
    if (!r || !r->isC()) return fail();
    return done(r->val);
}

std::string exprStr(E e, int depth)
{
    static const char* names[] = { "const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or",
	                           "xor", "shl", "lshr", "ashr", "not", "eq", "ult", "ule", "slt", "sle", "concat",
	                           "extract", "zext", "sext", "ite", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt",
	                           "fround", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "uf" };
    if (e->k == K::Const)
    {
	char buf[64];
	if (e->width > 64) return "wide";
	snprintf(buf, sizeof buf, "%lld:%u%s", (long long)sextOf(e->val, e->width), e->width, e->prov ? "p" : "");
	return buf;
    }
    if (e->k == K::Sym) return symbols[e->val].name;
    if (depth <= 0) return "...";
    std::string s = "(";
    s += names[(int)e->k];
    if (e->k == K::UF) s += ":" + ufNames[e->val];
    if (e->k == K::Extract) s += "@" + std::to_string(e->val) + "." + std::to_string(e->width);
    if (e->k == K::ZExt || e->k == K::SExt) s += "." + std::to_string(e->width);
    for (int i = 0; i < 3; i++)
	if (e->op[i]) s += " " + exprStr(e->op[i], depth - 1);
    if (e->args)
	for (auto x : *e->args) s += " " + exprStr(x, depth - 1);
    return s + ")";
}
