// Symbolic executor for LLVM IR.  See DESIGN.md for what it models and what it does not.
#include <unistd.h>
#include <ctype.h>
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>

using namespace llvm;

struct StateDead
{
};

// ---- global configuration and results -----------------------------------------------------------------------------
static std::unique_ptr<Module> M;
static const DataLayout*       DL;
static LLVMContext             Ctx;
static unsigned                PW = 64; // pointer width
static std::unordered_map<const GlobalValue*, uint32_t>             globalObj;
static std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fnInfos;
static std::vector<State*>                                          work;
static std::vector<Violation>                                       violations;
static std::map<std::string, uint64_t>                              asserts; // message -> times decided
static std::map<std::string, uint64_t>                              covers;
static std::map<std::string, uint64_t>                              incomplete;
static std::set<std::string>                                        unknownExternals;
static uint64_t totalSteps = 0, pathsDone = 0, pathsKilled = 0, forksTotal = 0, memChecks = 0;
static uint64_t maxSteps = 20000000, maxPaths = 200000;
static double   maxTime = 600;
static bool     stepLimitIsViolation = false, verbose = false, trapUnwritten = false;
static std::string outFile, cexDir = ".", entryName = "harness";
static std::chrono::steady_clock::time_point startTime;
static bool     stopAll = false;
static std::vector<std::string> skipNames;
static std::unordered_map<std::string, E> symByKey;

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - startTime).count(); }

static std::string fnName(const Function* F)
{
    std::string n = F->getName().str();
    if (!n.empty() && n[0] == 1) n = n.substr(1);
    return n;
}

static std::string where(State& S)
{
    std::string s;
    int         n = 0;
    for (auto it = S.stack.rbegin(); it != S.stack.rend() && n < 6; ++it, ++n)
    {
	if (!s.empty()) s += " < ";
	s += fnName(it->fn->F);
	const Block& b = it->fn->blocks[it->bb];
	if (it->ip < b.insts.size())
	    if (auto& dl = b.insts[it->ip].I->getDebugLoc()) s += ":" + std::to_string(dl.getLine());
    }
    return s;
}

// ---- path conditions ----------------------------------------------------------------------------------------------
static void addPC(State& S, E c)
{
    if (c->isTrue()) return;
    if (c->k == K::And && c->width == 1)
    {
	addPC(S, c->op[0]);
	addPC(S, c->op[1]);
	return;
    }
    for (auto x : S.pc)
	if (x == c) return;
    S.pc.push_back(c);
}

static bool evalIn(State& S, E e, uint64_t& v)
{
    if (!S.modelOk) return false;
    newEvalEpoch();
    return evalExpr(e, S.model, v);
}

// Decide a condition for the current state, forking when both sides are possible.
static bool decide(State& S, E cond)
{
    if (cond->isConst()) return cond->val;
    for (auto x : S.pc)
    {
	if (x == cond) return true;
    }
    E neg = mkNot(cond);
    for (auto x : S.pc)
	if (x == neg) return false;
    uint64_t mv;
    bool     haveModel = evalIn(S, cond, mv);
    bool     side;
    Model    m2;
    if (haveModel)
    {
	side = mv;
	Sat r = checkSat(S.pc, side ? neg : cond, &S.model, &m2, true);
	if (r == Sat::Unsat) return side;
	State* o = new State(S);
	addPC(*o, side ? neg : cond);
	if (r == Sat::Sat)
	    o->model = std::move(m2);
	else
	{
	    o->modelOk = false;
	    incomplete["solver-unknown-branch"]++;
	}
	o->forks++;
	forksTotal++;
	work.push_back(o);
	addPC(S, side ? cond : neg);
	S.forks++;
	return side;
    }
    Model mt, mf;
    Sat   rt = checkSat(S.pc, cond, &S.model, &mt, true);
    Sat   rf = checkSat(S.pc, neg, &S.model, &mf, true);
    if (rt == Sat::Unsat && rf == Sat::Unsat) throw StateDead();
    if (rt == Sat::Unsat) return false;
    if (rf == Sat::Unsat) return true;
    if (rt == Sat::Unknown || rf == Sat::Unknown) incomplete["solver-unknown-branch"]++;
    State* o = new State(S);
    addPC(*o, neg);
    if (rf == Sat::Sat)
    {
	// a model of the connected constraints only extends a valid base model
	o->model = mf;
    }
    o->forks++;
    forksTotal++;
    work.push_back(o);
    addPC(S, cond);
    if (rt == Sat::Sat) S.model = mt;
    S.forks++;
    return true;
}

static bool mayBeTrue(State& S, E cond, Model* m = nullptr, bool isAssert = false, bool* unknown = nullptr)
{
    if (cond->isConst())
    {
	if (cond->val && m)
	{
	    Model mm;
	    Sat   r = S.modelOk ? Sat::Sat : checkSat(S.pc, mkTrue(), nullptr, &mm, true);
	    *m = S.modelOk ? S.model : mm;
	    return r == Sat::Sat;
	}
	return cond->val;
    }
    uint64_t v;
    if (evalIn(S, cond, v) && v)
    {
	if (m) *m = S.model;
	return true;
    }
    Model mm;
    Sat   r = checkSat(S.pc, cond, S.modelOk ? &S.model : nullptr, &mm, true, isAssert);
    if (r == Sat::Unknown)
    {
	if (unknown) *unknown = true;
	return false;
    }
    if (r == Sat::Sat && m)
    {
	if (!S.modelOk)
	{
	    // need a complete model
	    std::vector<E> all = S.pc;
	    all.push_back(cond);
	    Model full;
	    if (checkSat(all, mkTrue(), nullptr, &full, true) == Sat::Sat) mm = full;
	}
	*m = mm;
    }
    return r == Sat::Sat;
}

static std::string hex(const std::vector<uint8_t>& v)
{
    static const char* d = "0123456789abcdef";
    std::string        s;
    for (auto b : v)
    {
	s += d[b >> 4];
	s += d[b & 15];
    }
    return s;
}

static void report(State& S, const std::string& kind, const std::string& msg, const Model& m)
{
    std::string w = where(S);
    for (auto& v : violations)
    {
	if (v.kind == kind && v.msg == msg && (kind == "assert" || v.where == w))
	{
	    v.count++;
	    if (v.count > 3) return;
	}
    }
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.where = w;
    newEvalEpoch();
    for (auto& in : S.inputs)
    {
	std::vector<uint8_t> b;
	for (auto e : in.bytes)
	{
	    uint64_t x = 0;
	    evalExpr(e, m, x);
	    b.push_back((uint8_t)x);
	}
	v.inputs.push_back({ in.name, hex(b) });
    }
    for (auto& n : S.notes)
    {
	uint64_t x = 0;
	bool     ok = evalExpr(n.second, m, x);
	v.notes.push_back({ n.first, ok ? std::to_string((int64_t)sextOf(x, n.second->width)) : "?" });
    }
    v.cexFile = cexDir + "/cex" + std::to_string(violations.size()) + ".txt";
    std::ofstream f(v.cexFile);
    f << "# " << kind << ": " << msg << "\n# at " << w << "\n";
    for (auto& p : v.inputs) f << p.first << " " << p.second.size() / 2 << " " << p.second << "\n";
    violations.push_back(v);
    if (violations.size() >= 40) stopAll = true;
}

// A condition that must not hold.  Reports it when possible, then continues on the rest.
static void mustNot(State& S, E bad, const std::string& kind, const std::string& msg)
{
    memChecks++;
    if (bad->isFalse()) return;
    Model m;
    bool  unk = false;
    if (mayBeTrue(S, bad, &m, true, &unk))
    {
	report(S, kind, msg, m);
	E good = mkNot(bad);
	if (!mayBeTrue(S, good, &S.model)) throw StateDead();
	S.modelOk = true;
	addPC(S, good);
    }
    else if (unk)
    {
	incomplete["solver-unknown-" + kind]++;
	addPC(S, mkNot(bad));
	S.modelOk = false;
    }
}

static uint64_t concretize(State& S, E e)
{
    while (!e->isC())
    {
	uint64_t v;
	if (!evalIn(S, e, v))
	{
	    // need a model value: add a fresh equality via solver
	    E     s = mkSym("pick", e->width, false);
	    Model m;
	    if (checkSat(S.pc, mkEq(s, e), nullptr, &m, true) != Sat::Sat)
	    {
		incomplete["solver-unknown-concretize"]++;
		throw StateDead();
	    }
	    v = m.get(s->val);
	}
	if (decide(S, mkEq(mkConst(v, e->width), e))) return v;
    }
    return e->val;
}

static E undef(State& S, unsigned w)
{
    if (w > 64) return mkConcat(undef(S, w - 64), undef(S, 64));
    std::string key = "undef" + std::to_string(S.undefCount++) + ":" + std::to_string(w);
    auto        it = symByKey.find(key);
    if (it != symByKey.end()) return it->second;
    return symByKey[key] = mkSym(key, w, false);
}

// ---- memory -------------------------------------------------------------------------------------------------------
static uint32_t newObj(State& S, uint64_t size, ObjKind k, const std::string& name, bool initialised, unsigned align = 16)
{
    auto     o = std::make_shared<Obj>();
    uint64_t a = std::max(16u, align);
    S.nextAddr = (S.nextAddr + a - 1) / a * a;
    o->base = S.nextAddr;
    o->size = size;
    o->kind = k;
    o->name = name;
    o->bytes.assign(size, 0);
    if (!initialised && size) o->init.assign(size, 0);
    uint64_t gap = PW == 32 ? 64 : std::max<uint64_t>(256, size);
    S.nextAddr += size + gap;
    S.objs.push_back(o);
    return S.objs.size() - 1;
}

static E addrOf(State& S, uint32_t id) { return mkConst(S.objs[id]->base, PW, id + 1); }

static Obj& wr(State& S, uint32_t id)
{
    ObjP& p = S.objs[id];
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}

static E getByte(State& S, uint32_t id, uint64_t off)
{
    Obj& o = *S.objs[id];
    if (!o.sym.empty() && o.sym[off]) return o.sym[off];
    if (!o.init.empty() && !o.init[off])
    {
	Obj& w = wr(S, id);
	if (w.sym.empty()) w.sym.assign(w.size, nullptr);
	E u = undef(S, 8);
	w.sym[off] = u;
	w.init[off] = 1;
	return u;
    }
    return mkConst(o.bytes[off], 8);
}

static void setByte(Obj& o, uint64_t off, E v)
{
    if (!o.init.empty()) o.init[off] = 1;
    if (v->isC() && !v->prov)
    {
	o.bytes[off] = (uint8_t)v->val;
	if (!o.sym.empty()) o.sym[off] = nullptr;
    }
    else
    {
	if (o.sym.empty()) o.sym.assign(o.size, nullptr);
	o.sym[off] = v;
    }
}

static int findByAddr(State& S, uint64_t a)
{
    // objects are laid out at increasing addresses
    size_t lo = 0, hi = S.objs.size();
    while (lo < hi)
    {
	size_t mid = (lo + hi) / 2;
	if (S.objs[mid]->base <= a)
	    lo = mid + 1;
	else
	    hi = mid;
    }
    if (lo == 0) return -1;
    int   id = lo - 1;
    Obj&  o = *S.objs[id];
    if (a <= o.base + o.size) return id;
    return -1;
}

struct Loc
{
    uint32_t id;
    E        addr;
    bool     concrete;
    uint64_t off;
};

// Which object does an access of n bytes at addr touch?  Reports accesses outside of it.
static Loc resolve(State& S, E addr, uint64_t n, const char* what, bool write)
{
    if (addr->isC())
    {
	int id = -1;
	if (addr->prov)
	    id = addr->prov - 1;
	else
	    id = findByAddr(S, addr->val);
	if (id < 0 || addr->val < 4096)
	{
	    mustNot(S, mkTrue(), "memory", std::string(what) + (addr->val < 4096 ? " through nil pointer" : " through wild pointer"));
	    throw StateDead();
	}
	Obj&     o = *S.objs[id];
	uint64_t off = (addr->val - o.base) & maskOf(PW);
	memChecks++;
	if (!o.alive)
	{
	    mustNot(S, mkTrue(), "memory", std::string(what) + " after the lifetime of " + o.name);
	    throw StateDead();
	}
	if (o.kind == ObjKind::Func || off > o.size || n > o.size - off)
	{
	    mustNot(S, mkTrue(), "memory",
	            std::string(what) + " of " + std::to_string(n) + " bytes out of bounds of " + o.name);
	    throw StateDead();
	}
	if (write && o.readonly)
	{
	    mustNot(S, mkTrue(), "memory", "write to constant " + o.name);
	    throw StateDead();
	}
	return { (uint32_t)id, addr, true, off };
    }
    std::vector<uint32_t> provs;
    ptrProvs(addr, provs);
    int id = -1;
    if (provs.size() == 1)
	id = provs[0] - 1;
    else if (provs.size() > 1)
    {
	for (size_t i = 0; i < provs.size(); i++)
	{
	    Obj& o = *S.objs[provs[i] - 1];
	    E    off = mkBin(K::Sub, addr, mkConst(o.base, PW));
	    E    in = mkBin(K::Ule, stripProv(off), mkConst(o.size, PW));
	    if (decide(S, in))
	    {
		id = provs[i] - 1;
		break;
	    }
	}
	if (id < 0)
	{
	    mustNot(S, mkTrue(), "memory", std::string(what) + " out of bounds (several targets)");
	    throw StateDead();
	}
    }
    else
    {
	// no provenance: enumerate by address
	uint64_t v;
	for (;;)
	{
	    if (!evalIn(S, addr, v))
	    {
		v = concretize(S, addr);
		return resolve(S, mkConst(v, PW), n, what, write);
	    }
	    int c = findByAddr(S, v);
	    if (c < 0)
	    {
		mustNot(S, mkEq(addr, mkConst(v, PW)), "memory", std::string(what) + " through wild pointer");
		continue;
	    }
	    Obj& o = *S.objs[c];
	    if (decide(S, mkBin(K::Ule, mkBin(K::Sub, addr, mkConst(o.base, PW)), mkConst(o.size, PW))))
	    {
		id = c;
		break;
	    }
	}
    }
    Obj& o = *S.objs[id];
    if (!o.alive)
    {
	mustNot(S, mkTrue(), "memory", std::string(what) + " after the lifetime of " + o.name);
	throw StateDead();
    }
    if (n > o.size || o.kind == ObjKind::Func)
    {
	mustNot(S, mkTrue(), "memory", std::string(what) + " out of bounds of " + o.name);
	throw StateDead();
    }
    E off = stripProv(mkBin(K::Sub, addr, mkConst(o.base, PW, id + 1)));
    mustNot(S, mkBin(K::Ult, mkConst(o.size - n, PW), off), "memory",
            std::string(what) + " of " + std::to_string(n) + " bytes out of bounds of " + o.name);
    if (write && o.readonly)
    {
	mustNot(S, mkTrue(), "memory", "write to constant " + o.name);
	throw StateDead();
    }
    if (off->isC()) return { (uint32_t)id, addr, true, off->val };
    return { (uint32_t)id, off, false, 0 };
}

static void candidates(State& S, E off, uint64_t size, uint64_t n, std::vector<uint64_t>& out)
{
    uint64_t s, r, lo, hi;
    strideOf(off, s, r);
    urange(off, lo, hi);
    uint64_t max = size - n;
    if (hi > max) hi = max;
    if (s == 0) s = 1, r = 0;
    r %= s;
    for (uint64_t o = 0; o <= max; o++)
    {
	if (o % s != r) continue;
	if (o < lo || o > hi) continue;
	out.push_back(o);
    }
}

static E loadBytes(State& S, uint32_t id, uint64_t off, uint64_t n)
{
    Obj& o = *S.objs[id];
    if (n <= 8 && o.sym.empty() && o.init.empty())
    {
	uint64_t v = 0;
	for (uint64_t i = 0; i < n; i++) v |= (uint64_t)o.bytes[off + i] << (8 * i);
	return mkConst(v, 8 * n);
    }
    E r = getByte(S, id, off);
    for (uint64_t i = 1; i < n; i++) r = mkConcat(getByte(S, id, off + i), r);
    // re-attach addresses stored bytewise
    return r;
}

static E readMem(State& S, E addr, uint64_t n)
{
    if (n == 0) return mkConst(0, 8);
    Loc l = resolve(S, addr, n, "read", false);
    if (l.concrete) return loadBytes(S, l.id, l.off, n);
    std::vector<uint64_t> c;
    candidates(S, l.addr, S.objs[l.id]->size, n, c);
    if (c.empty() || c.size() > 2048)
    {
	uint64_t v = concretize(S, l.addr);
	return loadBytes(S, l.id, v, n);
    }
    E r = loadBytes(S, l.id, c.back(), n);
    for (size_t i = c.size() - 1; i-- > 0;)
	r = mkIte(mkEq(mkConst(c[i], PW), l.addr), loadBytes(S, l.id, c[i], n), r);
    return r;
}

static void storeBytes(State& S, uint32_t id, uint64_t off, E v, uint64_t n)
{
    Obj& o = wr(S, id);
    if (v->isC() && !v->prov && n <= 8)
    {
	for (uint64_t i = 0; i < n; i++)
	{
	    o.bytes[off + i] = (uint8_t)(v->val >> (8 * i));
	    if (!o.sym.empty()) o.sym[off + i] = nullptr;
	    if (!o.init.empty()) o.init[off + i] = 1;
	}
	return;
    }
    for (uint64_t i = 0; i < n; i++) setByte(o, off + i, mkExtract(v, 8 * i, 8));
}

static void writeMem(State& S, E addr, E v, uint64_t n)
{
    if (n == 0) return;
    Loc l = resolve(S, addr, n, "write", true);
    if (l.concrete)
    {
	storeBytes(S, l.id, l.off, v, n);
	return;
    }
    std::vector<uint64_t> c;
    candidates(S, l.addr, S.objs[l.id]->size, n, c);
    if (c.empty() || c.size() * n > 16384)
    {
	uint64_t o = concretize(S, l.addr);
	storeBytes(S, l.id, o, v, n);
	return;
    }
    // old values first (candidate regions may overlap)
    std::map<uint64_t, E> upd;
    for (auto o : c)
    {
	E hit = mkEq(mkConst(o, PW), l.addr);
	if (hit->isFalse()) continue;
	for (uint64_t i = 0; i < n; i++)
	{
	    auto it = upd.find(o + i);
	    E    old = it != upd.end() ? it->second : getByte(S, l.id, o + i);
	    upd[o + i] = mkIte(hit, mkExtract(v, 8 * i, 8), old);
	}
    }
    Obj& o = wr(S, l.id);
    for (auto& p : upd) setByte(o, p.first, p.second);
}

// ---- typed load / store -------------------------------------------------------------------------------------------
static unsigned scalarWidth(Type* t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return PW;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}

static Val loadTy(State& S, Type* t, E addr)
{
    if (unsigned w = scalarWidth(t))
    {
	uint64_t n = (w + 7) / 8;
	E        e = readMem(S, addr, n);
	return mkZTrunc(e, w);
    }
    std::vector<Val> v;
    if (auto st = dyn_cast<StructType>(t))
    {
	const StructLayout* sl = DL->getStructLayout(st);
	for (unsigned i = 0; i < st->getNumElements(); i++)
	    v.push_back(loadTy(S, st->getElementType(i), mkBin(K::Add, addr, mkConst(sl->getElementOffset(i), PW))));
    }
    else if (auto at = dyn_cast<ArrayType>(t))
    {
	uint64_t es = DL->getTypeAllocSize(at->getElementType());
	for (uint64_t i = 0; i < at->getNumElements(); i++)
	    v.push_back(loadTy(S, at->getElementType(), mkBin(K::Add, addr, mkConst(i * es, PW))));
    }
    else if (auto vt = dyn_cast<FixedVectorType>(t))
    {
	unsigned ew = scalarWidth(vt->getElementType());
	unsigned total = ew * vt->getNumElements();
	E        e = readMem(S, addr, (total + 7) / 8);
	for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(mkExtract(e, i * ew, ew));
    }
    else
    {
	incomplete["unsupported-load-type"]++;
	throw StateDead();
    }
    return Val(std::move(v));
}

static E flattenVec(const Val& v)
{
    if (v.e) return v.e;
    E r = (*v.agg)[0].e;
    for (size_t i = 1; i < v.agg->size(); i++) r = mkConcat((*v.agg)[i].e, r);
    return r;
}

static void storeTy(State& S, Type* t, E addr, const Val& v)
{
    if (unsigned w = scalarWidth(t))
    {
	uint64_t n = (w + 7) / 8;
	writeMem(S, addr, mkZExt(v.e, n * 8), n);
	return;
    }
    if (auto st = dyn_cast<StructType>(t))
    {
	const StructLayout* sl = DL->getStructLayout(st);
	for (unsigned i = 0; i < st->getNumElements(); i++)
	    storeTy(S, st->getElementType(i), mkBin(K::Add, addr, mkConst(sl->getElementOffset(i), PW)), (*v.agg)[i]);
    }
    else if (auto at = dyn_cast<ArrayType>(t))
    {
	uint64_t es = DL->getTypeAllocSize(at->getElementType());
	for (uint64_t i = 0; i < at->getNumElements(); i++)
	    storeTy(S, at->getElementType(), mkBin(K::Add, addr, mkConst(i * es, PW)), (*v.agg)[i]);
    }
    else if (auto vt = dyn_cast<FixedVectorType>(t))
    {
	unsigned ew = scalarWidth(vt->getElementType());
	unsigned total = ew * vt->getNumElements();
	uint64_t n = (total + 7) / 8;
	writeMem(S, addr, mkZExt(flattenVec(v), n * 8), n);
    }
    else
    {
	incomplete["unsupported-store-type"]++;
	throw StateDead();
    }
}

// ---- constants ----------------------------------------------------------------------------------------------------
static Val undefOf(State& S, Type* t)
{
    if (unsigned w = scalarWidth(t)) return undef(S, w);
    std::vector<Val> v;
    if (auto st = dyn_cast<StructType>(t))
	for (auto e : st->elements()) v.push_back(undefOf(S, e));
    else if (auto at = dyn_cast<ArrayType>(t))
	for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(undefOf(S, at->getElementType()));
    else if (auto vt = dyn_cast<FixedVectorType>(t))
	for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(undefOf(S, vt->getElementType()));
    return Val(std::move(v));
}

static Val zeroOf(Type* t)
{
    if (unsigned w = scalarWidth(t)) return mkConst(0, w);
    std::vector<Val> v;
    if (auto st = dyn_cast<StructType>(t))
	for (auto e : st->elements()) v.push_back(zeroOf(e));
    else if (auto at = dyn_cast<ArrayType>(t))
	for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
    else if (auto vt = dyn_cast<FixedVectorType>(t))
	for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
    return Val(std::move(v));
}

static E castOp(unsigned opc, E a, unsigned w, State* S);

static Val constVal(State& S, const Constant* c)
{
    Type* t = c->getType();
    if (auto ci = dyn_cast<ConstantInt>(c)) return mkConstAP(ci->getValue());
    if (auto cf = dyn_cast<ConstantFP>(c)) return mkConstAP(cf->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(c)) return mkConst(0, PW);
    if (isa<UndefValue>(c)) return undefOf(S, t); // poison too
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto gv = dyn_cast<GlobalValue>(c))
    {
	if (auto ga = dyn_cast<GlobalAlias>(gv)) return constVal(S, ga->getAliasee());
	auto it = globalObj.find(gv);
	if (it == globalObj.end())
	{
	    errs() << "no object for global " << gv->getName() << "\n";
	    abort();
	}
	return addrOf(S, it->second);
    }
    if (auto cd = dyn_cast<ConstantDataSequential>(c))
    {
	std::vector<Val> v;
	for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(S, cd->getElementAsConstant(i)));
	return Val(std::move(v));
    }
    if (auto ca = dyn_cast<ConstantAggregate>(c))
    {
	std::vector<Val> v;
	for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(S, ca->getOperand(i)));
	return Val(std::move(v));
    }
    if (auto ce = dyn_cast<ConstantExpr>(c))
    {
	if (auto gep = dyn_cast<GEPOperator>(ce))
	{
	    APInt off(PW, 0);
	    if (gep->accumulateConstantOffset(*DL, off))
	    {
		E base = constVal(S, cast<Constant>(gep->getPointerOperand())).e;
		return mkBin(K::Add, base, mkConstAP(off));
	    }
	}
	if (ce->isCast())
	{
	    Val a = constVal(S, ce->getOperand(0));
	    if (ce->getOpcode() == Instruction::BitCast) return a;
	    return castOp(ce->getOpcode(), a.e, scalarWidth(t), &S);
	}
	if (Instruction::isBinaryOp(ce->getOpcode()))
	{
	    E a = constVal(S, ce->getOperand(0)).e, b = constVal(S, ce->getOperand(1)).e;
	    switch (ce->getOpcode())
	    {
	    case Instruction::Add: return mkBin(K::Add, a, b);
	    case Instruction::Sub: return mkBin(K::Sub, a, b);
	    case Instruction::Mul: return mkBin(K::Mul, a, b);
	    case Instruction::Shl: return mkBin(K::Shl, a, b);
	    case Instruction::Xor: return mkBin(K::Xor, a, b);
	    case Instruction::And: return mkBin(K::And, a, b);
	    case Instruction::Or: return mkBin(K::Or, a, b);
	    default: break;
	    }
	}
	if (ce->getOpcode() == Instruction::ICmp)
	{
	    E a = constVal(S, ce->getOperand(0)).e, b = constVal(S, ce->getOperand(1)).e;
	    switch (ce->getPredicate())
	    {
	    case CmpInst::ICMP_EQ: return mkEq(a, b);
	    case CmpInst::ICMP_NE: return mkNe(a, b);
	    case CmpInst::ICMP_ULT: return mkBin(K::Ult, a, b);
	    case CmpInst::ICMP_UGT: return mkBin(K::Ult, b, a);
	    default: break;
	    }
	}
    }
    errs() << "unsupported constant: " << *c << "\n";
    incomplete["unsupported-constant"]++;
    throw StateDead();
}

// ---- function preparation -----------------------------------------------------------------------------------------
static FnInfo* prepare(const Function* F)
{
    auto& slot = fnInfos[F];
    if (slot) return slot.get();
    slot = std::make_unique<FnInfo>();
    FnInfo* fi = slot.get();
    fi->F = F;
    auto& regIdx = fi->regIdx;
    for (auto& a : F->args()) regIdx[&a] = fi->nregs++;
    int bi = 0;
    for (auto& bb : *F)
    {
	fi->bbIdx[&bb] = bi++;
	for (auto& I : bb)
	    if (!I.getType()->isVoidTy()) regIdx[&I] = fi->nregs++;
    }
    std::unordered_map<const Constant*, int> cidx;
    auto opIdx = [&](const Value* v) -> int {
	auto it = regIdx.find(v);
	if (it != regIdx.end()) return it->second;
	if (auto c = dyn_cast<Constant>(v))
	{
	    auto ci = cidx.find(c);
	    if (ci != cidx.end()) return ~ci->second;
	    int n = fi->consts.size();
	    fi->consts.push_back(c);
	    fi->constVals.push_back(Val());
	    fi->constDone.push_back(false);
	    cidx[c] = n;
	    return ~n;
	}
	return INT_MIN; // metadata, basic blocks, asm
    };
    for (auto& bb : *F)
    {
	Block b;
	b.bb = &bb;
	for (auto& I : bb)
	{
	    Inst in;
	    in.I = &I;
	    in.opc = I.getOpcode();
	    if (!I.getType()->isVoidTy()) in.dst = regIdx[&I];
	    in.width = scalarWidth(I.getType());
	    in.scalar = in.width != 0;
	    if (auto phi = dyn_cast<PHINode>(&I))
	    {
		for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) in.ops.push_back(opIdx(phi->getIncomingValue(i)));
	    }
	    else
	    {
		for (auto& op : I.operands()) in.ops.push_back(opIdx(op.get()));
	    }
	    if (auto br = dyn_cast<BranchInst>(&I))
	    {
		for (unsigned i = 0; i < br->getNumSuccessors(); i++) in.succ[i] = fi->bbIdx[br->getSuccessor(i)];
	    }
	    if (auto gep = dyn_cast<GetElementPtrInst>(&I))
	    {
		uint64_t off = 0;
		unsigned k = 1;
		for (gep_type_iterator gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi, ++k)
		{
		    const Value* idx = gi.getOperand();
		    if (StructType* st = gi.getStructTypeOrNull())
			off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
		    else
		    {
			uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
			if (auto ci = dyn_cast<ConstantInt>(idx))
			    off += ci->getSExtValue() * sz;
			else
			    in.gepVar.push_back({ in.ops[k], sz });
		    }
		}
		in.gepConst = off;
	    }
	    if (!isa<PHINode>(I) && b.insts.size() == b.firstNonPhi && false) {}
	    b.insts.push_back(in);
	}
	unsigned n = 0;
	while (n < b.insts.size() && isa<PHINode>(b.insts[n].I)) n++;
	b.firstNonPhi = n;
	fi->blocks.push_back(std::move(b));
    }
    return fi;
}

static bool containsUndef(const Constant* c)
{
    if (isa<UndefValue>(c)) return true;
    if (isa<ConstantAggregate>(c))
	for (auto& op : c->operands())
	    if (containsUndef(cast<Constant>(op.get()))) return true;
    return false;
}

static inline Val op(State& S, Frame& f, int idx)
{
    if (idx >= 0) return f.regs[idx];
    if (idx == INT_MIN) return Val();
    int n = ~idx;
    if (!f.fn->constDone[n])
    {
	Val v = constVal(S, f.fn->consts[n]);
	if (containsUndef(f.fn->consts[n])) return v;
	f.fn->constVals[n] = v;
	f.fn->constDone[n] = true;
    }
    return f.fn->constVals[n];
}

// ---- scalar operations --------------------------------------------------------------------------------------------
static E castOp(unsigned opc, E a, unsigned w, State* S)
{
    switch (opc)
    {
    case Instruction::ZExt: return mkZExt(a, w);
    case Instruction::SExt: return mkSExt(a, w);
    case Instruction::Trunc: return mkExtract(a, 0, w);
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: return mkZTrunc(a, w);
    case Instruction::SIToFP: return mkF(K::SIToFP, w, a);
    case Instruction::UIToFP: return mkF(K::UIToFP, w, a);
    case Instruction::FPExt: return a->width == w ? a : mkF(K::FPExt, w, a);
    case Instruction::FPTrunc: return a->width == w ? a : mkF(K::FPTrunc, w, a);
    case Instruction::FPToSI:
    case Instruction::FPToUI:
    {
	E r = mkF(opc == Instruction::FPToSI ? K::FPToSI : K::FPToUI, w, a);
	if (r->isConst()) return r;
	if (a->isC()) return mkConst(1ull << (w - 1), w); // out of range: x86 value
	return r;
    }
    case Instruction::BitCast: return a;
    default: break;
    }
    return nullptr;
}

static E binOp(State& S, unsigned opc, E a, E b)
{
    unsigned w = a->width;
    switch (opc)
    {
    case Instruction::Add: return mkBin(K::Add, a, b);
    case Instruction::Sub: return mkBin(K::Sub, a, b);
    case Instruction::Mul: return mkBin(K::Mul, a, b);
    case Instruction::And: return mkBin(K::And, a, b);
    case Instruction::Or: return mkBin(K::Or, a, b);
    case Instruction::Xor: return mkBin(K::Xor, a, b);
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
    {
	K k = opc == Instruction::Shl ? K::Shl : opc == Instruction::LShr ? K::LShr : K::AShr;
	uint64_t lo, hi;
	if (w > 64) return mkBin(k, a, b);
	urange(b, lo, hi);
	E r = mkBin(k, a, b);
	if (hi < w) return r;
	E inRange = mkBin(K::Ult, b, mkConst(w, w));
	uint64_t v;
	(void)v;
	if (inRange->isTrue()) return r;
	if (!inRange->isFalse())
	{
	    bool unk = false;
	    if (!mayBeTrue(S, mkNot(inRange), nullptr, false, &unk) && !unk) return r;
	}
	return mkIte(inRange, r, undef(S, w)); // poison in LLVM
    }
    case Instruction::UDiv:
    case Instruction::URem:
    case Instruction::SDiv:
    case Instruction::SRem:
    {
	mustNot(S, mkEq(mkConst(0, w), b), "trap", "division by zero");
	if ((opc == Instruction::SDiv || opc == Instruction::SRem) && w >= 32)
	{
	    E minv = w <= 64 ? mkConst(1ull << (w - 1), w) : mkConstAP(APInt::getSignedMinValue(w));
	    E m1 = w <= 64 ? mkConst(~0ull, w) : mkConstAP(APInt::getAllOnes(w));
	    mustNot(S, mkAnd(mkEq(minv, a), mkEq(m1, b)), "trap", "division overflow");
	}
	K k = opc == Instruction::UDiv ? K::UDiv : opc == Instruction::URem ? K::URem : opc == Instruction::SDiv ? K::SDiv : K::SRem;
	return mkBin(k, a, b);
    }
    case Instruction::FAdd: return mkF(K::FAdd, w, a, b);
    case Instruction::FSub: return mkF(K::FSub, w, a, b);
    case Instruction::FMul: return mkF(K::FMul, w, a, b);
    case Instruction::FDiv: return mkF(K::FDiv, w, a, b);
    case Instruction::FRem: return mkF(K::FRem, w, a, b);
    default: return nullptr;
    }
}

static E icmp(unsigned p, E a, E b)
{
    switch (p)
    {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNe(a, b);
    case CmpInst::ICMP_ULT: return mkBin(K::Ult, a, b);
    case CmpInst::ICMP_ULE: return mkBin(K::Ule, a, b);
    case CmpInst::ICMP_UGT: return mkBin(K::Ult, b, a);
    case CmpInst::ICMP_UGE: return mkBin(K::Ule, b, a);
    case CmpInst::ICMP_SLT: return mkBin(K::Slt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(K::Sle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(K::Slt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(K::Sle, b, a);
    }
    return nullptr;
}

template<typename F>
static Val map1(const Val& a, F f)
{
    if (a.e) return f(a.e);
    std::vector<Val> v;
    for (auto& x : *a.agg) v.push_back(map1(x, f));
    return Val(std::move(v));
}
template<typename F>
static Val map2(const Val& a, const Val& b, F f)
{
    if (a.e) return f(a.e, b.e);
    std::vector<Val> v;
    for (size_t i = 0; i < a.agg->size(); i++) v.push_back(map2((*a.agg)[i], (*b.agg)[i], f));
    return Val(std::move(v));
}

static Val iteVal(E c, const Val& t, const Val& f)
{
    if (t.e) return mkIte(c, t.e, f.e);
    std::vector<Val> v;
    for (size_t i = 0; i < t.agg->size(); i++) v.push_back(iteVal(c, (*t.agg)[i], (*f.agg)[i]));
    return Val(std::move(v));
}

// ---- calls --------------------------------------------------------------------------------------------------------
static void pushFrame(State& S, const Function* F, const std::vector<Val>& args, const Inst* call,
                      const CallBase* cb, bool isTry = false)
{
    if (S.stack.size() > 400)
    {
	incomplete["recursion-limit"]++;
	if (stepLimitIsViolation) report(S, "nontermination", "recursion limit reached", S.model);
	throw StateDead();
    }
    FnInfo* fi = prepare(F);
    Frame   f;
    f.fn = fi;
    f.regs.resize(fi->nregs);
    f.call = call;
    f.isTry = isTry;
    unsigned i = 0;
    for (auto& a : F->args())
    {
	Val v = i < args.size() ? args[i] : undefOf(S, a.getType());
	if (v.e)
	{
	    unsigned w = scalarWidth(a.getType());
	    if (w && v.e->width != w)
	    {
		if (w < v.e->width)
		    v = mkZTrunc(v.e, w);
		else if (v.e->width == 1 && v.e->isC()) // the code generator loads constants with zeros above
		    v = mkZTrunc(v.e, w);
		else if (v.e->width == 1) // only the low bit of the register is defined
		    v = mkConcat(undef(S, w - 1), v.e);
		else
		{
		    incomplete["argument-width-mismatch:" + fnName(F)]++;
		    v = mkZTrunc(v.e, w);
		}
	    }
	}
	if (a.hasByValAttr())
	{
	    uint64_t n = DL->getTypeAllocSize(a.getParamByValType());
	    E        src = v.e;
	    Loc      l = resolve(S, src, n, "read", false);
	    uint64_t so = l.concrete ? l.off : concretize(S, l.addr);
	    uint32_t id = newObj(S, n, ObjKind::Stack, fnName(F) + ".byval", true);
	    Obj&     o = wr(S, id);
	    for (uint64_t k = 0; k < n; k++)
	    {
		Obj& so_ = *S.objs[l.id];
		if (!so_.init.empty() && !so_.init[so + k])
		{
		    if (o.init.empty()) o.init.assign(n, 1);
		    o.init[k] = 0;
		    continue;
		}
		setByte(o, k, getByte(S, l.id, so + k));
		if (!o.init.empty()) o.init[k] = 1;
	    }
	    f.allocas.push_back(id);
	    v = addrOf(S, id);
	}
	f.regs[i] = v;
	i++;
    }
    if (F->isVarArg() && cb)
    {
	for (; i < args.size(); i++) f.varargs.push_back({ cb->getArgOperand(i)->getType(), args[i] });
    }
    S.stack.push_back(std::move(f));
}

static void leaveFrame(State& S)
{
    for (auto id : S.stack.back().allocas)
    {
	auto o = std::make_shared<Obj>();
	*o = Obj();
	o->base = S.objs[id]->base;
	o->size = S.objs[id]->size;
	o->kind = ObjKind::Stack;
	o->name = S.objs[id]->name;
	o->alive = false;
	S.objs[id] = o;
    }
    S.stack.pop_back();
}

static void setReg(State& S, const Inst& in, Val v)
{
    if (in.dst >= 0) S.stack.back().regs[in.dst] = std::move(v);
}

static void gotoBlock(State& S, int target)
{
    Frame& f = S.stack.back();
    Block& b = f.fn->blocks[target];
    if (b.firstNonPhi)
    {
	const BasicBlock* from = f.fn->blocks[f.bb].bb;
	std::vector<Val>  vals;
	for (unsigned i = 0; i < b.firstNonPhi; i++)
	{
	    auto phi = cast<PHINode>(b.insts[i].I);
	    int  k = phi->getBasicBlockIndex(from);
	    vals.push_back(op(S, f, b.insts[i].ops[k]));
	}
	for (unsigned i = 0; i < b.firstNonPhi; i++) f.regs[b.insts[i].dst] = std::move(vals[i]);
    }
    f.bb = target;
    f.ip = b.firstNonPhi;
}

// return from the top frame
static void doReturn(State& S, const Val& rv0)
{
    const Inst* call = S.stack.back().call;
    bool        isTry = S.stack.back().isTry;
    Val         rv = rv0;
    if (S.stack.back().demoted) rv = loadTy(S, call->I->getType(), addrOf(S, S.stack.back().demoted));
    leaveFrame(S);
    if (S.stack.empty()) return;
    Frame& f = S.stack.back();
    if (call)
    {
	if (call->dst >= 0)
	{
	    if (isTry)
		f.regs[call->dst] = mkConst(~0ull, call->width);
	    else
	    {
		Val v = rv;
		if (v.e && call->width && v.e->width != call->width) v = mkZTrunc(v.e, call->width);
		f.regs[call->dst] = v;
	    }
	}
	if (auto inv = dyn_cast<InvokeInst>(call->I))
	    gotoBlock(S, f.fn->bbIdx[inv->getNormalDest()]);
	else
	    f.ip++;
    }
}

static void doExit(State& S, E code)
{
    // unwind to the nearest sym_try
    int n = S.stack.size() - 1;
    while (n >= 0 && !S.stack[n].isTry) n--;
    if (n < 0)
    {
	S.ended = true;
	return;
    }
    while ((int)S.stack.size() - 1 > n) leaveFrame(S);
    const Inst* call = S.stack.back().call;
    leaveFrame(S);
    Frame& f = S.stack.back();
    if (call->dst >= 0) f.regs[call->dst] = mkZTrunc(code, call->width);
    f.ip++;
}

enum class H
{
    Done,   // result in ret, advance
    Called, // frame pushed, or control already moved
};
using Handler = std::function<H(State&, const Inst&, const CallBase*, std::vector<Val>&, Val&)>;
static std::unordered_map<std::string, Handler> handlers;
static std::vector<std::pair<std::string, Handler>> prefixHandlers;

static std::string readCStr(State& S, E p)
{
    std::string s;
    for (int i = 0; i < 4096; i++)
    {
	E b = readMem(S, mkBin(K::Add, p, mkConst(i, PW)), 1);
	uint64_t c = concretize(S, b);
	if (!c) break;
	s += (char)c;
    }
    return s;
}

static E inputSym(State& S, const std::string& name, unsigned w)
{
    unsigned    n = S.nameCount[name]++;
    std::string key = "in:" + name + "#" + std::to_string(n) + ":" + std::to_string(w);
    auto        it = symByKey.find(key);
    if (it != symByKey.end()) return it->second;
    return symByKey[key] = mkSym(name + "#" + std::to_string(n), w, true);
}

static void copyBytes(State& S, uint32_t did, uint64_t doff, uint32_t sid, uint64_t soff, uint64_t n)
{
    ObjP src = S.objs[sid]; // keeps a stable copy for overlapping moves
    Obj& d = wr(S, did);
    const Obj& s = (sid == did) ? *src : *S.objs[sid];
    Obj        tmp;
    const Obj* sp = &s;
    if (sid == did)
    {
	tmp = *S.objs[sid];
	sp = &tmp;
    }
    for (uint64_t i = 0; i < n; i++)
    {
	bool si = sp->init.empty() || sp->init[soff + i];
	if (!si)
	{
	    if (d.init.empty()) d.init.assign(d.size, 1);
	    d.init[doff + i] = 0;
	    if (!d.sym.empty()) d.sym[doff + i] = nullptr;
	    continue;
	}
	if (!sp->sym.empty() && sp->sym[soff + i])
	    setByte(d, doff + i, sp->sym[soff + i]);
	else
	    setByte(d, doff + i, mkConst(sp->bytes[soff + i], 8));
    }
}

static void doMemcpy(State& S, E dst, E src, E len)
{
    if (len->isC())
    {
	uint64_t n = len->val;
	if (n == 0) return;
	Loc s = resolve(S, src, n, "read", false);
	uint64_t so = s.concrete ? s.off : ~0ull;
	Loc d = resolve(S, dst, n, "write", true);
	uint64_t dof = d.concrete ? d.off : ~0ull;
	if (s.concrete && d.concrete)
	{
	    copyBytes(S, d.id, dof, s.id, so, n);
	    return;
	}
	if (n <= 64)
	{
	    E v = readMem(S, src, n);
	    writeMem(S, dst, v, n);
	    return;
	}
	// read the whole block, element by element
	std::vector<E> v;
	for (uint64_t i = 0; i < n; i++) v.push_back(readMem(S, mkBin(K::Add, src, mkConst(i, PW)), 1));
	for (uint64_t i = 0; i < n; i++) writeMem(S, mkBin(K::Add, dst, mkConst(i, PW)), v[i], 1);
	return;
    }
    len = mkZTrunc(len, PW);
    // symbolic length: bytewise conditional copy
    if (!mayBeTrue(S, mkNe(len, mkConst(0, PW)))) return;
    // keep zero-length copies from being resolved against odd pointers
    if (!decide(S, mkNe(len, mkConst(0, PW)))) return;
    Loc      s = resolve(S, src, 1, "read", false);
    uint64_t so = s.concrete ? s.off : concretize(S, s.addr);
    Loc      d = resolve(S, dst, 1, "write", true);
    uint64_t dof = d.concrete ? d.off : concretize(S, d.addr);
    uint64_t ls = S.objs[s.id]->size - so, ld = S.objs[d.id]->size - dof;
    mustNot(S, mkBin(K::Ult, mkConst(ls, PW), len), "memory", "copy reads out of bounds of " + S.objs[s.id]->name);
    mustNot(S, mkBin(K::Ult, mkConst(ld, PW), len), "memory", "copy writes out of bounds of " + S.objs[d.id]->name);
    uint64_t lo, hi;
    urange(len, lo, hi);
    uint64_t       n = std::min(std::min(ls, ld), hi);
    std::vector<E> v;
    for (uint64_t i = 0; i < n; i++)
    {
	E in = mkBin(K::Ult, mkConst(i, PW), len);
	if (in->isFalse()) break;
	Obj& so_ = *S.objs[s.id];
	bool si = so_.init.empty() || so_.init[so + i];
	Obj& do_ = *S.objs[d.id];
	bool di = do_.init.empty() || do_.init[dof + i];
	if (!si && !di)
	{
	    v.push_back(nullptr);
	    continue;
	}
	v.push_back(mkIte(in, getByte(S, s.id, so + i), getByte(S, d.id, dof + i)));
    }
    Obj& o = wr(S, d.id);
    for (uint64_t i = 0; i < v.size(); i++)
	if (v[i]) setByte(o, dof + i, v[i]);
}

static void doMemset(State& S, E dst, E c, E len)
{
    c = mkExtract(c, 0, 8);
    if (len->isC())
    {
	uint64_t n = len->val;
	if (!n) return;
	Loc d = resolve(S, dst, n, "write", true);
	uint64_t off = d.concrete ? d.off : concretize(S, d.addr);
	Obj& o = wr(S, d.id);
	for (uint64_t i = 0; i < n; i++) setByte(o, off + i, c);
	return;
    }
    len = mkZTrunc(len, PW);
    if (!decide(S, mkNe(len, mkConst(0, PW)))) return;
    Loc      d = resolve(S, dst, 1, "write", true);
    uint64_t off = d.concrete ? d.off : concretize(S, d.addr);
    uint64_t ld = S.objs[d.id]->size - off;
    mustNot(S, mkBin(K::Ult, mkConst(ld, PW), len), "memory", "fill writes out of bounds of " + S.objs[d.id]->name);
    uint64_t lo, hi;
    urange(len, lo, hi);
    std::vector<E> v;
    for (uint64_t i = 0; i < std::min(ld, hi); i++)
	v.push_back(mkIte(mkBin(K::Ult, mkConst(i, PW), len), c, getByte(S, d.id, off + i)));
    Obj& o = wr(S, d.id);
    for (uint64_t i = 0; i < v.size(); i++) setByte(o, off + i, v[i]);
}

static E popcountE(E a)
{
    unsigned w = a->width;
    if (a->isC()) return mkConst(__builtin_popcountll(a->val), w);
    E r = mkConst(0, w);
    for (unsigned i = 0; i < w; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(a, i, 1), w));
    return r;
}

static double hostFn(const std::string& n, double a, double b)
{
    if (n == "pow") return std::pow(a, b);
    if (n == "sin") return std::sin(a);
    if (n == "cos") return std::cos(a);
    if (n == "tan") return std::tan(a);
    if (n == "atan") return std::atan(a);
    if (n == "asin") return std::asin(a);
    if (n == "acos") return std::acos(a);
    if (n == "exp") return std::exp(a);
    if (n == "exp2") return std::exp2(a);
    if (n == "log") return std::log(a);
    if (n == "log2") return std::log2(a);
    if (n == "log10") return std::log10(a);
    if (n == "atan2") return std::atan2(a, b);
    if (n == "hypot") return std::hypot(a, b);
    if (n == "sinh") return std::sinh(a);
    if (n == "cosh") return std::cosh(a);
    if (n == "tanh") return std::tanh(a);
    if (n == "ldexp") return std::ldexp(a, (int)b);
    return NAN;
}

static E mathFn(const std::string& n, const std::vector<E>& a)
{
    bool conc = true;
    for (auto x : a) conc &= x->isC();
    if (conc && a[0]->width == 64) return mkConst(dToBits(hostFn(n, bitsToD(a[0]->val), a.size() > 1 ? bitsToD(a[1]->val) : 0)), 64);
    return mkUF(n, a[0]->width, a);
}

static bool handleIntrinsic(State& S, const Inst& in, const CallBase* cb, std::vector<Val>& a, Val& ret)
{
    auto ii = dyn_cast<IntrinsicInst>(cb);
    if (!ii) return false;
    unsigned w = in.width;
    auto     E0 = [&](int i) { return a[i].e; };
    switch (ii->getIntrinsicID())
    {
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::assume:
    case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::prefetch:
    case Intrinsic::stackrestore:
    case Intrinsic::vaend:
    case Intrinsic::invariant_end:
    case Intrinsic::var_annotation: return true;
    case Intrinsic::invariant_start:
    case Intrinsic::stacksave: ret = mkConst(0, PW); return true;
    case Intrinsic::init_trampoline: // remembered as two pointers in the trampoline's memory: function, nest argument
	writeMem(S, a[0].e, a[1].e, PW / 8);
	writeMem(S, mkBin(K::Add, a[0].e, mkConst(PW / 8, PW)), a[2].e, PW / 8);
	return true;
    case Intrinsic::adjust_trampoline: ret = a[0]; return true;
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy: ret = a[0]; return true;
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: doMemcpy(S, E0(0), E0(1), E0(2)); return true;
    case Intrinsic::memset:
    case Intrinsic::memset_inline: doMemset(S, E0(0), E0(1), E0(2)); return true;
    case Intrinsic::objectsize:
	ret = mkConst(cast<ConstantInt>(cb->getArgOperand(1))->isZero() ? ~0ull : 0, w);
	return true;
    case Intrinsic::is_constant: ret = mkConst(0, 1); return true;
    case Intrinsic::trap:
    case Intrinsic::debugtrap:
    case Intrinsic::ubsantrap:
	mustNot(S, mkTrue(), "trap", "trap executed");
	throw StateDead();
    case Intrinsic::smax: ret = map2(a[0], a[1], [](E x, E y) { return mkIte(mkBin(K::Slt, x, y), y, x); }); return true;
    case Intrinsic::smin: ret = map2(a[0], a[1], [](E x, E y) { return mkIte(mkBin(K::Slt, x, y), x, y); }); return true;
    case Intrinsic::umax: ret = map2(a[0], a[1], [](E x, E y) { return mkIte(mkBin(K::Ult, x, y), y, x); }); return true;
    case Intrinsic::umin: ret = map2(a[0], a[1], [](E x, E y) { return mkIte(mkBin(K::Ult, x, y), x, y); }); return true;
    case Intrinsic::abs:
	ret = map1(a[0], [](E x) {
	    return mkIte(mkBin(K::Slt, x, mkConst(0, x->width)), mkBin(K::Sub, mkConst(0, x->width), x), x);
	});
	return true;
    case Intrinsic::ctpop: ret = map1(a[0], [](E x) { return popcountE(x); }); return true;
    case Intrinsic::bswap:
	ret = map1(a[0], [](E x) {
	    E r = mkExtract(x, 0, 8);
	    for (unsigned i = 8; i < x->width; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
	    return r;
	});
	return true;
    case Intrinsic::ctlz:
    case Intrinsic::cttz:
    {
	bool lz = ii->getIntrinsicID() == Intrinsic::ctlz;
	ret = map1(a[0], [lz](E x) {
	    unsigned n = x->width;
	    E        r = mkConst(n, n);
	    for (unsigned i = 0; i < n; i++)
	    {
		unsigned bit = lz ? i : n - 1 - i;
		r = mkIte(mkExtract(x, bit, 1), mkConst(lz ? n - 1 - bit : bit, n), r);
	    }
	    return r;
	});
	return true;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr:
    {
	bool left = ii->getIntrinsicID() == Intrinsic::fshl;
	if (!a[0].e) return false;
	unsigned n = a[0].e->width;
	E        cat = mkConcat(a[0].e, a[1].e);
	E        amt = mkBin(K::URem, a[2].e, mkConst(n, n));
	if (amt->isC())
	    ret = left ? mkExtract(cat, n - amt->val, n) : mkExtract(cat, amt->val, n);
	else if (n <= 32)
	{
	    E sh = left ? mkBin(K::Sub, mkConst(n, n), amt) : amt;
	    ret = mkExtract(mkBin(K::LShr, cat, mkZExt(sh, 2 * n)), 0, n);
	}
	else
	    return false;
	return true;
    }
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::umul_with_overflow:
    {
	auto     id = ii->getIntrinsicID();
	bool     sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
	unsigned n = a[0].e->width;
	K        k = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? K::Add
	             : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? K::Sub
	                                                                                           : K::Mul;
	unsigned W = k == K::Mul ? 2 * n : n + 1;
	E        x = sg ? mkSExt(a[0].e, W) : mkZExt(a[0].e, W), y = sg ? mkSExt(a[1].e, W) : mkZExt(a[1].e, W);
	E        full = mkBin(k, x, y);
	E        r = mkBin(k, a[0].e, a[1].e);
	E        back = sg ? mkSExt(r, W) : mkZExt(r, W);
	std::vector<Val> v{ r, mkNe(full, back) };
	ret = Val(std::move(v));
	return true;
    }
    case Intrinsic::usub_sat:
	ret = map2(a[0], a[1], [](E x, E y) { return mkIte(mkBin(K::Ult, x, y), mkConst(0, x->width), mkBin(K::Sub, x, y)); });
	return true;
    case Intrinsic::uadd_sat:
	ret = map2(a[0], a[1], [](E x, E y) {
	    E s = mkBin(K::Add, x, y);
	    return mkIte(mkBin(K::Ult, s, x), mkConst(~0ull, x->width), s);
	});
	return true;
    case Intrinsic::fabs:
	ret = map1(a[0], [](E x) { return mkZExt(mkExtract(x, 0, x->width - 1), x->width); });
	return true;
    case Intrinsic::copysign:
	ret = map2(a[0], a[1], [](E x, E y) {
	    return mkConcat(mkExtract(y, y->width - 1, 1), mkExtract(x, 0, x->width - 1));
	});
	return true;
    case Intrinsic::sqrt: ret = map1(a[0], [](E x) { return mkF(K::FSqrt, x->width, x); }); return true;
    case Intrinsic::trunc: ret = map1(a[0], [](E x) { return mkF(K::FRound, x->width, x, nullptr, 0); }); return true;
    case Intrinsic::floor: ret = map1(a[0], [](E x) { return mkF(K::FRound, x->width, x, nullptr, 1); }); return true;
    case Intrinsic::ceil: ret = map1(a[0], [](E x) { return mkF(K::FRound, x->width, x, nullptr, 2); }); return true;
    case Intrinsic::rint:
    case Intrinsic::nearbyint:
    case Intrinsic::roundeven: ret = map1(a[0], [](E x) { return mkF(K::FRound, x->width, x, nullptr, 3); }); return true;
    case Intrinsic::round: ret = map1(a[0], [](E x) { return mkF(K::FRound, x->width, x, nullptr, 4); }); return true;
    case Intrinsic::lround:
    case Intrinsic::llround:
    {
	E r = mkF(K::FRound, a[0].e->width, a[0].e, nullptr, 4);
	ret = castOp(Instruction::FPToSI, r, w, &S);
	return true;
    }
    case Intrinsic::fmuladd:
	ret = mkF(K::FAdd, w, mkF(K::FMul, w, a[0].e, a[1].e), a[2].e);
	return true;
    case Intrinsic::minnum:
    case Intrinsic::maxnum:
    {
	bool mx = ii->getIntrinsicID() == Intrinsic::maxnum;
	ret = map2(a[0], a[1], [mx](E x, E y) {
	    E lt = mkFCmp(4, x, y);
	    E r = mx ? mkIte(lt, y, x) : mkIte(lt, x, y);
	    r = mkIte(mkFIsNaN(x), y, r);
	    return mkIte(mkFIsNaN(y), x, r);
	});
	return true;
    }
    case Intrinsic::pow: ret = mathFn("pow", { a[0].e, a[1].e }); return true;
    case Intrinsic::powi:
    {
	ret = mkUF("powi", w, { a[0].e, a[1].e });
	return true;
    }
    case Intrinsic::sin: ret = mathFn("sin", { a[0].e }); return true;
    case Intrinsic::cos: ret = mathFn("cos", { a[0].e }); return true;
    case Intrinsic::exp: ret = mathFn("exp", { a[0].e }); return true;
    case Intrinsic::exp2: ret = mathFn("exp2", { a[0].e }); return true;
    case Intrinsic::log: ret = mathFn("log", { a[0].e }); return true;
    case Intrinsic::log2: ret = mathFn("log2", { a[0].e }); return true;
    case Intrinsic::log10: ret = mathFn("log10", { a[0].e }); return true;
    case Intrinsic::fptosi_sat:
    {
	// saturating conversion
	E x = a[0].e;
	E lo = mkConst(dToBits(-std::ldexp(1.0, w - 1)), 64), hi = mkConst(dToBits(std::ldexp(1.0, w - 1)), 64);
	if (x->width != 64) return false;
	E r = mkF(K::FPToSI, w, x);
	r = mkIte(mkFCmp(4, x, lo), mkConst(1ull << (w - 1), w), r);
	r = mkIte(mkFCmp(3, x, hi), mkConst(maskOf(w) >> 1, w), r);
	ret = mkIte(mkFIsNaN(x), mkConst(0, w), r);
	return true;
    }
    case Intrinsic::is_fpclass:
    {
	unsigned mask = cast<ConstantInt>(cb->getArgOperand(1))->getZExtValue();
	E        x = a[0].e;
	unsigned W = x->width;
	E        mag = mkExtract(x, 0, W - 1), sign = mkExtract(x, W - 1, 1);
	E        inf = mkConst(W == 64 ? 0x7ff0000000000000ull : 0x7f800000u, W - 1);
	E        r = mkFalse();
	E        isInf = mkEq(inf, mag), isNan = mkBin(K::Ult, inf, mag), isZero = mkEq(mkConst(0, W - 1), mag);
	E        minN = mkConst(W == 64 ? 0x0010000000000000ull : 0x00800000u, W - 1);
	E        isSub = mkAnd(mkNot(isZero), mkBin(K::Ult, mag, minN));
	E        isNorm = mkAnd(mkBin(K::Ule, minN, mag), mkBin(K::Ult, mag, inf));
	auto     add = [&](unsigned bit, E c) {
            if (mask & bit) r = mkOr(r, c);
	};
	add(3, isNan);
	add(4, mkAnd(isInf, sign));
	add(8, mkAnd(isNorm, sign));
	add(16, mkAnd(isSub, sign));
	add(32, mkAnd(isZero, sign));
	add(64, mkAnd(isZero, mkNot(sign)));
	add(128, mkAnd(isSub, mkNot(sign)));
	add(256, mkAnd(isNorm, mkNot(sign)));
	add(512, mkAnd(isInf, mkNot(sign)));
	ret = r;
	return true;
    }
    case Intrinsic::vector_reduce_add:
    case Intrinsic::vector_reduce_or:
    case Intrinsic::vector_reduce_and:
    case Intrinsic::vector_reduce_xor:
    case Intrinsic::vector_reduce_mul:
    case Intrinsic::vector_reduce_smax:
    case Intrinsic::vector_reduce_smin:
    case Intrinsic::vector_reduce_umax:
    case Intrinsic::vector_reduce_umin:
    {
	E r = (*a[0].agg)[0].e;
	for (size_t i = 1; i < a[0].agg->size(); i++)
	{
	    E x = (*a[0].agg)[i].e;
	    switch (ii->getIntrinsicID())
	    {
	    case Intrinsic::vector_reduce_add: r = mkBin(K::Add, r, x); break;
	    case Intrinsic::vector_reduce_or: r = mkBin(K::Or, r, x); break;
	    case Intrinsic::vector_reduce_and: r = mkBin(K::And, r, x); break;
	    case Intrinsic::vector_reduce_xor: r = mkBin(K::Xor, r, x); break;
	    case Intrinsic::vector_reduce_mul: r = mkBin(K::Mul, r, x); break;
	    case Intrinsic::vector_reduce_smax: r = mkIte(mkBin(K::Slt, r, x), x, r); break;
	    case Intrinsic::vector_reduce_smin: r = mkIte(mkBin(K::Slt, r, x), r, x); break;
	    case Intrinsic::vector_reduce_umax: r = mkIte(mkBin(K::Ult, r, x), x, r); break;
	    default: r = mkIte(mkBin(K::Ult, r, x), r, x); break;
	    }
	}
	ret = r;
	return true;
    }
    case Intrinsic::vastart:
    {
	Frame&   f = S.stack.back();
	unsigned slot = PW / 8;
	uint64_t size = 0;
	for (auto& p : f.varargs) size += std::max<uint64_t>(slot, (DL->getTypeStoreSize(p.first) + slot - 1) / slot * slot);
	uint32_t id = newObj(S, size + slot, ObjKind::Stack, "varargs", false);
	S.stack.back().allocas.push_back(id);
	E        base = addrOf(S, id);
	uint64_t off = 0;
	for (auto& p : S.stack.back().varargs)
	{
	    storeTy(S, p.first, mkBin(K::Add, base, mkConst(off, PW)), p.second);
	    off += std::max<uint64_t>(slot, (DL->getTypeStoreSize(p.first) + slot - 1) / slot * slot);
	}
	E ap = a[0].e;
	if (PW == 64)
	{
	    writeMem(S, ap, mkConst(48, 32), 4);
	    writeMem(S, mkBin(K::Add, ap, mkConst(4, PW)), mkConst(176, 32), 4);
	    writeMem(S, mkBin(K::Add, ap, mkConst(8, PW)), base, 8);
	    writeMem(S, mkBin(K::Add, ap, mkConst(16, PW)), base, 8);
	}
	else
	    writeMem(S, ap, base, 4);
	return true;
    }
    case Intrinsic::vacopy: doMemcpy(S, a[0].e, a[1].e, mkConst(PW == 64 ? 24 : 4, PW)); return true;
    default: break;
    }
    incomplete["unsupported-intrinsic:" + cb->getCalledFunction()->getName().str()]++;
    throw StateDead();
}

static void registerHandlers();

static bool badCallOk = getenv("SYMEX_BADCALL") != nullptr;

static void doCall(State& S, const Inst& in)
{
    Frame&      f = S.stack.back();
    auto        cb = cast<CallBase>(in.I);
    std::vector<Val> args;
    for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(op(S, f, in.ops[i]));
    const Function* F = cb->getCalledFunction();
    if (!F)
    {
	if (cb->isInlineAsm())
	{
	    if (in.dst >= 0) setReg(S, in, undefOf(S, cb->getType()));
	    S.stack.back().ip++;
	    return;
	}
	const Value* cv = cb->getCalledOperand()->stripPointerCasts();
	if (auto ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
	F = dyn_cast<Function>(cv);
	if (!F)
	{
	    int calleeIdx = in.ops[in.ops.size() - 1];
	    E   p = op(S, f, calleeIdx).e;
	    uint64_t v = concretize(S, p);
	    int id = findByAddr(S, v);
	    if (id >= 0 && !S.objs[id]->fn && S.objs[id]->size - (v - S.objs[id]->base) >= PW / 4)
	    {
		// a call of a trampoline: the function with its nest argument added
		uint64_t off = v - S.objs[id]->base;
		E        fp = loadBytes(S, id, off, PW / 8);
		int      fid = fp->isC() ? findByAddr(S, fp->val) : -1;
		if (fid >= 0 && S.objs[fid]->fn && S.objs[fid]->base == fp->val)
		    for (auto& arg : S.objs[fid]->fn->args())
			if (arg.hasNestAttr())
			{
			    args.insert(args.begin() + std::min<size_t>(arg.getArgNo(), args.size()), loadBytes(S, id, off + PW / 8, PW / 8));
			    id = fid;
			    v = S.objs[id]->base;
			    break;
			}
	    }
	    if (id < 0 || !S.objs[id]->fn || S.objs[id]->base != v)
	    {
		mustNot(S, mkTrue(), "memory", "call through invalid function pointer");
		throw StateDead();
	    }
	    F = S.objs[id]->fn;
	}
    }
    uint32_t demoted = 0;
    if (F->arg_size() && F->hasStructRetAttr() && args.size() + 1 == F->arg_size() && in.I->getType()->isSized() && in.I->getType()->isAggregateType())
    {
	// a large result is returned through a hidden pointer
	demoted = newObj(S, DL->getTypeAllocSize(in.I->getType()), ObjKind::Stack, "result", false);
	args.insert(args.begin(), addrOf(S, demoted));
    }
    else if (cb->getFunctionType() != F->getFunctionType() && !badCallOk)
    {
	// a structure passed by value travels like its fields one by one
	std::vector<Type*> pts;
	for (unsigned i = 0; i < cb->getFunctionType()->getNumParams(); i++)
	{
	    Type* t = cb->getFunctionType()->getParamType(i);
	    auto* st = dyn_cast<StructType>(t);
	    if (!st || pts.size() >= F->arg_size() || F->getArg(pts.size())->getType()->isAggregateType() ||
		!std::all_of(st->element_begin(), st->element_end(), [](Type* x) { return x->isDoubleTy(); }))
	    {
		pts.push_back(t);
		continue;
	    }
	    unsigned k = pts.size();
	    std::vector<Val> fields = *args[k].agg;
	    if (F->getArg(k)->hasByValAttr())
	    {
		uint32_t o = newObj(S, DL->getTypeAllocSize(st), ObjKind::Stack, "argument", false);
		storeTy(S, st, addrOf(S, o), args[k]);
		args[k] = addrOf(S, o);
		pts.push_back(F->getArg(k)->getType());
		continue;
	    }
	    args.erase(args.begin() + k);
	    args.insert(args.begin() + k, fields.begin(), fields.end());
	    pts.insert(pts.end(), st->element_begin(), st->element_end());
	}
	// a call through another signature is undefined unless the machine types agree
	const FunctionType* ct = cb->getFunctionType();
	const FunctionType* ft = F->getFunctionType();
	bool whole = cb->arg_size() == ct->getNumParams() && args.size() == pts.size();
	bool bad = whole && pts.size() != ft->getNumParams() && !ft->isVarArg() && !ct->isVarArg();
	auto differ = [](Type* x, Type* y) {
	    if (x == y) return false;
	    if (x->isPointerTy() || y->isPointerTy()) return !(x->isPointerTy() && y->isPointerTy());
	    if (x->isIntegerTy() && y->isIntegerTy())
		return x->getIntegerBitWidth() != y->getIntegerBitWidth() && std::max(x->getIntegerBitWidth(), y->getIntegerBitWidth()) > 8;
	    if (x->isFloatingPointTy() || y->isFloatingPointTy()) return true;
	    return false;
	};
	for (unsigned i = 0; whole && i < std::min<size_t>(pts.size(), ft->getNumParams()); i++)
	{
	    Type *x = pts[i], *y = ft->getParamType(i);
	    // in a register only the low bits count
	    if (differ(x, y) && !(x->isIntegerTy(1) && y->isIntegerTy()) && !(PW == 64 && !F->isIntrinsic() && x->isIntegerTy() && y->isIntegerTy() && x->getIntegerBitWidth() > y->getIntegerBitWidth())) bad = true;
	}
	Type *x = ct->getReturnType(), *y = ft->getReturnType();
	if (!x->isVoidTy() && !in.I->use_empty() && differ(x, y) &&
	    !(!F->isIntrinsic() && x->isIntegerTy() && y->isIntegerTy() && x->getIntegerBitWidth() < y->getIntegerBitWidth()))
	    bad = true;
	if (bad)
	{
	    mustNot(S, mkTrue(), "ub", "call of " + F->getName().str() + " with arguments of other types than it has");
	    throw StateDead();
	}
    }
    Val ret;
    if (F->isIntrinsic())
    {
	auto id = F->getIntrinsicID();
	if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume)
	{
	    f.ip++;
	    return;
	}
	if (!handleIntrinsic(S, in, cb, args, ret))
	{
	    incomplete["unsupported-intrinsic:" + F->getName().str()]++;
	    throw StateDead();
	}
	setReg(S, in, ret);
	S.stack.back().ip++;
	return;
    }
    std::string n = fnName(F);
    auto        it = handlers.find(n);
    const Handler* h = nullptr;
    if (it != handlers.end())
	h = &it->second;
    else
    {
	FnInfo* fi = prepare(F);
	if (fi->handler == -2)
	{
	    fi->handler = -1;
	    for (size_t i = 0; i < prefixHandlers.size(); i++)
		if (n.compare(0, prefixHandlers[i].first.size(), prefixHandlers[i].first) == 0) fi->handler = i;
	}
	if (fi->handler >= 0) h = &prefixHandlers[fi->handler].second;
    }
    // library definitions supplied in IR win over natives unless the native is a sym_ primitive
    bool isSym = n.compare(0, 4, "sym_") == 0;
    if (h && (isSym || F->isDeclaration() || n.compare(0, 4, "_ZSt") == 0 || n.compare(0, 5, "_ZNSo") == 0 || n.compare(0, 8, "_ZNSolsE") == 0 || n.compare(0, 5, "_ZNSt") == 0))
    {
	H r = (*h)(S, in, cb, args, ret);
	if (r == H::Called) return;
	if (in.dst >= 0)
	{
	    if (!ret.e && !ret.agg) ret = zeroOf(cb->getType());
	    if (ret.e && in.width && ret.e->width != in.width) ret = mkZTrunc(ret.e, in.width);
	    setReg(S, in, ret);
	}
	if (auto inv = dyn_cast<InvokeInst>(in.I))
	    gotoBlock(S, S.stack.back().fn->bbIdx[inv->getNormalDest()]);
	else
	    S.stack.back().ip++;
	return;
    }
    if (F->isDeclaration())
    {
	unknownExternals.insert(n);
	incomplete["unmodelled-external:" + n]++;
	throw StateDead();
    }
    pushFrame(S, F, args, &in, cb);
    if (demoted)
    {
	S.stack.back().demoted = demoted;
	S.stack.back().allocas.push_back(demoted);
    }
}

// ---- the interpreter loop -----------------------------------------------------------------------------------------
static void step(State& S)
{
    Frame&      f = S.stack.back();
    const Inst& in = f.fn->blocks[f.bb].insts[f.ip];
    f.fn->executed++;
    S.steps++;
    totalSteps++;
    switch (in.opc)
    {
    case Instruction::Ret:
    {
	Val v;
	if (!in.ops.empty()) v = op(S, f, in.ops[0]);
	doReturn(S, v);
	return;
    }
    case Instruction::Br:
    {
	auto br = cast<BranchInst>(in.I);
	if (br->isUnconditional())
	{
	    gotoBlock(S, in.succ[0]);
	    return;
	}
	// operands: cond, false, true
	E c = op(S, f, in.ops[0]).e;
	bool t = decide(S, c);
	gotoBlock(S, t ? in.succ[0] : in.succ[1]);
	return;
    }
    case Instruction::Switch:
    {
	auto sw = cast<SwitchInst>(in.I);
	E    v = op(S, f, in.ops[0]).e;
	if (v->isC())
	{
	    auto c = sw->findCaseValue(ConstantInt::get(Ctx, APInt(v->width, v->val)));
	    gotoBlock(S, f.fn->bbIdx[c->getCaseSuccessor()]);
	    return;
	}
	// group cases by destination
	std::vector<std::pair<const BasicBlock*, E>> groups;
	for (auto& c : sw->cases())
	{
	    const BasicBlock* d = c.getCaseSuccessor();
	    E                 m = mkEq(mkConstAP(c.getCaseValue()->getValue()), v);
	    if (m->isFalse()) continue;
	    bool found = false;
	    for (auto& g : groups)
		if (g.first == d)
		{
		    g.second = mkOr(g.second, m);
		    found = true;
		}
	    if (!found) groups.push_back({ d, m });
	}
	for (auto& g : groups)
	{
	    if (g.first == sw->getDefaultDest()) continue;
	    if (decide(S, g.second))
	    {
		gotoBlock(S, S.stack.back().fn->bbIdx[g.first]);
		return;
	    }
	}
	gotoBlock(S, S.stack.back().fn->bbIdx[sw->getDefaultDest()]);
	return;
    }
    case Instruction::Unreachable:
	mustNot(S, mkTrue(), "trap", "unreachable code reached");
	throw StateDead();
    case Instruction::Alloca:
    {
	auto     ai = cast<AllocaInst>(in.I);
	E        cnt = op(S, f, in.ops[0]).e;
	uint64_t n = cnt->isC() ? cnt->val : concretize(S, cnt);
	uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n;
	if (sz > (64u << 20))
	{
	    incomplete["huge-alloca"]++;
	    throw StateDead();
	}
	uint32_t id = newObj(S, sz, ObjKind::Stack, fnName(f.fn->F) + "." + ai->getName().str(), false, ai->getAlign().value());
	S.stack.back().allocas.push_back(id);
	setReg(S, in, addrOf(S, id));
	break;
    }
    case Instruction::Load:
    {
	Val v = loadTy(S, in.I->getType(), op(S, f, in.ops[0]).e);
	setReg(S, in, v);
	break;
    }
    case Instruction::Store:
    {
	auto st = cast<StoreInst>(in.I);
	storeTy(S, st->getValueOperand()->getType(), op(S, f, in.ops[1]).e, op(S, f, in.ops[0]));
	break;
    }
    case Instruction::GetElementPtr:
    {
	Val b = op(S, f, in.ops[0]);
	if (!b.e || in.I->getType()->isVectorTy())
	{
	    incomplete["vector-gep"]++;
	    throw StateDead();
	}
	E p = b.e;
	if (in.gepConst) p = mkBin(K::Add, p, mkConst(in.gepConst, PW));
	for (auto& g : in.gepVar)
	{
	    E i = mkSTrunc(op(S, f, g.first).e, PW);
	    p = mkBin(K::Add, p, mkBin(K::Mul, mkConst(g.second, PW), i));
	}
	setReg(S, in, p);
	break;
    }
    case Instruction::ICmp:
    {
	auto     c = cast<ICmpInst>(in.I);
	unsigned p = c->getPredicate();
	Val      a = op(S, f, in.ops[0]), b = op(S, f, in.ops[1]);
	setReg(S, in, map2(a, b, [p](E x, E y) { return icmp(p, x, y); }));
	break;
    }
    case Instruction::FCmp:
    {
	unsigned p = cast<FCmpInst>(in.I)->getPredicate();
	Val      a = op(S, f, in.ops[0]), b = op(S, f, in.ops[1]);
	setReg(S, in, map2(a, b, [p](E x, E y) { return mkFCmp(p, x, y); }));
	break;
    }
    case Instruction::Select:
    {
	Val c = op(S, f, in.ops[0]), t = op(S, f, in.ops[1]), e = op(S, f, in.ops[2]);
	if (c.e)
	    setReg(S, in, iteVal(c.e, t, e));
	else
	{
	    std::vector<Val> v;
	    for (size_t i = 0; i < c.agg->size(); i++) v.push_back(iteVal((*c.agg)[i].e, (*t.agg)[i], (*e.agg)[i]));
	    setReg(S, in, Val(std::move(v)));
	}
	break;
    }
    case Instruction::FNeg:
	setReg(S, in, map1(op(S, f, in.ops[0]), [](E x) {
	           return mkConcat(mkNot(mkExtract(x, x->width - 1, 1)), mkExtract(x, 0, x->width - 1));
	       }));
	break;
    case Instruction::Freeze: setReg(S, in, op(S, f, in.ops[0])); break;
    case Instruction::ExtractValue:
    {
	auto ev = cast<ExtractValueInst>(in.I);
	Val  v = op(S, f, in.ops[0]);
	for (unsigned i : ev->indices())
	{
	    Val t = (*v.agg)[i];
	    v = t;
	}
	setReg(S, in, v);
	break;
    }
    case Instruction::InsertValue:
    {
	auto iv = cast<InsertValueInst>(in.I);
	Val  agg = op(S, f, in.ops[0]), x = op(S, f, in.ops[1]);
	std::function<Val(const Val&, unsigned)> ins = [&](const Val& a, unsigned d) -> Val {
	    if (d == iv->getNumIndices()) return x;
	    std::vector<Val> v(*a.agg);
	    v[iv->getIndices()[d]] = ins(v[iv->getIndices()[d]], d + 1);
	    return Val(std::move(v));
	};
	setReg(S, in, ins(agg, 0));
	break;
    }
    case Instruction::ExtractElement:
    {
	Val v = op(S, f, in.ops[0]);
	E   i = op(S, f, in.ops[1]).e;
	if (i->isC())
	    setReg(S, in, i->val < v.agg->size() ? (*v.agg)[i->val] : undefOf(S, in.I->getType()));
	else
	{
	    E r = (*v.agg)[0].e;
	    for (size_t k = 1; k < v.agg->size(); k++) r = mkIte(mkEq(mkConst(k, i->width), i), (*v.agg)[k].e, r);
	    setReg(S, in, r);
	}
	break;
    }
    case Instruction::InsertElement:
    {
	Val v = op(S, f, in.ops[0]), x = op(S, f, in.ops[1]);
	E   i = op(S, f, in.ops[2]).e;
	std::vector<Val> r(*v.agg);
	if (i->isC())
	{
	    if (i->val < r.size()) r[i->val] = x;
	}
	else
	    for (size_t k = 0; k < r.size(); k++) r[k] = mkIte(mkEq(mkConst(k, i->width), i), x.e, r[k].e);
	setReg(S, in, Val(std::move(r)));
	break;
    }
    case Instruction::ShuffleVector:
    {
	auto sv = cast<ShuffleVectorInst>(in.I);
	Val  a = op(S, f, in.ops[0]), b = op(S, f, in.ops[1]);
	std::vector<Val> r;
	unsigned n = a.agg->size();
	Type* et = cast<VectorType>(sv->getType())->getElementType();
	for (int m : sv->getShuffleMask())
	{
	    if (m < 0)
		r.push_back(undefOf(S, et));
	    else
		r.push_back((unsigned)m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
	}
	setReg(S, in, Val(std::move(r)));
	break;
    }
    case Instruction::Call:
    case Instruction::Invoke: doCall(S, in); return;
    case Instruction::Fence: break;
    case Instruction::AtomicRMW:
    {
	auto rm = cast<AtomicRMWInst>(in.I);
	E    p = op(S, f, in.ops[0]).e, v = op(S, f, in.ops[1]).e;
	E    old = loadTy(S, rm->getType(), p).e;
	E    nv = rm->getOperation() == AtomicRMWInst::Add   ? mkBin(K::Add, old, v)
	          : rm->getOperation() == AtomicRMWInst::Sub ? mkBin(K::Sub, old, v)
	                                                     : v;
	storeTy(S, rm->getType(), p, nv);
	setReg(S, in, old);
	break;
    }
    default:
    {
	if (Instruction::isCast(in.opc))
	{
	    Type* dt = in.I->getType();
	    Val   a = op(S, f, in.ops[0]);
	    if (in.opc == Instruction::BitCast)
	    {
		bool sv = !a.e, dv = dt->isVectorTy();
		if (sv || dv)
		{
		    E flat = flattenVec(a);
		    if (dv)
		    {
			auto     vt = cast<FixedVectorType>(dt);
			unsigned ew = scalarWidth(vt->getElementType());
			std::vector<Val> r;
			for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(mkExtract(flat, i * ew, ew));
			setReg(S, in, Val(std::move(r)));
		    }
		    else
			setReg(S, in, flat);
		    break;
		}
	    }
	    unsigned w = scalarWidth(dt->getScalarType());
	    unsigned opc = in.opc;
	    setReg(S, in, map1(a, [&](E x) { return castOp(opc, x, w, &S); }));
	    break;
	}
	if (Instruction::isBinaryOp(in.opc))
	{
	    Val      a = op(S, f, in.ops[0]), b = op(S, f, in.ops[1]);
	    unsigned opc = in.opc;
	    if (a.e)
	    {
		E r = binOp(S, opc, a.e, b.e);
		setReg(S, in, r);
	    }
	    else
		setReg(S, in, map2(a, b, [&](E x, E y) { return binOp(S, opc, x, y); }));
	    break;
	}
	incomplete[std::string("unsupported-instruction:") + in.I->getOpcodeName()]++;
	throw StateDead();
    }
    }
    S.stack.back().ip++;
}

static void runAll(State* init)
{
    work.push_back(init);
    while (!work.empty() && !stopAll)
    {
	State* S = work.back();
	work.pop_back();
	if (pathsDone + pathsKilled >= maxPaths)
	{
	    incomplete["path-limit"]++;
	    break;
	}
	try
	{
	    uint64_t n = 0;
	    for (;;)
	    {
		if (S->stack.empty())
		{
		    if (S->pending.empty()) break;
		    const Function* F = S->pending.front();
		    S->pending.erase(S->pending.begin());
		    pushFrame(*S, F, {}, nullptr, nullptr);
		    continue;
		}
		if (S->ended) break;
		step(*S);
		if (S->steps > maxSteps)
		{
		    incomplete["step-limit"]++;
		    if (stepLimitIsViolation)
		    {
			Model m;
			if (mayBeTrue(*S, mkTrue(), &m)) report(*S, "nontermination", "step limit reached", m);
		    }
		    throw StateDead();
		}
		if ((++n & 0xfff) == 0 && elapsed() > maxTime)
		{
		    incomplete["time-limit"]++;
		    stopAll = true;
		    throw StateDead();
		}
	    }
	    pathsDone++;
	}
	catch (StateDead&)
	{
	    pathsKilled++;
	}
	delete S;
	if (elapsed() > maxTime && !work.empty() && !stopAll)
	{
	    incomplete["time-limit"]++;
	    stopAll = true;
	}
    }
    if (!work.empty() && violations.size() >= 40) incomplete["violation-limit"]++;
    for (auto s : work) delete s;
    work.clear();
}

// ---- natives ------------------------------------------------------------------------------------------------------
static void registerHandlers()
{
    auto reg = [](const char* n, Handler h) { handlers[n] = h; };
#define HF [](State & S, const Inst& in, const CallBase* cb, std::vector<Val>& a, Val& ret) -> H
    reg("sym_val", HF {
	// uint64_t sym_val(int bits, const char* name)
	unsigned    bits = concretize(S, a[0].e);
	std::string nm = readCStr(S, a[1].e);
	E           s = inputSym(S, nm, bits);
	InputRec    r;
	r.name = nm;
	unsigned nb = (bits + 7) / 8;
	E        z = mkZExt(s, nb * 8);
	for (unsigned i = 0; i < nb; i++) r.bytes.push_back(mkExtract(z, 8 * i, 8));
	S.inputs.push_back(r);
	ret = mkZExt(s, 64);
	return H::Done;
    });
    reg("sym_bytes", HF {
	// void sym_bytes(void* p, size_t n, const char* name)
	uint64_t    n = concretize(S, a[1].e);
	std::string nm = readCStr(S, a[2].e);
	InputRec    r;
	r.name = nm;
	std::vector<E> v;
	for (uint64_t i = 0; i < n; i++) v.push_back(inputSym(S, nm, 8));
	for (uint64_t i = 0; i < n; i++)
	{
	    writeMem(S, mkBin(K::Add, a[0].e, mkConst(i, PW)), v[i], 1);
	    r.bytes.push_back(v[i]);
	}
	S.inputs.push_back(r);
	return H::Done;
    });
    reg("sym_choose", HF {
	// int sym_choose(int n, const char* name): forks over 0..n-1
	uint64_t    n = concretize(S, a[0].e);
	std::string nm = readCStr(S, a[1].e);
	E           s = inputSym(S, nm, 32);
	S.nameCount[nm]--; // re-executed after forks until decided
	if (n == 0) throw StateDead();
	E rng = mkBin(K::Ult, s, mkConst(n, 32));
	bool have = false;
	for (auto c : S.pc)
	    if (c == rng) have = true;
	if (!have)
	{
	    addPC(S, rng);
	    uint64_t v;
	    if (evalIn(S, rng, v) && !v) S.model.set(s->val, 0);
	}
	uint64_t pick = n - 1;
	for (uint64_t i = 0; i + 1 < n; i++)
	    if (decide(S, mkEq(mkConst(i, 32), s)))
	    {
		pick = i;
		break;
	    }
	S.nameCount[nm]++;
	InputRec r;
	r.name = nm;
	for (unsigned i = 0; i < 4; i++) r.bytes.push_back(mkConst((pick >> (8 * i)) & 255, 8));
	S.inputs.push_back(r);
	ret = mkConst(pick, 32);
	return H::Done;
    });
    reg("sym_assume", HF {
	E c = mkNe(mkConst(0, a[0].e->width), a[0].e);
	if (c->isTrue()) return H::Done;
	if (c->isFalse()) throw StateDead();
	uint64_t v;
	if (evalIn(S, c, v) && v)
	{
	    addPC(S, c);
	    return H::Done;
	}
	Model m;
	Sat   r = checkSat(S.pc, c, S.modelOk ? &S.model : nullptr, &m, true);
	if (r == Sat::Unsat) throw StateDead();
	if (r == Sat::Unknown)
	{
	    incomplete["solver-unknown-assume"]++;
	    S.modelOk = false;
	}
	else if (S.modelOk)
	    S.model = m;
	addPC(S, c);
	return H::Done;
    });
    auto doAssert = [](State& S, E bad, const std::string& msg) {
	asserts[msg]++;
	memChecks--;
	mustNot(S, bad, "assert", msg);
    };
    reg("sym_assert", [doAssert](State& S, const Inst& in, const CallBase* cb, std::vector<Val>& a, Val& ret) -> H {
	std::string msg = readCStr(S, a[1].e);
	doAssert(S, mkEq(mkConst(0, a[0].e->width), a[0].e), msg);
	return H::Done;
    });
    reg("sym_fail", [doAssert](State& S, const Inst& in, const CallBase* cb, std::vector<Val>& a, Val& ret) -> H {
	std::string msg = readCStr(S, a[0].e);
	doAssert(S, mkTrue(), msg);
	throw StateDead();
    });
    reg("sym_assert_mem", [doAssert](State& S, const Inst& in, const CallBase* cb, std::vector<Val>& a, Val& ret) -> H {
	// void sym_assert_mem(const void* p, const void* q, size_t n, const char* msg)
	uint64_t    n = concretize(S, a[2].e);
	std::string msg = readCStr(S, a[3].e);
	E           bad = mkFalse();
	for (uint64_t i = 0; i < n;)
	{
	    E        x = readMem(S, mkBin(K::Add, a[0].e, mkConst(i, PW)), 1);
	    E        y = readMem(S, mkBin(K::Add, a[1].e, mkConst(i, PW)), 1);
	    uint64_t step = 1;
	    // a number token (see minilibc.c): compare its 64-bit value as one term
	    if (x == y && x->isC() && (x->val == 1 || x->val == 2) && i + 10 <= n)
	    {
		i += 2 - 1;
		E x1 = readMem(S, mkBin(K::Add, a[0].e, mkConst(i, PW)), 1);
		E y1 = readMem(S, mkBin(K::Add, a[1].e, mkConst(i, PW)), 1);
		if (x1 != y1) bad = mkOr(bad, mkNe(x1, y1));
		i++;
		x = readMem(S, mkBin(K::Add, a[0].e, mkConst(i, PW)), 8);
		y = readMem(S, mkBin(K::Add, a[1].e, mkConst(i, PW)), 8);
		step = 8;
	    }
	    bad = mkOr(bad, mkNe(x, y));
	    i += step;
	}
	doAssert(S, bad, msg);
	return H::Done;
    });
    reg("sym_cover", HF {
	covers[readCStr(S, a[0].e)]++;
	return H::Done;
    });
    reg("sym_note", HF {
	std::string n = readCStr(S, a[0].e);
	if (S.notes.size() < 200) S.notes.push_back({ n, a[1].e });
	return H::Done;
    });
    reg("sym_concretize", HF {
	ret = mkConst(concretize(S, a[0].e), a[0].e->width);
	return H::Done;
    });
    reg("sym_is_symbolic", HF {
	ret = mkConst(!a[0].e->isConst(), 32);
	return H::Done;
    });
    reg("sym_native", HF {
	ret = mkConst(0, 32);
	return H::Done;
    });
    reg("sym_end", HF {
	S.ended = true;
	return H::Called;
    });
    reg("sym_try", HF {
	// int sym_try(void (*fn)(void*), void* arg): -1 on return, else exit code
	uint64_t v = concretize(S, a[0].e);
	int      id = findByAddr(S, v);
	if (id < 0 || !S.objs[id]->fn) throw StateDead();
	pushFrame(S, S.objs[id]->fn, { a[1] }, &in, nullptr, true);
	return H::Called;
    });
    reg("sym_objsize", HF {
	// size_t sym_objsize(void*): remaining bytes of the object p points into
	Loc l = resolve(S, a[0].e, 0, "query", false);
	uint64_t off = l.concrete ? l.off : concretize(S, l.addr);
	ret = mkConst(S.objs[l.id]->size - off, PW);
	return H::Done;
    });
    reg("sym_uf1", HF {
	// double-width abstract function: uint64_t sym_uf1(const char* name, uint64_t a)
	ret = mkUF(readCStr(S, a[0].e), 64, { a[1].e });
	return H::Done;
    });
    reg("sym_uf_bytes", HF {
	// uint64_t sym_uf_bytes(const char* name, const void* p, size_t n)
	uint64_t       n = concretize(S, a[2].e);
	std::vector<E> v;
	bool           conc = true;
	for (uint64_t i = 0; i < n; i++)
	{
	    E b = readMem(S, mkBin(K::Add, a[1].e, mkConst(i, PW)), 1);
	    conc &= b->isC();
	    v.push_back(b);
	}
	std::string nm = readCStr(S, a[0].e);
	if (conc && nm == "strtod")
	{
	    std::string s;
	    for (auto b : v) s += (char)b->val;
	    ret = mkConst(dToBits(strtod(s.c_str(), nullptr)), 64);
	    return H::Done;
	}
	if (v.empty()) v.push_back(mkConst(0, 8));
	ret = mkUF(nm, 64, v);
	return H::Done;
    });
    reg("sym_fmt_double", HF {
	// int sym_fmt_double(char* buf, const char* conv, int width, int prec, double v): 0 = not concrete
	std::string conv = readCStr(S, a[1].e);
	if (!a[2].e->isC() || !a[3].e->isC() || !a[4].e->isC())
	{
	    ret = mkConst(0, 32);
	    return H::Done;
	}
	char        buf[2048];
	std::string f = conv[0] == ' ' ? "% *.*" + conv.substr(1) : "%*.*" + conv;
	int n = snprintf(buf, sizeof buf, f.c_str(), (int)sextOf(a[2].e->val, 32), (int)sextOf(a[3].e->val, 32), bitsToD(a[4].e->val));
	for (int i = 0; i <= n; i++) writeMem(S, mkBin(K::Add, a[0].e, mkConst(i, PW)), mkConst((uint8_t)buf[i], 8), 1);
	ret = mkConst(n, 32);
	return H::Done;
    });
    reg("sym_print", HF {
	std::cerr << readCStr(S, a[0].e) << " " << exprStr(a[1].e, 12) << "\n";
	return H::Done;
    });
    // process
    Handler hexit = HF {
	doExit(S, mkZTrunc(a[0].e, 32));
	return H::Called;
    };
    reg("exit", hexit);
    reg("_exit", hexit);
    Handler habort = HF {
	doExit(S, mkConst(134, 32));
	return H::Called;
    };
    reg("abort", habort);
    reg("__assert_fail", HF {
	report(S, "trap", "assertion failed: " + readCStr(S, a[0].e), S.model);
	throw StateDead();
    });
    // heap
    Handler hmalloc = HF {
	uint64_t n = concretize(S, a[0].e);
	if (n > (256u << 20))
	{
	    ret = mkConst(0, PW);
	    return H::Done;
	}
	uint32_t id = newObj(S, n, ObjKind::Heap, "heap", false);
	ret = addrOf(S, id);
	return H::Done;
    };
    reg("malloc", hmalloc);
    reg("_Znwm", hmalloc);
    reg("_Znam", hmalloc);
    reg("_Znwj", hmalloc);
    reg("calloc", HF {
	uint64_t n = concretize(S, mkBin(K::Mul, a[0].e, a[1].e));
	uint32_t id = newObj(S, n, ObjKind::Heap, "heap", true);
	ret = addrOf(S, id);
	return H::Done;
    });
    Handler hfree = HF {
	E p = a[0].e;
	if (p->isC() && p->val == 0) return H::Done;
	Loc l = resolve(S, p, 0, "free", false);
	Obj& o = wr(S, l.id);
	if (o.kind != ObjKind::Heap || !l.concrete || l.off != 0)
	{
	    mustNot(S, mkTrue(), "memory", "free of a pointer that is not a heap block");
	    throw StateDead();
	}
	o.alive = false;
	o.name = "freed heap block";
	return H::Done;
    };
    reg("free", hfree);
    reg("_ZdlPv", hfree);
    reg("_ZdlPvm", hfree);
    reg("_ZdaPv", hfree);
    reg("_ZdaPvm", hfree);
    reg("realloc", HF {
	E        p = a[0].e;
	uint64_t n = concretize(S, a[1].e);
	uint32_t id = newObj(S, n, ObjKind::Heap, "heap", false);
	if (!(p->isC() && p->val == 0))
	{
	    Loc l = resolve(S, p, 0, "realloc", false);
	    uint64_t c = std::min<uint64_t>(n, S.objs[l.id]->size);
	    if (c) copyBytes(S, id, 0, l.id, 0, c);
	    wr(S, l.id).alive = false;
	}
	ret = addrOf(S, id);
	return H::Done;
    });
    // memory and strings that profit from symbolic lengths
    reg("memcpy", HF {
	doMemcpy(S, a[0].e, a[1].e, a[2].e);
	ret = a[0];
	return H::Done;
    });
    handlers["memmove"] = handlers["memcpy"];
    reg("memset", HF {
	doMemset(S, a[0].e, a[1].e, a[2].e);
	ret = a[0];
	return H::Done;
    });
    // character classification tables
    reg("__ctype_b_loc", HF {
	static const char* kinds = "b";
	(void)kinds;
	uint32_t id = newObj(S, 384 * 2, ObjKind::Global, "ctype_b", true);
	const unsigned short* t = *__ctype_b_loc();
	Obj& o = wr(S, id);
	memcpy(o.bytes.data(), t - 128, 768);
	uint32_t pid = newObj(S, PW / 8, ObjKind::Global, "ctype_b_ptr", true);
	writeMem(S, addrOf(S, pid), mkBin(K::Add, addrOf(S, id), mkConst(256, PW)), PW / 8);
	ret = addrOf(S, pid);
	return H::Done;
    });
    for (int up = 0; up < 2; up++)
	reg(up ? "__ctype_toupper_loc" : "__ctype_tolower_loc", [up](State& S, const Inst& in, const CallBase* cb, std::vector<Val>& a, Val& ret) -> H {
	    uint32_t id = newObj(S, 384 * 4, ObjKind::Global, "ctype_case", true);
	    const int* t = up ? *__ctype_toupper_loc() : *__ctype_tolower_loc();
	    Obj& o = wr(S, id);
	    memcpy(o.bytes.data(), t - 128, 384 * 4);
	    uint32_t pid = newObj(S, PW / 8, ObjKind::Global, "ctype_case_ptr", true);
	    writeMem(S, addrOf(S, pid), mkBin(K::Add, addrOf(S, id), mkConst(512, PW)), PW / 8);
	    ret = addrOf(S, pid);
	    return H::Done;
	});
    // math library
    for (const char* n : { "pow", "sin", "cos", "tan", "atan", "asin", "acos", "exp", "exp2", "log", "log2", "log10", "atan2", "hypot", "sinh", "cosh", "tanh" })
	reg(n, [n](State& S, const Inst& in, const CallBase* cb, std::vector<Val>& a, Val& ret) -> H {
	    std::vector<E> v;
	    for (auto& x : a) v.push_back(x.e);
	    ret = mathFn(n, v);
	    return H::Done;
	});
    reg("sqrt", HF { ret = mkF(K::FSqrt, 64, a[0].e); return H::Done; });
    reg("fabs", HF { ret = mkZExt(mkExtract(a[0].e, 0, 63), 64); return H::Done; });
    reg("trunc", HF { ret = mkF(K::FRound, 64, a[0].e, nullptr, 0); return H::Done; });
    reg("floor", HF { ret = mkF(K::FRound, 64, a[0].e, nullptr, 1); return H::Done; });
    reg("ceil", HF { ret = mkF(K::FRound, 64, a[0].e, nullptr, 2); return H::Done; });
    reg("rint", HF { ret = mkF(K::FRound, 64, a[0].e, nullptr, 3); return H::Done; });
    reg("nearbyint", HF { ret = mkF(K::FRound, 64, a[0].e, nullptr, 3); return H::Done; });
    reg("round", HF { ret = mkF(K::FRound, 64, a[0].e, nullptr, 4); return H::Done; });
    reg("fmod", HF { ret = mkF(K::FRem, 64, a[0].e, a[1].e); return H::Done; });
    reg("copysign", HF { ret = mkConcat(mkExtract(a[1].e, 63, 1), mkExtract(a[0].e, 0, 63)); return H::Done; });
    Handler hlround = HF {
	E r = mkF(K::FRound, 64, a[0].e, nullptr, 4);
	ret = castOp(Instruction::FPToSI, r, in.width, &S);
	return H::Done;
    };
    reg("lround", hlround);
    reg("llround", hlround);
    Handler hlrint = HF {
	E r = mkF(K::FRound, 64, a[0].e, nullptr, 3);
	ret = castOp(Instruction::FPToSI, r, in.width, &S);
	return H::Done;
    };
    reg("lrint", hlrint);
    reg("llrint", hlrint);
    Handler noop = HF { return H::Done; };
    for (const char* n : { "__cxa_atexit", "atexit", "__cxa_guard_acquire", "__cxa_guard_release", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev" })
	reg(n, noop);
    reg("__cxa_guard_acquire", HF {
	// first byte of the guard says whether it ran
	E g = readMem(S, a[0].e, 1);
	bool done = concretize(S, g);
	if (!done) writeMem(S, a[0].e, mkConst(1, 8), 1);
	ret = mkConst(!done, 32);
	return H::Done;
    });
    Handler pure = HF {
	report(S, "trap", "C++ runtime failure: " + fnName(cb->getCalledFunction()), S.model);
	throw StateDead();
    };
    prefixHandlers.push_back({ "_ZSt20__throw", pure });
    prefixHandlers.push_back({ "_ZSt19__throw", pure });
    prefixHandlers.push_back({ "_ZSt17__throw", pure });
    prefixHandlers.push_back({ "_ZSt24__throw", pure });
    prefixHandlers.push_back({ "_ZSt16__throw", pure });
    prefixHandlers.push_back({ "_ZSt21__throw", pure });
    prefixHandlers.push_back({ "_ZSt25__throw", pure });
    prefixHandlers.push_back({ "_ZSt28__throw", pure });
    prefixHandlers.push_back({ "__cxa_pure_virtual", pure });
    // diagnostics streams: text discarded
    Handler ident = HF {
	if (in.dst >= 0) ret = a[0];
	return H::Done;
    };
    prefixHandlers.push_back({ "_ZStlsI", ident });
    prefixHandlers.push_back({ "_ZNSolsE", ident });
    prefixHandlers.push_back({ "_ZSt16__ostream_insert", ident });
    prefixHandlers.push_back({ "_ZSt4endl", ident });
    prefixHandlers.push_back({ "_ZNSo", ident });
}

// ---- start up -----------------------------------------------------------------------------------------------------
static void initGlobal(State& S, uint32_t id, const Constant* c, uint64_t off)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto cd = dyn_cast<ConstantDataSequential>(c))
    {
	if (cd->getElementByteSize() == 1)
	{
	    StringRef r = cd->getRawDataValues();
	    memcpy(wr(S, id).bytes.data() + off, r.data(), r.size());
	    return;
	}
    }
    if (auto st = dyn_cast<StructType>(t))
    {
	const StructLayout* sl = DL->getStructLayout(st);
	for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(S, id, c->getAggregateElement(i), off + sl->getElementOffset(i));
	return;
    }
    if (auto at = dyn_cast<ArrayType>(t))
    {
	uint64_t es = DL->getTypeAllocSize(at->getElementType());
	for (uint64_t i = 0; i < at->getNumElements(); i++) initGlobal(S, id, c->getAggregateElement(i), off + i * es);
	return;
    }
    if (t->isVectorTy())
    {
	Val v = constVal(S, c);
	E   e = flattenVec(v);
	storeBytes(S, id, off, mkZExt(e, (e->width + 7) / 8 * 8), (e->width + 7) / 8);
	return;
    }
    unsigned w = scalarWidth(t);
    if (!w)
    {
	errs() << "unsupported global initialiser type " << *t << "\n";
	return;
    }
    E e = constVal(S, c).e;
    storeBytes(S, id, off, mkZExt(e, (w + 7) / 8 * 8), (w + 7) / 8);
}

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
	if (c == '"' || c == '\\')
	{
	    r += '\\';
	    r += c;
	}
	else if (c < 32 || c > 126)
	{
	    char b[8];
	    snprintf(b, sizeof b, "\\u%04x", c);
	    r += b;
	}
	else
	    r += c;
    }
    return r + "\"";
}

static void writeResult()
{
    std::ofstream o(outFile);
    o << "{\n";
    o << " \"wall_s\": " << elapsed() << ",\n \"paths\": " << pathsDone << ",\n \"paths_cut\": " << pathsKilled
      << ",\n \"forks\": " << forksTotal << ",\n \"instructions\": " << totalSteps << ",\n \"memory_checks\": " << memChecks
      << ",\n \"queries\": " << sstats.queries << ",\n \"solver_calls\": " << sstats.z3calls << ",\n \"solver_cache_hits\": "
      << sstats.cacheHits << ",\n \"solver_unsat\": " << sstats.unsat << ",\n \"solver_sat\": " << sstats.sat
      << ",\n \"solver_unknown\": " << sstats.unknown << ",\n \"solver_s\": " << sstats.time << ",\n \"solver_max_s\": " << sstats.maxTime
      << ",\n \"expressions\": " << exprCount() << ",\n \"symbols\": " << symbols.size() << ",\n";
    auto mp = [&](const char* n, const std::map<std::string, uint64_t>& m) {
	o << " " << jstr(n) << ": {";
	bool first = true;
	for (auto& p : m)
	{
	    o << (first ? "" : ", ") << jstr(p.first) << ": " << p.second;
	    first = false;
	}
	o << "},\n";
    };
    mp("asserts", asserts);
    mp("covers", covers);
    mp("incomplete", incomplete);
    std::map<std::string, uint64_t> fns;
    for (auto& p : fnInfos)
	if (p.second->executed) fns[fnName(p.second->F)] = p.second->executed;
    mp("functions", fns);
    o << " \"violations\": [";
    bool first = true;
    for (auto& v : violations)
    {
	o << (first ? "\n" : ",\n") << "  {\"kind\": " << jstr(v.kind) << ", \"msg\": " << jstr(v.msg) << ", \"where\": " << jstr(v.where)
	  << ", \"cex\": " << jstr(v.cexFile) << ", \"inputs\": [";
	for (size_t i = 0; i < v.inputs.size(); i++)
	    o << (i ? ", " : "") << "[" << jstr(v.inputs[i].first) << ", " << jstr(v.inputs[i].second) << "]";
	o << "], \"notes\": {";
	for (size_t i = 0; i < v.notes.size(); i++) o << (i ? ", " : "") << jstr(v.notes[i].first) << ": " << jstr(v.notes[i].second);
	o << "}}";
	first = false;
    }
    o << "]\n}\n";
}

int main(int argc, char** argv)
{
    std::vector<std::string> files;
    bool                     ctors = false;
    for (int i = 1; i < argc; i++)
    {
	std::string a = argv[i];
	auto        next = [&] { return std::string(argv[++i]); };
	if (a == "--entry") entryName = next();
	else if (a == "--out") outFile = next();
	else if (a == "--cex-dir") cexDir = next();
	else if (a == "--max-steps") maxSteps = std::stoull(next());
	else if (a == "--max-paths") maxPaths = std::stoull(next());
	else if (a == "--max-time") maxTime = std::stod(next());
	else if (a == "--solver-timeout") solverTimeoutMs = std::stoul(next());
	else if (a == "--ctors") ctors = true;
	else if (a == "--nonterm") stepLimitIsViolation = true;
	else if (a == "--dump") dumpDir = next();
	else if (a == "--verbose") verbose = true;
	else files.push_back(a);
    }
    startTime = std::chrono::steady_clock::now();
    solverDeadline = startTime + std::chrono::milliseconds((long)(maxTime * 1100));
    for (auto& f : files)
    {
	SMDiagnostic err;
	auto         m = parseIRFile(f, err, Ctx);
	if (!m)
	{
	    err.print("symex", errs());
	    return 2;
	}
	// strip the \01 of asm labels so that names agree between modules
	for (auto& F : *m)
	    if (F.hasName() && F.getName().starts_with("\1")) F.setName(F.getName().substr(1).str());
	for (auto& G : m->globals())
	    if (G.hasName() && G.getName().starts_with("\1")) G.setName(G.getName().substr(1).str());
	if (!M)
	    M = std::move(m);
	else
	{
	    m->setTargetTriple(M->getTargetTriple());
	    if (m->getDataLayout().getPointerSize() != M->getDataLayout().getPointerSize())
	    {
		errs() << "symex: pointer size differs in " << f << "\n";
		return 2;
	    }
	    m->setDataLayout(M->getDataLayout());
	    if (Linker::linkModules(*M, std::move(m)))
	    {
		errs() << "symex: link error in " << f << "\n";
		return 2;
	    }
	}
    }
    DL = &M->getDataLayout();
    PW = DL->getPointerSizeInBits();
    registerHandlers();
    State* S = new State();
    S->nextAddr = 0x10000;
    // objects for all functions and globals; ids are the same in every state
    for (auto& F : *M)
    {
	uint32_t id = newObj(*S, 1, ObjKind::Func, fnName(&F), true);
	S->objs[id]->fn = &F;
	globalObj[&F] = id;
    }
    std::vector<const GlobalVariable*> gvs;
    for (auto& G : M->globals())
    {
	uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 64;
	std::string nm = G.getName().str();
	if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 8);
	uint32_t id = newObj(*S, sz, ObjKind::Global, nm, true, G.getAlign() ? G.getAlign()->value() : 16);
	globalObj[&G] = id;
	gvs.push_back(&G);
    }
    try
    {
	for (auto G : gvs)
	{
	    if (G->hasInitializer() && !G->getName().starts_with("llvm."))
		initGlobal(*S, globalObj[G], G->getInitializer(), 0);
	    if (G->isConstant() && !G->isDeclaration()) S->objs[globalObj[G]]->readonly = true;
	}
    }
    catch (StateDead&)
    {
	errs() << "symex: unsupported initialiser\n";
	return 2;
    }
    if (ctors)
    {
	if (auto gc = M->getNamedGlobal("llvm.global_ctors"))
	    if (auto ca = dyn_cast<ConstantArray>(gc->getInitializer()))
		for (auto& o : ca->operands())
		    if (auto cs = dyn_cast<ConstantStruct>(o.get()))
			if (auto F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) S->pending.push_back(F);
    }
    const Function* F = M->getFunction(entryName);
    if (!F || F->isDeclaration())
    {
	errs() << "symex: no entry function " << entryName << "\n";
	return 2;
    }
    S->pending.push_back(F);
    runAll(S);
    if (!outFile.empty()) writeResult();
    if (verbose || outFile.empty())
    {
	std::cerr << "paths " << pathsDone << " cut " << pathsKilled << " instr " << totalSteps << " queries " << sstats.queries
	          << " z3 " << sstats.z3calls << " solver " << sstats.time << "s wall " << elapsed() << "s\n";
	for (auto& p : incomplete) std::cerr << "incomplete " << p.first << " " << p.second << "\n";
	for (auto& v : violations)
	{
	    std::cerr << "VIOL " << v.kind << ": " << v.msg << " @ " << v.where << "\n";
	    for (auto& p : v.inputs) std::cerr << "   " << p.first << " = " << p.second << "\n";
	}
    }
    fflush(nullptr);
    _exit(violations.empty() ? (incomplete.empty() ? 0 : 3) : 1);
}
