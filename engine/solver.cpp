#include "solver.h"
#include <llvm/ADT/SmallString.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>

SolverStats sstats;
unsigned    solverTimeoutMs = 20000;
std::string dumpDir;

static Z3_context            C;
static std::vector<Z3_ast>   z3syms;
static std::vector<Z3_func_decl> z3ufs;
static Z3_sort               fp64, fp32;
static Z3_ast                rne, rtz, rtp, rtn, rna;

static void onError(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

static void init()
{
    if (C) return;
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg);
    Z3_set_error_handler(C, onError);
    fp64 = Z3_mk_fpa_sort_64(C);
    fp32 = Z3_mk_fpa_sort_32(C);
    rne = Z3_mk_fpa_rne(C);
    rtz = Z3_mk_fpa_rtz(C);
    rtp = Z3_mk_fpa_rtp(C);
    rtn = Z3_mk_fpa_rtn(C);
    rna = Z3_mk_fpa_rna(C);
}

static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast  num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, v, bv(w)); }
static Z3_ast  b2v(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }

static Z3_ast tr(E e);
static Z3_ast toBool(E e);
static Z3_ast fpOf(E e) { return Z3_mk_fpa_to_fp_bv(C, tr(e), e->width == 64 ? fp64 : fp32); }
static Z3_ast bvOf(Z3_ast f, unsigned w)
{
    Z3_ast nan = w == 64 ? num(0x7ff8000000000000ull, 64) : num(0x7fc00000u, 32);
    return Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, f), nan, Z3_mk_fpa_to_ieee_bv(C, f));
}

static Z3_ast trWide(const llvm::APInt& a)
{
    llvm::SmallString<64> s;
    a.toStringUnsigned(s, 10);
    return Z3_mk_numeral(C, s.c_str(), bv(a.getBitWidth()));
}

// Z3 conditions for width-1 terms: kept as Booleans and converted where a bit is needed
static std::unordered_map<uint32_t, Z3_ast> boolCache;

static Z3_ast toBool(E e)
{
    auto it = boolCache.find(e->id);
    if (it != boolCache.end()) return it->second;
    Z3_ast r;
    switch (e->k)
    {
    case K::Const: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K::Not: r = Z3_mk_not(C, toBool(e->op[0])); break;
    case K::And:
    {
	Z3_ast a[2] = { toBool(e->op[0]), toBool(e->op[1]) };
	r = Z3_mk_and(C, 2, a);
	break;
    }
    case K::Or:
    {
	Z3_ast a[2] = { toBool(e->op[0]), toBool(e->op[1]) };
	r = Z3_mk_or(C, 2, a);
	break;
    }
    case K::Xor: r = Z3_mk_xor(C, toBool(e->op[0]), toBool(e->op[1])); break;
    case K::Eq:
	if (e->op[0]->width == 1)
	    r = Z3_mk_eq(C, toBool(e->op[0]), toBool(e->op[1]));
	else
	    r = Z3_mk_eq(C, tr(e->op[0]), tr(e->op[1]));
	break;
    case K::Ult: r = Z3_mk_bvult(C, tr(e->op[0]), tr(e->op[1])); break;
    case K::Ule: r = Z3_mk_bvule(C, tr(e->op[0]), tr(e->op[1])); break;
    case K::Slt: r = Z3_mk_bvslt(C, tr(e->op[0]), tr(e->op[1])); break;
    case K::Sle: r = Z3_mk_bvsle(C, tr(e->op[0]), tr(e->op[1])); break;
    case K::Ite: r = Z3_mk_ite(C, toBool(e->op[0]), toBool(e->op[1]), toBool(e->op[2])); break;
    default: r = Z3_mk_eq(C, tr(e), num(1, 1)); break;
    }
    boolCache[e->id] = r;
    return r;
}

static Z3_ast tr(E e)
{
    if (e->z3) return e->z3;
    Z3_ast r = nullptr;
    auto   A = [&](int i) { return tr(e->op[i]); };
    unsigned w = e->width;
    switch (e->k)
    {
    case K::Const: r = w <= 64 ? num(e->val, w) : trWide(constAP(e)); break;
    case K::Sym:
    {
	while (z3syms.size() <= e->val) z3syms.push_back(nullptr);
	std::string nm = "s" + std::to_string(e->val);
	r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), bv(w));
	z3syms[e->val] = r;
	break;
    }
    case K::Add: r = Z3_mk_bvadd(C, A(0), A(1)); break;
    case K::Sub: r = Z3_mk_bvsub(C, A(0), A(1)); break;
    case K::Mul: r = Z3_mk_bvmul(C, A(0), A(1)); break;
    case K::UDiv: r = Z3_mk_bvudiv(C, A(0), A(1)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(C, A(0), A(1)); break;
    case K::URem: r = Z3_mk_bvurem(C, A(0), A(1)); break;
    case K::SRem: r = Z3_mk_bvsrem(C, A(0), A(1)); break;
    case K::And: r = w == 1 ? b2v(toBool(e)) : Z3_mk_bvand(C, A(0), A(1)); break;
    case K::Or: r = w == 1 ? b2v(toBool(e)) : Z3_mk_bvor(C, A(0), A(1)); break;
    case K::Xor: r = w == 1 ? b2v(toBool(e)) : Z3_mk_bvxor(C, A(0), A(1)); break;
    case K::Shl: r = Z3_mk_bvshl(C, A(0), A(1)); break;
    case K::LShr: r = Z3_mk_bvlshr(C, A(0), A(1)); break;
    case K::AShr: r = Z3_mk_bvashr(C, A(0), A(1)); break;
    case K::Not: r = w == 1 ? b2v(toBool(e)) : Z3_mk_bvnot(C, A(0)); break;
    case K::Eq:
    case K::Ult:
    case K::Ule:
    case K::Slt:
    case K::Sle: r = b2v(toBool(e)); break;
    case K::Concat: r = Z3_mk_concat(C, A(0), A(1)); break;
    case K::Extract: r = Z3_mk_extract(C, e->val + w - 1, e->val, A(0)); break;
    case K::ZExt: r = Z3_mk_zero_ext(C, w - e->op[0]->width, A(0)); break;
    case K::SExt: r = Z3_mk_sign_ext(C, w - e->op[0]->width, A(0)); break;
    case K::Ite: r = w == 1 ? b2v(toBool(e)) : Z3_mk_ite(C, toBool(e->op[0]), A(1), A(2)); break;
    case K::FAdd: r = bvOf(Z3_mk_fpa_add(C, rne, fpOf(e->op[0]), fpOf(e->op[1])), w); break;
    case K::FSub: r = bvOf(Z3_mk_fpa_sub(C, rne, fpOf(e->op[0]), fpOf(e->op[1])), w); break;
    case K::FMul: r = bvOf(Z3_mk_fpa_mul(C, rne, fpOf(e->op[0]), fpOf(e->op[1])), w); break;
    case K::FDiv: r = bvOf(Z3_mk_fpa_div(C, rne, fpOf(e->op[0]), fpOf(e->op[1])), w); break;
    case K::FRem:
    {
	// fmod: kept uninterpreted (fp.rem is the IEEE remainder)
	Z3_sort s[2] = { bv(w), bv(w) };
	static Z3_func_decl f = nullptr;
	if (!f) f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, "fmod"), 2, s, bv(w));
	Z3_ast a[2] = { A(0), A(1) };
	r = Z3_mk_app(C, f, 2, a);
	break;
    }
    case K::FSqrt: r = bvOf(Z3_mk_fpa_sqrt(C, rne, fpOf(e->op[0])), w); break;
    case K::FRound:
    {
	Z3_ast m = e->val == 0 ? rtz : e->val == 1 ? rtn : e->val == 2 ? rtp : e->val == 3 ? rne : rna;
	r = bvOf(Z3_mk_fpa_round_to_integral(C, m, fpOf(e->op[0])), w);
	break;
    }
    case K::SIToFP: r = bvOf(Z3_mk_fpa_to_fp_signed(C, rne, A(0), w == 64 ? fp64 : fp32), w); break;
    case K::UIToFP: r = bvOf(Z3_mk_fpa_to_fp_unsigned(C, rne, A(0), w == 64 ? fp64 : fp32), w); break;
    case K::FPToSI: r = Z3_mk_fpa_to_sbv(C, rtz, fpOf(e->op[0]), w); break;
    case K::FPToUI: r = Z3_mk_fpa_to_ubv(C, rtz, fpOf(e->op[0]), w); break;
    case K::FPExt: r = bvOf(Z3_mk_fpa_to_fp_float(C, rne, fpOf(e->op[0]), fp64), w); break;
    case K::FPTrunc: r = bvOf(Z3_mk_fpa_to_fp_float(C, rne, fpOf(e->op[0]), fp32), w); break;
    case K::UF:
    {
	while (z3ufs.size() <= e->val) z3ufs.push_back(nullptr);
	if (!z3ufs[e->val])
	{
	    std::vector<Z3_sort> s;
	    for (auto x : *e->args) s.push_back(bv(x->width));
	    z3ufs[e->val] = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ufNames[e->val].c_str()), s.size(), s.data(), bv(w));
	}
	std::vector<Z3_ast> a;
	for (auto x : *e->args) a.push_back(tr(x));
	r = Z3_mk_app(C, z3ufs[e->val], a.size(), a.data());
	break;
    }
    }
    e->z3 = r;
    return r;
}

struct CacheEntry
{
    Sat                                        r;
    std::vector<std::pair<uint32_t, uint64_t>> model;
};
static std::unordered_map<std::string, CacheEntry> cache;

static Sat runSolver(Z3_solver s, Z3_model* m, unsigned timeout)
{
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeout);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    Z3_lbool r = Z3_solver_check(C, s);
    if (r == Z3_L_TRUE)
    {
	*m = Z3_solver_get_model(C, s);
	Z3_model_inc_ref(C, *m);
	return Sat::Sat;
    }
    return r == Z3_L_FALSE ? Sat::Unsat : Sat::Unknown;
}

static Z3_solver incSolver = nullptr;
static Z3_tactic tacBV = nullptr, tacFP = nullptr;
static unsigned  dumpNo = 0;

// Last resort: hand the query to another solver process
static Sat external(Z3_solver s, unsigned timeoutMs)
{
    std::string text = Z3_solver_to_string(C, s);
    char        fn[] = "/tmp/symexXXXXXX";
    int         fd = mkstemp(fn);
    if (fd < 0) return Sat::Unknown;
    FILE* f = fdopen(fd, "w");
    fprintf(f, "(set-logic ALL)\n%s\n(check-sat)\n", text.c_str());
    fclose(f);
    char cmd[256];
    snprintf(cmd, sizeof cmd, "timeout %u cvc5 --lang smt2 %s 2>/dev/null", timeoutMs / 1000 + 1, fn);
    FILE* p = popen(cmd, "r");
    char  line[64] = "";
    if (p)
    {
	if (!fgets(line, sizeof line, p)) line[0] = 0;
	pclose(p);
    }
    unlink(fn);
    if (!strncmp(line, "unsat", 5)) return Sat::Unsat;
    return Sat::Unknown;
}

std::chrono::steady_clock::time_point solverDeadline;

Sat checkSat(const std::vector<E>& constraints, E query, const Model* base, Model* model, bool wantModel, bool isAssertion)
{
    init();
    sstats.queries++;
    if (query->isFalse())
    {
	sstats.trivially++;
	return Sat::Unsat;
    }
    // independence: only constraints connected with the query's symbols
    std::vector<E> rel;
    bool           full = query->isTrue();
    if (full)
	rel = constraints;
    else
    {
	std::vector<bool>     in(symbols.size(), false);
	std::vector<bool>     used(constraints.size(), false);
	for (auto v : *varsOf(query)) in[v] = true;
	bool changed = true;
	bool uf = query->hasUF;
	while (changed)
	{
	    changed = false;
	    for (size_t i = 0; i < constraints.size(); i++)
	    {
		if (used[i]) continue;
		const auto& vs = *varsOf(constraints[i]);
		bool        hit = uf && constraints[i]->hasUF;
		for (auto v : vs)
		    if (in[v])
		    {
			hit = true;
			break;
		    }
		if (!hit) continue;
		used[i] = true;
		changed = true;
		uf |= constraints[i]->hasUF;
		for (auto v : vs) in[v] = true;
	    }
	}
	for (size_t i = 0; i < constraints.size(); i++)
	    if (used[i]) rel.push_back(constraints[i]);
    }
    // conflict with an asserted fact?
    E nq = mkNot(query);
    for (auto c : rel)
    {
	if (c == nq)
	{
	    sstats.trivially++;
	    return Sat::Unsat;
	}
    }
    std::vector<uint32_t> ids;
    for (auto c : rel) ids.push_back(c->id);
    ids.push_back(query->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    std::string key((const char*)ids.data(), ids.size() * 4);
    auto        it = cache.find(key);
    auto        apply = [&](const CacheEntry& ce) {
        if (ce.r == Sat::Sat && model)
        {
            if (base && model != base) *model = *base;
            for (auto& p : ce.model) model->set(p.first, p.second);
        }
    };
    if (it != cache.end())
    {
	sstats.cacheHits++;
	apply(it->second);
	return it->second.r;
    }
    auto t0 = std::chrono::steady_clock::now();
    sstats.z3calls++;
    bool fp = query->hasFP, mul = query->hasMul, uf = query->hasUF;
    for (auto c : rel)
    {
	fp |= c->hasFP;
	mul |= c->hasMul;
	uf |= c->hasUF;
    }
    Z3_model m = nullptr;
    Sat      r = Sat::Unknown;
    if (!fp)
    {
	if (!incSolver)
	{
	    incSolver = Z3_mk_simple_solver(C);
	    Z3_solver_inc_ref(C, incSolver);
	}
	Z3_solver_push(C, incSolver);
	for (auto c : rel) Z3_solver_assert(C, incSolver, toBool(c));
	Z3_solver_assert(C, incSolver, toBool(query));
	r = runSolver(incSolver, &m, std::min(solverTimeoutMs, mul ? 1500u : 200u));
	Z3_solver_pop(C, incSolver, 1);
    }
    // past the time of the whole run a query only gets its first, short attempt
    bool late = solverDeadline != std::chrono::steady_clock::time_point() && std::chrono::steady_clock::now() > solverDeadline;
    if (r == Sat::Unknown && !late)
    {
	if (!tacBV)
	{
	    tacBV = Z3_mk_tactic(C, "qfbv");
	    Z3_tactic_inc_ref(C, tacBV);
	    tacFP = Z3_mk_tactic(C, "qffpbv");
	    Z3_tactic_inc_ref(C, tacFP);
	}
	Z3_solver s = (uf) ? Z3_mk_solver(C) : Z3_mk_solver_from_tactic(C, fp ? tacFP : tacBV);
	Z3_solver_inc_ref(C, s);
	for (auto c : rel) Z3_solver_assert(C, s, toBool(c));
	Z3_solver_assert(C, s, toBool(query));
	r = runSolver(s, &m, solverTimeoutMs);
	if (r == Sat::Unknown && !late) r = external(s, solverTimeoutMs);
	Z3_solver_dec_ref(C, s);
    }
    if (isAssertion && !dumpDir.empty())
    {
	Z3_solver s = Z3_mk_simple_solver(C);
	Z3_solver_inc_ref(C, s);
	for (auto c : rel) Z3_solver_assert(C, s, toBool(c));
	Z3_solver_assert(C, s, toBool(query));
	std::ofstream o(dumpDir + "/q" + std::to_string(dumpNo++) + "." +
	                (r == Sat::Unsat ? "unsat" : r == Sat::Sat ? "sat" : "unknown") + ".smt2");
	o << "(set-logic ALL)\n" << Z3_solver_to_string(C, s) << "\n(check-sat)\n";
	Z3_solver_dec_ref(C, s);
    }
    CacheEntry ce;
    ce.r = r;
    if (r == Sat::Sat)
    {
	sstats.sat++;
	std::vector<uint32_t> vs;
	auto                  addv = [&](E e) { vs.insert(vs.end(), varsOf(e)->begin(), varsOf(e)->end()); };
	addv(query);
	for (auto c : rel) addv(c);
	std::sort(vs.begin(), vs.end());
	vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
	for (auto v : vs)
	{
	    Z3_ast out;
	    uint64_t x = 0;
	    if (v < z3syms.size() && z3syms[v] && Z3_model_eval(C, m, z3syms[v], true, &out))
		Z3_get_numeral_uint64(C, out, &x);
	    ce.model.push_back({ v, x });
	}
	Z3_model_dec_ref(C, m);
    }
    else if (r == Sat::Unsat)
	sstats.unsat++;
    else
	sstats.unknown++;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    sstats.time += dt;
    if (dt > sstats.maxTime) sstats.maxTime = dt;
    apply(ce);
    cache[key] = ce;
    (void)wantModel;
    return r;
}
