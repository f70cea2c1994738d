/* Reference tokeniser of the dialect, and the comparison of Lexer with it. */
#include "lexer.h"
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <utility>
#include "sym.h"

struct RT { int t; uint64_t iv; double rv; const unsigned char* s; int n; int line; unsigned char buf[16]; };
enum { T_ERR = -2, T_NONE = -3 };

/* Classification by small tables; the tables are concrete. */
static inline bool r_sp(int c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
static inline bool r_dig(int c) { return (c >= '0') & (c <= '9'); }
static inline bool r_al(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
static inline int r_dv(int c) { return ((c >= '0') & (c <= '9')) ? c - '0' : ((c >= 'a') & (c <= 'z')) ? c - 'a' + 10 : ((c >= 'A') & (c <= 'Z')) ? c - 'A' + 10 : 99; }

struct Ref
{
    const unsigned char* p;
    int n, i, line;
    int at(int k) const { return k < n ? p[k] : -1; }
    void adv() { if (at(i) == 10) line++; i++; }

    void kw(RT& r)
    {
	static const struct { const char* s; int t; } K[] = {
	    { "for", Token::For }, { "to", Token::To }, { "downto", Token::Downto }, { "do", Token::Do }, { "function", Token::Function }, { "procedure", Token::Procedure }, { "if", Token::If }, { "then", Token::Then }, { "else", Token::Else }, { "while", Token::While }, { "repeat", Token::Repeat }, { "until", Token::Until }, { "begin", Token::Begin }, { "end", Token::End }, { "case", Token::Case }, { "otherwise", Token::Otherwise }, { "with", Token::With }, { "program", Token::Program }, { "unit", Token::Unit }, { "module", Token::Module }, { "write", Token::Write }, { "writeln", Token::Writeln }, { "writestr", Token::WriteStr }, { "read", Token::Read }, { "readln", Token::Readln }, { "readstr", Token::ReadStr }, { "var", Token::Var }, { "array", Token::Array }, { "of", Token::Of }, { "packed", Token::Packed }, { "record", Token::Record }, { "class", Token::Class }, { "object", Token::Class }, { "type", Token::Type }, { "file", Token::File }, { "string", Token::String }, { "set", Token::Set }, { "forward", Token::Forward }, { "inline", Token::Inline }, { "implementation", Token::Implementation }, { "interface", Token::Interface }, { "const", Token::Const }, { "nil", Token::Nil }, { "and", Token::And }, { "and_then", Token::And_Then }, { "or", Token::Or }, { "or_else", Token::Or_Else }, { "not", Token::Not }, { "div", Token::Div }, { "mod", Token::Mod }, { "xor", Token::Xor }, { "shr", Token::Shr }, { "shl", Token::Shl }, { "pow", Token::Pow }, { "in", Token::In }, { "static", Token::Static }, { "virtual", Token::Virtual }, { "override", Token::Override }, { "private", Token::Private }, { "public", Token::Public }, { "protected", Token::Protected }, { "restricted", Token::Restricted }, { "constructor", Token::Constructor }, { "destructor", Token::Destructor }, { "label", Token::Label }, { "goto", Token::Goto }, { "uses", Token::Uses }, { "bindable", Token::Bindable }, { "default", Token::Default }, { "value", Token::Value }, { "import", Token::Import }, { "sizeof", Token::SizeOf },
	};
	if (r.n > 14) return;
	for (auto& k : K)
	{
	    bool eq = true;
	    int j = 0;
	    for (; k.s[j] && j < r.n; j++) { int c = r.s[j]; eq = eq & ((c | (((c >= 'A') & (c <= 'Z')) ? 32 : 0)) == k.s[j]); }
	    if (k.s[j] || j < r.n) continue;
	    if (eq) { r.t = k.t; return; }
	}
    }

    void next(RT& r)
    {
	r.t = T_ERR; r.n = 0; r.iv = 0; r.rv = 0;
	for (;;)
	{
	    while (r_sp(at(i))) adv();
	    if (at(i) == '{') { while (i < n && at(i) != '}') adv(); adv(); }
	    else if (at(i) == '(' && at(i + 1) == '*') { adv(); adv(); while (i < n && !(at(i) == '*' && at(i + 1) == ')')) adv(); adv(); adv(); }
	    else if (at(i) == '/' && at(i + 1) == '/') { while (i < n && at(i) != 10) adv(); }
	    else break;
	}
	r.line = line;
	int c = at(i);
	if (i >= n) { r.t = Token::EndOfFile; return; }
	int st = i;
	if (r_al(c))
	{
	    while (r_al(at(i)) || r_dig(at(i))) adv();
	    r.t = Token::Identifier; r.s = p + st; r.n = i - st;
	    kw(r);
	    return;
	}
	if (r_dig(c)) { number(r); return; }
	if (c == '$')
	{
	    adv();
	    if (r_dv(at(i)) >= 16) return;
	    digits(r, 16);
	    return;
	}
	if (c == 39 || c == '"')
	{
	    adv();
	    int k = 0;
	    for (;;)
	    {
		int d = at(i);
		if (d == -1 || d == 10) return;
		if (d == c) { if (at(i + 1) != c) break; adv(); }
		adv();
		r.buf[k++] = d;
	    }
	    adv();
	    r.n = k; r.s = r.buf;
	    if (k == 1) { r.t = Token::Char; r.iv = r.buf[0]; }
	    else r.t = Token::StringLiteral;
	    return;
	}
	static const struct { char a, b; int t; } D[] = { { '.', '.', Token::DotDot }, { '.', ')', Token::RightSquare }, { '<', '=', Token::LessOrEqual }, { '<', '>', Token::NotEqual }, { '>', '=', Token::GreaterOrEqual }, { '>', '<', Token::SymDiff }, { ':', '=', Token::Assign }, { '(', '.', Token::LeftSquare }, { '*', '*', Token::Power } };
	static const struct { char a; int t; } G[] = { { '(', Token::LeftParen }, { ')', Token::RightParen }, { '+', Token::Plus }, { '-', Token::Minus }, { '*', Token::Multiply }, { '/', Token::Divide }, { ',', Token::Comma }, { ';', Token::Semicolon }, { '=', Token::Equal }, { '[', Token::LeftSquare }, { ']', Token::RightSquare }, { '^', Token::Uparrow }, { '@', Token::At }, { '<', Token::LessThan }, { '>', Token::GreaterThan }, { ':', Token::Colon }, { '.', Token::Period } };
	for (auto& d : D) if (c == d.a && at(i + 1) == d.b) { adv(); adv(); r.t = d.t; return; }
	for (auto& g : G) if (c == g.a) { adv(); r.t = g.t; return; }
	adv();
    }

    void digits(RT& r, int base)
    {
	// a digit too large for a base below ten makes the literal malformed
	uint64_t v = 0; bool bad = false; int k = 0;
	for (; r_dv(at(i)) < (base < 10 ? 10 : base); adv(), k++)
	{
	    int d = r_dv(at(i));
	    bad = bad | (d >= base);
	    uint64_t w;
	    bad = bad | __builtin_mul_overflow(v, (uint64_t)base, &w);
	    bad = bad | __builtin_add_overflow(w, (uint64_t)d, &v);
	}
	if (bad || !k) return;
	r.t = Token::Integer; r.iv = v;
    }

    void number(RT& r)
    {
	int st = i;
	uint64_t v = 0; bool big = false;
	while (r_dig(at(i)))
	{
	    uint64_t w;
	    big = big | __builtin_mul_overflow(v, (uint64_t)10, &w);
	    big = big | __builtin_add_overflow(w, (uint64_t)(at(i) - '0'), &v);
	    adv();
	}
	if (at(i) == '#')
	{
	    adv();
	    if (big | (v < 2) | (v > 36)) return;
	    for (int b = 2; b <= 36; b++) if (v == (uint64_t)b) { digits(r, b); return; }
	    return;
	}
	bool fl = false;
	if (at(i) == '.' && at(i + 1) != '.' && at(i + 1) != ')')
	{
	    fl = true;
	    adv();
	    while (r_dig(at(i))) adv();
	}
	if (at(i) == 'e' || at(i) == 'E')
	{
	    fl = true;
	    adv();
	    if (at(i) == '+' || at(i) == '-') adv();
	    if (!r_dig(at(i))) return;
	    while (r_dig(at(i))) adv();
	}
	if (!fl) { if (!big) { r.t = Token::Integer; r.iv = v; } return; }
	char b[32];
	for (int k = 0; k < i - st; k++) b[k] = p[st + k];
	b[i - st] = 0;
	char* e;
	double d = strtod(b, &e);
	if (std::isinf(d)) return;
	r.t = Token::Real; r.rv = d;
    }
};

static bool is_err(int t) { return t == Token::Unknown || t == Token::Overflow || t == Token::UntermString; }

/* every token of the text up to the first malformed one, and the end of the text */
static void compare(Source& src, const unsigned char* text, int n)
{
    Lexer lex(src);
    Ref ref = { text, n, 0, 1 };
    for (int k = 0; k <= n; k++)
    {
	RT r;
	ref.next(r);
	Token t = lex.GetToken();
	int tt = t.GetToken();
	if (r.t == T_ERR) { sym_assert(is_err(tt), "a malformed token is reported"); return; }
	sym_assert(tt == r.t, "kind of the token");
	if (tt != r.t) return;
	if (tt == Token::EndOfFile) return;
	sym_assert((int)t.Loc().LineNumber() == r.line, "line of the token");
	if (tt == Token::Integer || tt == Token::Char) sym_assert(t.GetIntVal() == r.iv, "value of the literal");
	if (tt == Token::Real) { double d = t.GetRealVal(); uint64_t x, y; __builtin_memcpy(&x, &d, 8); __builtin_memcpy(&y, &r.rv, 8); sym_assert(x == y, "value of the real literal"); }
	if (tt == Token::Identifier || tt == Token::StringLiteral)
	{
	    const std::string& s = tt == Token::Identifier ? t.GetIdentName() : t.GetStrVal();
	    sym_assert((int)s.size() == r.n, "length of the name or string");
	    bool eq = true;
	    for (int j = 0; j < r.n && j < (int)s.size(); j++)
		eq = eq & ((unsigned char)s[j] == r.s[j]);
	    sym_assert(eq, "characters of the name or string");
	}
    }
    sym_fail("more tokens than characters");
}

struct MemSource : Source
{
    using G = decltype(((Source*)0)->Get());
    const unsigned char* p; int n, i = 0; int lineNo = 1, col = 1;
    MemSource(const unsigned char* p, int n) : p(p), n(n) {}
    G Get() override
    {
	if (i >= n) { col++; return (G)EOF; }
	unsigned char c = p[i++];
	if (c == '\n') { lineNo++; col = 1; } else col++;
	return (G)c;
    }
    operator bool() const override { return i <= n; }
    operator Location() const override { return Location("x", lineNo, col); }
};
