/* The C++ run-time support the compiler's own sources need when they are executed symbolically: allocation, static
 * initialisation guards, red-black tree insertion (without balancing, which is not observable), iostreams that drop
 * what is written.  std::string is instantiated from the library headers. */
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include "sym.h"
extern "C" {
int  __cxa_guard_acquire(char* g) { return !*g; }
void __cxa_guard_release(char* g) { *g = 1; }
int  __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
void __cxa_pure_virtual() { sym_fail("pure virtual function called"); }
void* __dso_handle;
void __assert_fail(const char* m, const char*, unsigned, const char*) { sym_fail(m); sym_end(); }
}
[[noreturn]] static void bad(const char* s) { sym_fail(s); sym_end(); __builtin_unreachable(); }
void* operator new(size_t n) { return malloc(n ? n : 1); }
void  operator delete(void* p) noexcept { free(p); }
void  operator delete(void* p, size_t) noexcept { free(p); }
namespace std
{
    void __throw_bad_alloc() { bad("bad_alloc"); }
    void __throw_bad_cast() { bad("bad_cast"); }
    void __throw_bad_function_call() { bad("bad_function_call"); }
    void __throw_bad_array_new_length() { bad("bad_array_new_length"); }
    void __throw_logic_error(const char* s) { bad(s); }
    void __throw_length_error(const char* s) { bad(s); }
    void __throw_out_of_range(const char* s) { bad(s); }
    void __throw_out_of_range_fmt(const char* s, ...) { bad(s); }
    void __throw_invalid_argument(const char* s) { bad(s); }
    typedef _Rb_tree_node_base N;
    void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) noexcept
    {
        x->_M_parent = p;
        x->_M_left = x->_M_right = 0;
        x->_M_color = _S_black;
        if (left)
        {
            p->_M_left = x;
            if (p == &h) h._M_parent = h._M_right = x;
            else if (p == h._M_left) h._M_left = x;
        }
        else
        {
            p->_M_right = x;
            if (p == h._M_right) h._M_right = x;
        }
    }
    N* _Rb_tree_increment(N* x) noexcept
    {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
        N* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        return x->_M_right != y ? y : x;
    }
    const N* _Rb_tree_increment(const N* x) noexcept { return _Rb_tree_increment(const_cast<N*>(x)); }
    N* _Rb_tree_decrement(N* x) noexcept
    {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
        N* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    const N* _Rb_tree_decrement(const N* x) noexcept { return _Rb_tree_decrement(const_cast<N*>(x)); }
}

/* nothing looks at what is written */
static char ctype_[1024] = { 0 };
struct Stream_
{
    void* vptr;
    char  pad[232];
    void* ctype;
    char  rest[64];
};
static long vt_[4];
static struct Init_ { Init_(); } init_;
extern "C" {
Stream_ cerr_ asm("_ZSt4cerr"), cout_ asm("_ZSt4cout");
}
Init_::Init_()
{
    ctype_[56] = 1;
    cerr_.vptr = cout_.vptr = &vt_[3];
    cerr_.ctype = cout_.ctype = ctype_;
}
extern "C" {
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* o, const char*, long) { return o; }
void* _ZNSo9_M_insertIdEERSoT_(void* o, double) { return o; }
void* _ZNSo9_M_insertImEERSoT_(void* o, unsigned long) { return o; }
void* _ZNSo9_M_insertIlEERSoT_(void* o, long) { return o; }
void* _ZNSo9_M_insertIbEERSoT_(void* o, bool) { return o; }
void* _ZNSolsEi(void* o, int) { return o; }
void* _ZNSo3putEc(void* o, char) { return o; }
void* _ZNSo5flushEv(void* o) { return o; }
}
