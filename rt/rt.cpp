// Runtime for the symbolic executor: the parts of libstdc++/libc/zlib/expat
// that live outside headers, written so that they can be executed symbolically.
// Everything here is part of the trusted base of the checks.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "sym.h"
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <cwchar>
#include <cctype>
#include <cwctype>
#include <exception>
#include <functional>
#include <ios>
#include <istream>
#include <fstream>
#include <list>
#include <locale>
#include <map>
#include <mutex>
#include <new>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <cxxabi.h>
#include <strings.h>

// ---------------------------------------------------------------- new/delete
void* operator new(size_t n) {
  void* p = sym_malloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sym_malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sym_malloc(n); }
void operator delete(void* p) noexcept { sym_free(p); }
void operator delete[](void* p) noexcept { sym_free(p); }
void operator delete(void* p, size_t) noexcept { sym_free(p); }
void operator delete[](void* p, size_t) noexcept { sym_free(p); }
extern "C" void* realloc(void* p, size_t n) { sym_unsupported("realloc"); return nullptr; }

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
}  // namespace std

// reference counted message strings: kept as plain leaked copies
static char* dupmsg(const char* s) {
  size_t n = strlen(s);
  char* p = (char*)sym_malloc(n + 1);
  memcpy(p, s, n + 1);
  return p;
}
namespace std {
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const std::string& s) { _M_p = dupmsg(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dupmsg(std::string(s, n).c_str()); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {}
logic_error::logic_error(const logic_error& o) noexcept : _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
domain_error::domain_error(const string& s) : logic_error(s) {}
domain_error::domain_error(const char* s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
range_error::range_error(const string& s) : runtime_error(s) {}
range_error::range_error(const char* s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {}
overflow_error::overflow_error(const char* s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error(const string& s) : runtime_error(s) {}
underflow_error::underflow_error(const char* s) : runtime_error(s) {}
underflow_error::~underflow_error() noexcept {}
system_error::~system_error() noexcept {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const string& s) : system_error(error_code(), s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const noexcept { return "ios_base::failure"; }

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category()), "system"); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s, error_code()); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(s, error_code()); }
}  // namespace std
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }

// fundamental typeinfo objects the library refers to are only compared by address

// dynamic_cast
extern "C" char _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern "C" char _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
static const char* find_sub(const char* obj, const char* ti, const void* want, int depth) {
  if (ti == want) return obj;
  if (depth > 20) return nullptr;
  const char* vt = *(const char* const*)ti;
  if (sym_same_object(vt, _ZTVN10__cxxabiv120__si_class_type_infoE))
    return find_sub(obj, *(const char* const*)(ti + 16), want, depth + 1);
  if (sym_same_object(vt, _ZTVN10__cxxabiv121__vmi_class_type_infoE)) {
    unsigned cnt = *(const unsigned*)(ti + 20);
    for (unsigned i = 0; i < cnt; i++) {
      const char* bti = *(const char* const*)(ti + 24 + 16 * i);
      long fl = *(const long*)(ti + 32 + 16 * i);
      long off = fl >> 8;
      if (fl & 1) off = *(const long*)(*(const char* const*)obj + off);
      const char* r = find_sub(obj + off, bti, want, depth + 1);
      if (r) return r;
    }
  }
  return nullptr;
}
extern "C" void* rt_dynamic_cast(const void* sub, const void*, const void* dst, ptrdiff_t) __asm__("__dynamic_cast");
extern "C" void* rt_dynamic_cast(const void* sub, const void*, const void* dst, ptrdiff_t) {
  const char* vt = *(const char* const*)sub;
  ptrdiff_t top = *(const ptrdiff_t*)(vt - 16);
  const char* ti = *(const char* const*)(vt - 8);
  const char* whole = (const char*)sub + top;
  return (void*)find_sub(whole, ti, dst, 0);
}

// ---------------------------------------------------------------- containers
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept {
  _M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t k = n < 13 ? 13 : n | 1;
  _M_next_resize = k;
  return k;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) {
    size_t want = (elt + ins) * 2 + 11;
    if (want >= bkt || bkt == 1) return {true, _M_next_bkt(want)};
    _M_next_resize = bkt;
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* b = (const unsigned char*)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ul;
  return h;
}
// red-black tree: an unbalanced binary tree keeps the same observable order
static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept {
  _Rb_tree_node_base*& root = header._M_parent;
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = nullptr;
  _Rb_tree_node_base* xp = nullptr;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (header._M_left == z) {
      if (!z->_M_right) header._M_left = z->_M_parent;
      else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; header._M_left = m; }
    }
    if (header._M_right == z) {
      if (!z->_M_left) header._M_right = z->_M_parent;
      else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; header._M_right = m; }
    }
  }
  return y;
}
}  // namespace std

// ---------------------------------------------------------------- locale and ios
// std::locale objects are empty; facets are never consulted because every
// formatting entry point that would use one is modelled below.
extern "C" {
void rt_locale_c(void* p) __asm__("_ZNSt6localeC1Ev");
void rt_locale_c(void* p) { *(void**)p = nullptr; }
void rt_locale_c2(void* p) __asm__("_ZNSt6localeC2Ev");
void rt_locale_c2(void* p) { *(void**)p = nullptr; }
void rt_locale_cc(void* p, const void*) __asm__("_ZNSt6localeC1ERKS_");
void rt_locale_cc(void* p, const void*) { *(void**)p = nullptr; }
void rt_locale_cc2(void* p, const void*) __asm__("_ZNSt6localeC2ERKS_");
void rt_locale_cc2(void* p, const void*) { *(void**)p = nullptr; }
void rt_locale_d(void* p) __asm__("_ZNSt6localeD1Ev");
void rt_locale_d(void* p) {}
void rt_locale_d2(void* p) __asm__("_ZNSt6localeD2Ev");
void rt_locale_d2(void* p) {}
void* rt_locale_as(void* p, const void*) __asm__("_ZNSt6localeaSERKS_");
void* rt_locale_as(void* p, const void*) { return p; }
}
namespace std {
ios_base::ios_base() noexcept
    : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit),
      _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept {
  _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale();
}
locale ios_base::imbue(const locale& l) noexcept { return locale(); }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ios_base_library_init() {}
}  // namespace std
static char rt_fill(const std::basic_ios<char>* s) { return s->_M_fill_init ? s->_M_fill : ' '; }

extern "C" void rt_widen_init(const void*) __asm__("_ZNKSt5ctypeIcE13_M_widen_initEv");
extern "C" void rt_widen_init(const void*) {}

namespace {
// A ctype<char> facet with an identity widen/narrow cache; its virtual
// functions are never reached because the cache flags are set.
alignas(16) char g_ctype[sizeof(std::ctype<char>)];
const std::ctype<char>* ct() {
  auto* c = reinterpret_cast<std::ctype<char>*>(g_ctype);
  if (c->_M_widen_ok != 1) {
    c->_M_widen_ok = 1;
    c->_M_narrow_ok = 1;
    for (int i = 0; i < 256; i++) { c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i; }
  }
  return c;
}
}
namespace std {
template <> void basic_ios<char>::_M_cache_locale(const locale&) {
  _M_ctype = ct();
  _M_num_put = nullptr;
  _M_num_get = nullptr;
}
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
template <> void basic_ios<wchar_t>::_M_cache_locale(const locale&) {
  _M_ctype = nullptr;
  _M_num_put = nullptr;
  _M_num_get = nullptr;
}
template <> wchar_t basic_ios<wchar_t>::widen(char c) const { return (unsigned char)c; }
template <> char basic_ios<wchar_t>::narrow(wchar_t c, char d) const { return c >= 0 && c < 128 ? (char)c : d; }
template <> basic_istream<char>& basic_istream<char>::operator>>(int& v);
template <> basic_istream<char>& basic_istream<char>::operator>>(short& v);
}
template class std::__cxx11::basic_string<char>;
template class std::__cxx11::basic_string<wchar_t>;
template class std::basic_ios<char>;
template class std::basic_streambuf<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::__cxx11::basic_stringbuf<char>;
template class std::__cxx11::basic_ostringstream<char>;
template class std::__cxx11::basic_istringstream<char>;
template class std::__cxx11::basic_stringstream<char>;
template class std::basic_ios<wchar_t>;
template class std::basic_streambuf<wchar_t>;
template class std::basic_ostream<wchar_t>;
template class std::__cxx11::basic_stringbuf<wchar_t>;
template class std::__cxx11::basic_ostringstream<wchar_t>;
namespace std {
template basic_ostream<char>& __ostream_insert(basic_ostream<char>&, const char*, streamsize);
template basic_ostream<char>& operator<<(basic_ostream<char>&, const char*);
template basic_ostream<char>& operator<<(basic_ostream<char>&, char);
template basic_ostream<wchar_t>& __ostream_insert(basic_ostream<wchar_t>&, const wchar_t*, streamsize);
template basic_ostream<wchar_t>& operator<<(basic_ostream<wchar_t>&, wchar_t);
template basic_ostream<char>& endl(basic_ostream<char>&);
template basic_ostream<char>& flush(basic_ostream<char>&);
template basic_istream<char>& operator>>(basic_istream<char>&, char&);
}

// messages of the library's own log are not formatted
extern "C" char _ZTVN3mdf12MdfLogStreamE[] __attribute__((weak));
static bool is_log(std::ostream& os) {
  return &_ZTVN3mdf12MdfLogStreamE && sym_same_object(*(const void* const*)&os, _ZTVN3mdf12MdfLogStreamE);
}

// ---------------------------------------------------------------- decimal text of floating point values
// Symbolic values are handled when they are integers below 1e15 (every such
// value prints and parses exactly); concrete ones go to the host library.
static bool fmt_sym_double(double v, char type, int prec, std::string& s) {
  if (!sym_decide(v > -1e15 && v < 1e15)) { sym_unsupported("formatting a symbolic floating point value"); return false; }
  const int64_t n = (int64_t)v;
  if (!sym_decide((double)n == v)) { sym_unsupported("formatting a symbolic floating point value"); return false; }
  uint64_t bits; memcpy(&bits, &v, 8);
  const bool neg = sym_decide(n < 0) || (sym_decide(n == 0) && sym_decide(bits >> 63));
  uint64_t u = neg ? 0 - (uint64_t)n : (uint64_t)n;
  int digits = 1;
  uint64_t pow = 10;
  while (sym_decide(u >= pow)) { pow *= 10; digits++; }
  int exp = digits - 1;
  if (prec < 0) prec = 6;
  if (type == 'g' && prec == 0) prec = 1;
  bool sci = type == 'g' && digits > prec;
  if (sci) {
    uint64_t m = 1;
    for (int i = prec; i < digits; i++) m *= 10;
    uint64_t q = u / m, r = u - q * m;
    if (sym_decide(2 * r > m || (2 * r == m && (q & 1)))) q++;
    uint64_t top = pow / m;
    if (sym_decide(q == top)) { q /= 10; exp++; }
    u = q;
    digits = prec;
  }
  char d[24];
  for (int i = digits; i-- > 0;) { d[i] = (char)('0' + u % 10); u /= 10; }
  if (neg) s.push_back('-');
  if (!sci) {
    s.append(d, (size_t)digits);
    if (type == 'f' && prec > 0) { s.push_back('.'); s.append((size_t)prec, '0'); }
    return true;
  }
  int k = digits;
  while (k > 1 && sym_decide(d[k - 1] == '0')) k--;
  s.push_back(d[0]);
  if (k > 1) { s.push_back('.'); s.append(d + 1, (size_t)k - 1); }
  s += "e+";
  s.push_back((char)('0' + exp / 10));
  s.push_back((char)('0' + exp % 10));
  return true;
}
static double rt_strtod(const char* t, size_t* used) {
  bool any = false;
  size_t n = 0;
  while (sym_is_symbolic((uint8_t)t[n]) || t[n]) { any |= sym_is_symbolic((uint8_t)t[n]) != 0; n++; if (n > 60) break; }
  if (!any) {
    uint64_t b = sym_host_strtod(t, used);
    double d; memcpy(&d, &b, 8);
    return d;
  }
  size_t i = 0;
  bool neg = false;
  if (sym_decide(t[0] == '-')) { neg = true; i++; } else if (sym_decide(t[0] == '+')) i++;
  uint64_t m = 0;
  int nd = 0, scale = 0;
  bool dot = false;
  for (;; i++) {
    if (!dot && sym_decide(t[i] == '.')) { dot = true; continue; }
    if (!sym_decide(t[i] >= '0' && t[i] <= '9')) break;
    if (++nd > 18) { sym_unsupported("parsing a long symbolic floating point text"); return 0; }
    m = m * 10 + (uint64_t)(t[i] - '0');
    if (dot) scale--;
  }
  if (nd == 0) { *used = 0; return 0; }
  if (sym_decide(t[i] == 'e' || t[i] == 'E')) {
    size_t j = i + 1;
    bool en = false;
    if (sym_decide(t[j] == '-')) { en = true; j++; } else if (sym_decide(t[j] == '+')) j++;
    int e = 0, ed = 0;
    while (sym_decide(t[j] >= '0' && t[j] <= '9') && ed < 4) { e = e * 10 + (int)sym_concrete((uint64_t)(t[j] - '0')); j++; ed++; }
    if (ed) { scale += en ? -e : e; i = j; }
  }
  *used = i;
  for (; scale > 0; scale--) { if (scale > 18) { sym_unsupported("parsing a symbolic floating point text"); return 0; } m *= 10; }
  for (; scale < 0; scale++) {
    if (!sym_decide(m % 10 == 0)) { sym_unsupported("parsing a symbolic fraction"); return 0; }
    m /= 10;
  }
  if (!sym_decide(m < 1000000000000000ull)) { sym_unsupported("parsing a long symbolic floating point text"); return 0; }
  if (neg && sym_decide(m == 0)) return -0.0;
  return neg ? (double)-(int64_t)m : (double)(int64_t)m;
}

static std::ostream& put_number(std::ostream& os, unsigned long v, bool neg) {
  if (is_log(os)) return os;
  char tmp[40];
  int n = 0;
  auto fl = os.flags();
  unsigned base = (fl & std::ios_base::hex) ? 16 : (fl & std::ios_base::oct) ? 8 : 10;
  bool up = (fl & std::ios_base::uppercase) != 0;
  do {
    unsigned d = (unsigned)(v % base);
    tmp[n++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + (d - 10));
    v /= base;
  } while (sym_decide(v != 0));
  std::string s;
  if (neg) s.push_back('-');
  if ((fl & std::ios_base::showpos) && !neg && base == 10) s.push_back('+');
  if ((fl & std::ios_base::showbase) && base == 16) s += up ? "0X" : "0x";
  size_t pre = s.size();
  while (n) s.push_back(tmp[--n]);
  size_t w = (size_t)os.width();
  if (s.size() < w) {
    char f = rt_fill(&os);
    auto adj = fl & std::ios_base::adjustfield;
    if (adj == std::ios_base::left) s.append(w - s.size(), f);
    else if (adj == std::ios_base::internal) s.insert(pre, w - s.size(), f);
    else s.insert(0, w - s.size(), f);
  }
  os.width(0);
  if (os.rdbuf()) os.rdbuf()->sputn(s.data(), (std::streamsize)s.size());
  return os;
}
extern "C" {
std::ostream& rt_ins_l(std::ostream& os, long v) __asm__("_ZNSo9_M_insertIlEERSoT_");
std::ostream& rt_ins_l(std::ostream& os, long v) {
  if (os.flags() & (std::ios_base::hex | std::ios_base::oct)) return put_number(os, (unsigned long)v, false);
  if (is_log(os)) return os;
  bool neg = sym_decide(v < 0);
  return put_number(os, neg ? 0ul - (unsigned long)v : (unsigned long)v, neg);
}
std::ostream& rt_ins_ul(std::ostream& os, unsigned long v) __asm__("_ZNSo9_M_insertImEERSoT_");
std::ostream& rt_ins_ul(std::ostream& os, unsigned long v) { return put_number(os, v, false); }
std::ostream& rt_ins_ll(std::ostream& os, long long v) __asm__("_ZNSo9_M_insertIxEERSoT_");
std::ostream& rt_ins_ll(std::ostream& os, long long v) { return rt_ins_l(os, v); }
std::ostream& rt_ins_ull(std::ostream& os, unsigned long long v) __asm__("_ZNSo9_M_insertIyEERSoT_");
std::ostream& rt_ins_ull(std::ostream& os, unsigned long long v) { return put_number(os, v, false); }
std::ostream& rt_ins_b(std::ostream& os, bool v) __asm__("_ZNSo9_M_insertIbEERSoT_");
std::ostream& rt_ins_b(std::ostream& os, bool v) {
  if (os.flags() & std::ios_base::boolalpha) return os << (v ? "true" : "false");
  return put_number(os, v, false);
}
std::ostream& rt_ins_p(std::ostream& os, const void* v) __asm__("_ZNSo9_M_insertIPKvEERSoT_");
std::ostream& rt_ins_p(std::ostream& os, const void* v) { return os; }
std::ostream& rt_ins_d(std::ostream& os, double v) __asm__("_ZNSo9_M_insertIdEERSoT_");
std::ostream& rt_ins_d(std::ostream& os, double v) {
  if (is_log(os)) return os;
  char buf[400], fmt[16];
  auto fl = os.flags() & std::ios_base::floatfield;
  int prec = (int)os.precision();
  int k = 0;
  fmt[k++] = '%'; fmt[k++] = '.';
  if (prec >= 10) fmt[k++] = (char)('0' + prec / 10);
  fmt[k++] = (char)('0' + prec % 10);
  fmt[k++] = fl == std::ios_base::fixed ? 'f' : fl == std::ios_base::scientific ? 'e' : 'g';
  fmt[k] = 0;
  uint64_t bits; memcpy(&bits, &v, 8);
  std::string s;
  if (sym_is_symbolic(bits) && fl != std::ios_base::scientific) { if (!fmt_sym_double(v, fmt[k - 1], prec, s)) return os; }
  else { int n = sym_host_fmt(buf, sizeof buf, fmt, bits); s.assign(buf, (size_t)n); }
  size_t w = (size_t)os.width();
  if (s.size() < w) s.insert(0, w - s.size(), rt_fill(&os));
  os.width(0);
  if (os.rdbuf()) os.rdbuf()->sputn(s.data(), (std::streamsize)s.size());
  return os;
}
}

// numeric extraction
static bool get_token(std::istream& is, std::string& t) {
  auto* sb = is.rdbuf();
  int c = sb->sgetc();
  if (is.flags() & std::ios_base::skipws)
    while (c != EOF && (c == ' ' || (c >= 9 && c <= 13))) c = sb->snextc();
  while (c != EOF && (c == '+' || c == '-' || c == '.' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) {
    bool num = (c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E';
    if (!num) break;
    t.push_back((char)c);
    c = sb->snextc();
  }
  if (c == EOF) is.setstate(std::ios_base::eofbit);
  if (t.empty()) { is.setstate(std::ios_base::failbit); return false; }
  return true;
}
template <class T> static std::istream& get_int(std::istream& is, T& v) {
  std::string t;
  v = 0;
  if (!is.good()) { is.setstate(std::ios_base::failbit); return is; }
  if (!get_token(is, t)) return is;
  size_t i = 0; bool neg = false;
  if (t[0] == '-') { neg = true; i = 1; } else if (t[0] == '+') i = 1;
  unsigned long r = 0;
  if (i >= t.size()) { is.setstate(std::ios_base::failbit); return is; }
  for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; i++) r = r * 10 + (unsigned long)(t[i] - '0');
  v = (T)(neg ? 0ul - r : r);
  return is;
}
extern "C" {
#define EXTR(T, M) std::istream& rt_ext_##M(std::istream& is, T& v) __asm__("_ZNSi10_M_extractI" #M "EERSiRT_"); \
  std::istream& rt_ext_##M(std::istream& is, T& v) { return get_int(is, v); }
EXTR(bool, b) EXTR(unsigned short, t) EXTR(unsigned int, j) EXTR(long, l) EXTR(unsigned long, m) EXTR(long long, x) EXTR(unsigned long long, y)
std::istream& rt_ext_d(std::istream& is, double& v) __asm__("_ZNSi10_M_extractIdEERSiRT_");
std::istream& rt_ext_d(std::istream& is, double& v) {
  std::string t;
  v = 0;
  if (!is.good()) { is.setstate(std::ios_base::failbit); return is; }
  if (!get_token(is, t)) return is;
  size_t used = 0;
  v = rt_strtod(t.c_str(), &used);
  if (!used) is.setstate(std::ios_base::failbit);
  return is;
}
std::istream& rt_ext_f(std::istream& is, float& v) __asm__("_ZNSi10_M_extractIfEERSiRT_");
std::istream& rt_ext_f(std::istream& is, float& v) { double d = 0; rt_ext_d(is, d); v = (float)d; return is; }
}
namespace std {
template <> basic_istream<char>& basic_istream<char>::operator>>(int& v) { return get_int(*this, v); }
template <> basic_istream<char>& basic_istream<char>::operator>>(short& v) { return get_int(*this, v); }
}
extern "C" {
std::istream& rt_extstr(std::istream& is, std::string& v) __asm__("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::istream& rt_extstr(std::istream& is, std::string& v) {
  v.clear();
  if (!is.good()) { is.setstate(std::ios_base::failbit); return is; }
  auto* sb = is.rdbuf();
  int c = sb->sgetc();
  while (c != EOF && (c == ' ' || (c >= 9 && c <= 13))) c = sb->snextc();
  while (c != EOF && !(c == ' ' || (c >= 9 && c <= 13))) { v.push_back((char)c); c = sb->snextc(); }
  if (c == EOF) is.setstate(std::ios_base::eofbit);
  if (v.empty()) is.setstate(std::ios_base::failbit);
  return is;
}
}
static std::istream& rt_getline_impl(std::istream& is, std::string& v, char d) {
  v.clear();
  if (!is.good()) { is.setstate(std::ios_base::failbit); return is; }
  auto* sb = is.rdbuf();
  int c = sb->sgetc();
  bool got = false;
  while (c != EOF && c != (unsigned char)d) { v.push_back((char)c); got = true; c = sb->snextc(); }
  if (c == EOF) { is.setstate(std::ios_base::eofbit); if (!got) is.setstate(std::ios_base::failbit); }
  else sb->sbumpc();
  return is;
}
extern "C" {
std::istream& rt_getl(std::istream& is, std::string& v, char d) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
std::istream& rt_getl(std::istream& is, std::string& v, char d) { return rt_getline_impl(is, v, d); }
}

// ---------------------------------------------------------------- error codes
namespace {
struct Cat : std::error_category {
  const char* name() const noexcept override { return "generic"; }
  std::string message(int) const override { return "error"; }
};
}
namespace std {
namespace _V2 {
error_category::~error_category() noexcept {}
__cow_string error_category::_M_message(int) const { return __cow_string(); }
error_condition error_category::default_error_condition(int c) const noexcept { return error_condition(c, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
const error_category& generic_category() noexcept { static Cat c; return c; }
const error_category& system_category() noexcept { return generic_category(); }
}  // namespace _V2
const error_category& iostream_category() noexcept { return generic_category(); }
}  // namespace std

// ---------------------------------------------------------------- C library
extern "C" {
int* __errno_location() { static int e; return &e; }
char __libc_single_threaded = 0;
void* __dso_handle = nullptr;
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int iswspace(wint_t c) { return c == ' ' || (c >= 9 && c <= 13); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int strcmp(const char* a, const char* b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i]) i++;
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (a[i] != b[i] || !a[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
  }
  return 0;
}
int strcasecmp(const char* a, const char* b) {
  size_t i = 0;
  while (a[i] && tolower((unsigned char)a[i]) == tolower((unsigned char)b[i])) i++;
  return tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]);
}
int strncasecmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
    if (x != y || !x) return x - y;
  }
  return 0;
}
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char* rt_strchr(const char* s, int c) __asm__("strchr");
char* rt_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* rt_strrchr(const char* s, int c) __asm__("strrchr");
char* rt_strrchr(const char* s, int c) { char* r = nullptr; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* rt_strstr(const char* h, const char* n) __asm__("strstr");
char* rt_strstr(const char* h, const char* n) {
  for (;; h++) {
    size_t i = 0;
    while (n[i] && h[i] == n[i]) i++;
    if (!n[i]) return (char*)h;
    if (!*h) return nullptr;
  }
}
void* rt_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* rt_memchr(const void* p, int c, size_t n) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) if (b[i] == (unsigned char)c) return (void*)(b + i);
  return nullptr;
}
wchar_t* rt_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) __asm__("wmemcpy");
wchar_t* rt_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* rt_wmemset(wchar_t* d, wchar_t c, size_t n) __asm__("wmemset");
wchar_t* rt_wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
wchar_t* rt_wmemmove(wchar_t* d, const wchar_t* s, size_t n) __asm__("wmemmove");
wchar_t* rt_wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
int rt_wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) __asm__("wmemcmp");
int rt_wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
size_t rt_wcslen(const wchar_t* s) __asm__("wcslen");
size_t rt_wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
char* strerror_r(int, char* b, size_t n) { if (n) b[0] = 0; return b; }

static unsigned long parse_u(const char* s, char** end, int base, bool* neg, bool* any, bool* ovf) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  *neg = false; *any = false; *ovf = false;
  if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0 && p[0] == '0') base = 8;
  else if (base == 0) base = 10;
  unsigned long r = 0;
  int nd = 0;
  for (;; p++) {
    const long c = (unsigned char)*p;
    long d;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
    else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
    else break;
    if (d >= base) break;
    *any = true;
    if (++nd > 12 && r > (~0ul - (unsigned long)d) / (unsigned long)base) *ovf = true;   // 36^12 < 2^64
    r = r * (unsigned long)base + (unsigned long)d;
  }
  if (end) *end = (char*)(*any ? p : s);
  return r;
}
long rt_strtol(const char* s, char** e, int b) __asm__("__isoc23_strtol");
long rt_strtol(const char* s, char** e, int b) {
  bool n, a, o; unsigned long r = parse_u(s, e, b, &n, &a, &o);
  if (o || (!n && r > 0x7ffffffffffffffful) || (n && r > 0x8000000000000000ul)) { errno = ERANGE; return n ? (long)0x8000000000000000ul : 0x7fffffffffffffffl; }
  return n ? (long)(0ul - r) : (long)r;
}
unsigned long rt_strtoul(const char* s, char** e, int b) __asm__("__isoc23_strtoul");
unsigned long rt_strtoul(const char* s, char** e, int b) {
  bool n, a, o; unsigned long r = parse_u(s, e, b, &n, &a, &o);
  if (o) { errno = ERANGE; return ~0ul; }
  return n ? 0ul - r : r;
}
long long rt_strtoll(const char* s, char** e, int b) __asm__("__isoc23_strtoll");
long long rt_strtoll(const char* s, char** e, int b) { return rt_strtol(s, e, b); }
unsigned long long rt_strtoull(const char* s, char** e, int b) __asm__("__isoc23_strtoull");
unsigned long long rt_strtoull(const char* s, char** e, int b) { return rt_strtoul(s, e, b); }
long rt_strtol0(const char* s, char** e, int b) __asm__("strtol");
long rt_strtol0(const char* s, char** e, int b) { return rt_strtol(s, e, b); }
unsigned long rt_strtoul0(const char* s, char** e, int b) __asm__("strtoul");
unsigned long rt_strtoul0(const char* s, char** e, int b) { return rt_strtoul(s, e, b); }
long long rt_strtoll0(const char* s, char** e, int b) __asm__("strtoll");
long long rt_strtoll0(const char* s, char** e, int b) { return rt_strtol(s, e, b); }
unsigned long long rt_strtoull0(const char* s, char** e, int b) __asm__("strtoull");
unsigned long long rt_strtoull0(const char* s, char** e, int b) { return rt_strtoul(s, e, b); }
double strtod(const char* s, char** e) {
  size_t used = 0;
  const double d = rt_strtod(s, &used);
  if (e) *e = (char*)s + used;
  return d;
}

// a small vsnprintf: %[flags][width][.prec][l]{d,i,u,x,X,s,c,f,g,e,p,%}
int vsnprintf(char* buf, size_t n, const char* fmt, va_list ap) {
  size_t o = 0;
  auto put = [&](char c) { if (o + 1 < n) buf[o] = c; o++; };
  for (const char* p = fmt; *p; p++) {
    if (*p != '%') { put(*p); continue; }
    const char* st = p++;
    bool left = false, zero = false, alt = false, plus = false;
    for (;; p++) { if (*p == '-') left = true; else if (*p == '0') zero = true; else if (*p == '#') alt = true; else if (*p == '+') plus = true; else break; }
    int width = 0, prec = -1;
    if (*p == '*') { width = va_arg(ap, int); p++; } else while (isdigit(*p)) width = width * 10 + (*p++ - '0');
    if (*p == '.') { p++; prec = 0; if (*p == '*') { prec = va_arg(ap, int); p++; } else while (isdigit(*p)) prec = prec * 10 + (*p++ - '0'); }
    int lng = 0;
    while (*p == 'l' || *p == 'z' || *p == 'h' || *p == 'j') { if (*p == 'l' || *p == 'z' || *p == 'j') lng++; p++; }
    char tmp[400]; int k = 0; bool neg = false; std::string s;
    switch (*p) {
      case '%': put('%'); continue;
      case 'c': s.push_back((char)va_arg(ap, int)); break;
      case 's': { const char* q = va_arg(ap, const char*); size_t l = 0; while ((prec < 0 || l < (size_t)prec) && q[l]) l++; s.assign(q, l); zero = false; break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': {
        unsigned long v;
        if (*p == 'd' || *p == 'i') { long x = lng ? va_arg(ap, long) : (long)va_arg(ap, int); neg = sym_decide(x < 0); v = neg ? 0ul - (unsigned long)x : (unsigned long)x; }
        else v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
        unsigned base = (*p == 'x' || *p == 'X') ? 16 : 10;
        do { unsigned d = (unsigned)(v % base); tmp[k++] = (char)(d < 10 ? '0' + d : (*p == 'X' ? 'A' : 'a') + d - 10); v /= base; } while (sym_decide(v != 0));
        while (k < prec) tmp[k++] = '0';
        if (prec >= 0) zero = false;
        while (k) s.push_back(tmp[--k]);
        if (zero && !left) while ((int)s.size() + (neg || plus ? 1 : 0) < width) s.insert(s.begin(), '0');
        if (neg) s.insert(s.begin(), '-'); else if (plus) s.insert(s.begin(), '+');
        break;
      }
      case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': {
        double d = va_arg(ap, double);
        char f2[40]; int q = 0;
        f2[q++] = '%';
        if (alt) f2[q++] = '#';
        if (plus) f2[q++] = '+';
        if (zero) { f2[q++] = '0'; if (width >= 10) f2[q++] = (char)('0' + width / 10); if (width) f2[q++] = (char)('0' + width % 10); }
        if (prec >= 0) { f2[q++] = '.'; if (prec >= 10) f2[q++] = (char)('0' + prec / 10); f2[q++] = (char)('0' + prec % 10); }
        f2[q++] = *p; f2[q] = 0;
        uint64_t b; memcpy(&b, &d, 8);
        if (sym_is_symbolic(b) && (*p == 'f' || *p == 'g') && !zero && !plus && !alt) { if (!fmt_sym_double(d, *p, prec, s)) return 0; }
        else { int l = sym_host_fmt(tmp, sizeof tmp, f2, b); s.assign(tmp, (size_t)l); }
        break;
      }
      default: (void)st; sym_unsupported("printf conversion"); return 0;
    }
    while (!left && (int)s.size() < width) { s.insert(s.begin(), ' '); }
    while (left && (int)s.size() < width) s.push_back(' ');
    for (char c : s) put(c);
  }
  if (n) buf[o < n ? o : n - 1] = 0;
  return (int)o;
}
int snprintf(char* buf, size_t n, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int r = vsnprintf(buf, n, fmt, ap);
  va_end(ap);
  return r;
}

// ---------------------------------------------------------------- time: the local zone is UTC
static const uint16_t kCum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
// days since 1970-01-01 of the first day of a month, any year from 1 on (no branches: a wrong date costs no path)
static long days_of_month(long y, unsigned m0) {
  const uint32_t p = (uint32_t)(y - 1), u = (uint32_t)y;
  long d = 365L * p + p / 4 - p / 100 + p / 400 + kCum[m0] - 719162L;
  if (m0 > 1) d += (u % 4 == 0) & ((u % 100 != 0) | (u % 400 == 0));
  return d;
}
time_t timegm(struct tm* t) {
  long y = 1900L + t->tm_year; long m = t->tm_mon;
  y += m / 12; m %= 12;
  if (m < 0) { m += 12; y--; }
  long days = days_of_month(y, (unsigned)m) + t->tm_mday - 1;
  return days * 86400L + t->tm_hour * 3600L + t->tm_min * 60L + t->tm_sec;
}
struct tm* gmtime_r(const time_t* tt, struct tm* t) {
  long s = *tt;
  long days = s / 86400, rem = s % 86400;
  if (rem < 0) { rem += 86400; days--; }
  t->tm_hour = (int)(rem / 3600); t->tm_min = (int)(rem % 3600 / 60); t->tm_sec = (int)(rem % 60);
  long wd = (days + 4) % 7; if (wd < 0) wd += 7;
  t->tm_wday = (int)wd;
  long z = days + 719468;
  long era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned long doe = (unsigned long)(z - era * 146097);
  unsigned long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long y = (long)yoe + era * 400;
  unsigned long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  unsigned long mp = (5 * doy + 2) / 153;
  unsigned d = (unsigned)(doy - (153 * mp + 2) / 5 + 1);
  unsigned m = (unsigned)(mp < 10 ? mp + 3 : mp - 9);
  y += m <= 2;
  t->tm_year = (int)(y - 1900); t->tm_mon = (int)m - 1; t->tm_mday = (int)d;
  t->tm_yday = (int)(days - days_of_month(y, 0));
  t->tm_isdst = 0; t->tm_gmtoff = 0; t->tm_zone = "UTC";
  return t;
}
static struct tm g_tm;
struct tm* gmtime(const time_t* t) { return gmtime_r(t, &g_tm); }
struct tm* localtime(const time_t* t) { return gmtime_r(t, &g_tm); }
struct tm* localtime_r(const time_t* t, struct tm* r) { return gmtime_r(t, r); }
static void norm_tm(struct tm* t, time_t v) { gmtime_r(&v, t); }
time_t mktime(struct tm* t) {
  const time_t v = timegm(t);
  norm_tm(t, v);
  return v;
}
void tzset() {}
int usleep(unsigned) { return 0; }
}
// the clock: an arbitrary but fixed instant unless the harness sets it
uint64_t rt_clock_ns = 1700000000ull * 1000000000ull;
extern "C" {
time_t time(time_t* t) { time_t v = (time_t)(rt_clock_ns / 1000000000ull); if (t) *t = v; return v; }
int clock_gettime(int, struct timespec* ts) { ts->tv_sec = (time_t)(rt_clock_ns / 1000000000ull); ts->tv_nsec = (long)(rt_clock_ns % 1000000000ull); return 0; }
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration((long)rt_clock_ns)); }
// a timed wait that runs out moves the steady clock far ahead
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long)(rt_clock_ns + sym_clock_skew()))); }
} } }

// ---------------------------------------------------------------- threads
namespace {
void thread_main(void* p) {
  auto* s = (std::thread::_State*)p;
  s->_M_run();
  delete s;
}
}
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr st, void (*)()) {
  int id = sym_thread_create(thread_main, st.release());
  _M_id = thread::id((unsigned long)id + 1);
}
void thread::join() {
  unsigned long h; memcpy(&h, &_M_id, sizeof h);
  sym_thread_join((int)h - 1);
  _M_id = thread::id();
}
void thread::detach() { _M_id = thread::id(); }
unsigned int thread::hardware_concurrency() noexcept { return 2; }
}

// ---------------------------------------------------------------- zlib
// A stored-data codec with zlib's streaming interface and error behaviour:
// inflate(deflate(x)) == x, truncated or foreign input is a data error.
// layout: 0x78 0x9C, 4 byte little endian length, data, 1 byte checksum
struct z_state { uint32_t len; uint32_t pos; uint8_t sum; uint8_t phase; uint8_t hdr[6]; uint32_t hp; std::string* acc; uint32_t op; };
struct z_stream_t {
  const uint8_t* next_in; unsigned avail_in; unsigned long total_in;
  uint8_t* next_out; unsigned avail_out; unsigned long total_out;
  const char* msg; z_state* state;
  void *zalloc, *zfree, *opaque; int data_type; unsigned long adler; unsigned long reserved;
};
extern "C" {
int deflateInit_(z_stream_t* z, int, const char*, int) {
  sym_stub("zlib deflate: stored-data codec");
  z->state = new z_state(); z->state->acc = new std::string(); z->state->op = 0; z->state->phase = 0;
  z->total_in = 0; z->total_out = 0; z->msg = nullptr;
  return 0;
}
int deflate(z_stream_t* z, int flush) {
  z_state* s = z->state;
  if (z->avail_in) {
    s->acc->append((const char*)z->next_in, z->avail_in);
    z->next_in += z->avail_in; z->total_in += z->avail_in; z->avail_in = 0;
  }
  if (flush != 4) return 0;
  if (s->phase == 0) {
    std::string o;
    uint32_t n = (uint32_t)s->acc->size();
    o.push_back((char)0x78); o.push_back((char)0x9C);
    for (int i = 0; i < 4; i++) o.push_back((char)(n >> (8 * i)));
    o += *s->acc;
    o.push_back((char)0x5A);
    *s->acc = o;
    s->phase = 1;
  }
  while (z->avail_out && s->op < s->acc->size()) {
    uint32_t n = (uint32_t)s->acc->size() - s->op;
    if (n > z->avail_out) n = z->avail_out;
    memcpy(z->next_out, s->acc->data() + s->op, n);
    z->next_out += n; z->avail_out -= n; z->total_out += n; s->op += n;
  }
  return s->op == s->acc->size() ? 1 : 0;
}
int deflateEnd(z_stream_t* z) { if (z->state) { delete z->state->acc; delete z->state; z->state = nullptr; } return 0; }
int inflateInit_(z_stream_t* z, const char*, int) {
  sym_stub("zlib inflate: stored-data codec");
  z->state = new z_state(); z->state->acc = nullptr; z->state->phase = 0; z->state->hp = 0; z->state->len = 0; z->state->pos = 0;
  z->total_in = 0; z->total_out = 0; z->msg = nullptr;
  return 0;
}
int inflate(z_stream_t* z, int flush) {
  z_state* s = z->state;
  bool progress = false;
  for (;;) {
    if (s->phase == 3) return 1;
    if (s->phase == 0) {
      if (!z->avail_in) return progress ? 0 : -5;
      s->hdr[s->hp++] = *z->next_in++; z->avail_in--; z->total_in++; progress = true;
      if (s->hp == 2 && sym_decide(s->hdr[0] != 0x78 || s->hdr[1] != 0x9C)) return -3;
      if (s->hp == 6) {
        s->len = (uint32_t)s->hdr[2] | (uint32_t)s->hdr[3] << 8 | (uint32_t)s->hdr[4] << 16 | (uint32_t)s->hdr[5] << 24;
        s->phase = 1;
      }
      continue;
    }
    if (s->phase == 1) {
      if (s->pos == s->len) { s->phase = 2; continue; }
      if (!z->avail_in || !z->avail_out) return progress ? 0 : -5;
      unsigned n = z->avail_in < z->avail_out ? z->avail_in : z->avail_out;
      if (n > s->len - s->pos) n = s->len - s->pos;
      memcpy(z->next_out, z->next_in, n);
      z->next_in += n; z->avail_in -= n; z->total_in += n;
      z->next_out += n; z->avail_out -= n; z->total_out += n;
      s->pos += n; progress = true;
      continue;
    }
    if (!z->avail_in) return progress ? 0 : -5;
    uint8_t c = *z->next_in++; z->avail_in--; z->total_in++;
    progress = true;
    if (sym_decide(c != 0x5A)) return -3;
    s->phase = 3;
  }
}
int inflateEnd(z_stream_t* z) { if (z->state) { delete z->state; z->state = nullptr; } return 0; }
unsigned long compressBound(unsigned long n) { return n + 32; }
}
// ---------------------------------------------------------------- file names
// Only streams are opened in the model, so paths carry no components.
extern "C" {
void rt_codecvt_c(void* p, size_t) __asm__("_ZNSt7codecvtIwc11__mbstate_tEC1Em");
void rt_codecvt_c(void* p, size_t) {}
void rt_codecvt_c2(void* p, size_t) __asm__("_ZNSt7codecvtIwc11__mbstate_tEC2Em");
void rt_codecvt_c2(void* p, size_t) {}
void rt_codecvt_d(void* p) __asm__("_ZNSt7codecvtIwc11__mbstate_tED2Ev");
void rt_codecvt_d(void* p) {}
void rt_codecvt_d1(void* p) __asm__("_ZNSt7codecvtIwc11__mbstate_tED1Ev");
void rt_codecvt_d1(void* p) {}
void rt_path_split(void* p) __asm__("_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv");
void rt_path_split(void* p) {}
void rt_path_list(void* p) __asm__("_ZNSt10filesystem7__cxx114path5_ListC1Ev");
void rt_path_list(void* p) { *(void**)p = nullptr; }
void rt_path_list_del(const void* p, void*) __asm__("_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE");
void rt_path_list_del(const void* p, void*) {}
}
extern "C" {
void rt_codecvt8_d(void* p) __asm__("_ZNSt19__codecvt_utf8_baseIwED2Ev");
void rt_codecvt8_d(void* p) {}
}
struct rt_ext { const void* s; size_t n; };
extern "C" {
rt_ext rt_path_ext(const void* p) __asm__("_ZNKSt10filesystem7__cxx114path17_M_find_extensionEv");
rt_ext rt_path_ext(const void* p) { return {nullptr, (size_t)-1}; }
}
// ---------------------------------------------------------------- std::put_time (numeric formats)
extern "C" std::ostream& rt_put_time(std::ostream& os, const struct tm* t, const char* f)
    __asm__("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St9_Put_timeIS3_E");
extern "C" std::ostream& rt_put_time(std::ostream& os, const struct tm* t, const char* f) {
  auto put = [&](unsigned v, int n) {
    char b[8];
    for (int i = n - 1; i >= 0; i--) { b[i] = (char)('0' + v % 10); v /= 10; }
    os.write(b, n);
  };
  for (; *f; f++) {
    if (*f != '%') { os.put(*f); continue; }
    switch (*++f) {
      case 'Y': put((unsigned)(t->tm_year + 1900), 4); break;
      case 'm': put((unsigned)(t->tm_mon + 1), 2); break;
      case 'd': put((unsigned)t->tm_mday, 2); break;
      case 'H': put((unsigned)t->tm_hour, 2); break;
      case 'M': put((unsigned)t->tm_min, 2); break;
      case 'S': put((unsigned)t->tm_sec, 2); break;
      default: sym_unsupported("put_time format");
    }
  }
  return os;
}
// ---------------------------------------------------------------- the file system: no file exists
extern "C" {
uint64_t rt_fs_status(const void*) __asm__("_ZNSt10filesystem6statusERKNS_7__cxx114pathE");
uint64_t rt_fs_status(const void*) { return 0xffull | 0xffffull << 32; }
uint64_t rt_fs_status_ec(const void*, void*) __asm__("_ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code");
uint64_t rt_fs_status_ec(const void*, void*) { return 0xffull | 0xffffull << 32; }
}
// ---------------------------------------------------------------- expat: a small non-validating parser
// Elements, attributes, character data, the five predefined entities and character references,
// CDATA, comments, processing instructions and the XML declaration. Document type declarations are
// not supported (they stop the run as unsupported, never silently).
struct XML_ParserStruct {
  void* user = nullptr;
  void (*start)(void*, const char*, const char**) = nullptr;
  void (*end)(void*, const char*) = nullptr;
  void (*chars)(void*, const char*, int) = nullptr;
  void (*decl)(void*, const char*, const char*, int) = nullptr;
  int error = 0;
  const char* p = nullptr;
  const char* e = nullptr;
};
namespace {
using XP = XML_ParserStruct;
struct XmlModel {
  XP& x;
  const char*& p;
  const char* e;
  std::string* stack = nullptr;
  int depth = 0;
  bool fail(int code) { x.error = code; return false; }
  static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
  static bool name0(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == ':' || (c & 0x80); }
  static bool namec(char c) { return name0(c) || (c >= '0' && c <= '9') || c == '-' || c == '.'; }
  bool at(const char* s) const {
    const char* q = p;
    for (; *s; s++, q++) if (q == e || *q != *s) return false;
    return true;
  }
  void skip() { while (p != e && space(*p)) p++; }
  bool name(std::string& o) {
    o.clear();
    if (p == e || !name0(*p)) return fail(4);
    const char* b = p;
    while (p != e && namec(*p)) p++;
    o.assign(b, (size_t)(p - b));
    return true;
  }
  // one character of valid UTF-8 that XML allows; gives its length
  int chr() {
    const unsigned char c = (unsigned char)*p;
    if (c < 0x80) return c >= 0x20 || c == '\t' || c == '\n' || c == '\r' ? 1 : 0;
    const int n = c >= 0xc2 && c <= 0xdf ? 2 : (c & 0xf0) == 0xe0 ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0;
    if (n == 0 || e - p < n) return 0;
    for (int i = 1; i < n; i++) if (((unsigned char)p[i] & 0xc0) != 0x80) return 0;
    const unsigned char d = (unsigned char)p[1];
    if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f)) return 0;
    if (c == 0xef && d == 0xbf && (unsigned char)p[2] >= 0xbe) return 0;
    return n;
  }
  bool reference(std::string& o) {  // p is at '&'
    p++;
    o.clear();
    if (p != e && *p == '#') {
      p++;
      unsigned v = 0, digits = 0;
      const bool hex = p != e && *p == 'x';
      if (hex) p++;
      for (; p != e && *p != ';'; p++, digits++) {
        unsigned d;
        if (*p >= '0' && *p <= '9') d = (unsigned)(*p - '0');
        else if (hex && *p >= 'a' && *p <= 'f') d = (unsigned)(*p - 'a') + 10;
        else if (hex && *p >= 'A' && *p <= 'F') d = (unsigned)(*p - 'A') + 10;
        else return fail(4);
        v = v * (hex ? 16 : 10) + d;
        if (v > 0x10ffff) return fail(14);
      }
      if (p == e || digits == 0) return fail(4);
      p++;
      if ((v < 0x20 && v != 9 && v != 10 && v != 13) || (v >= 0xd800 && v < 0xe000) || v == 0xfffe || v == 0xffff) return fail(14);
      if (v < 0x80) o.push_back((char)v);
      else if (v < 0x800) { o.push_back((char)(0xc0 | v >> 6)); o.push_back((char)(0x80 | (v & 63))); }
      else if (v < 0x10000) { o.push_back((char)(0xe0 | v >> 12)); o.push_back((char)(0x80 | (v >> 6 & 63))); o.push_back((char)(0x80 | (v & 63))); }
      else { o.push_back((char)(0xf0 | v >> 18)); o.push_back((char)(0x80 | (v >> 12 & 63))); o.push_back((char)(0x80 | (v >> 6 & 63))); o.push_back((char)(0x80 | (v & 63))); }
      return true;
    }
    static const struct { const char* n; char c; } k[] = {{"lt;", '<'}, {"gt;", '>'}, {"amp;", '&'}, {"quot;", '"'}, {"apos;", '\''}};
    for (const auto& i : k)
      if (at(i.n)) { p += strlen(i.n); o.push_back(i.c); return true; }
    return fail(11);
  }
  bool until(const char* s) {
    while (p != e && !at(s)) { const int n = chr(); if (!n) return fail(4); p += n; }
    if (p == e) return fail(5);
    p += strlen(s);
    return true;
  }
  bool quoted(std::string& o, bool decl) {
    if (p == e || (*p != '\'' && *p != '"')) return fail(4);
    const char q = *p++;
    o.clear();
    while (p != e && *p != q) {
      if (*p == '<') return fail(4);
      if (*p == '&' && !decl) { std::string r; if (!reference(r)) return false; o += r; continue; }
      const int n = chr();
      if (!n) return fail(4);
      if (*p == '\r' && p + 1 != e && p[1] == '\n') p++;
      if (space(*p)) { o.push_back(' '); p++; } else { o.append(p, (size_t)n); p += n; }
    }
    if (p == e) return fail(5);
    p++;
    return true;
  }
  bool misc(bool prolog) {  // comments and processing instructions; p is at '<'
    if (at("<!--")) {
      p += 4;
      while (p != e && !at("--")) { const int n = chr(); if (!n) return fail(4); p += n; }
      if (p == e) return fail(5);
      p += 2;
      if (p == e || *p != '>') return fail(4);
      p++;
      return true;
    }
    if (at("<?")) {
      p += 2;
      std::string t;
      if (!name(t)) return false;
      if (t.size() == 3 && (t[0] | 32) == 'x' && (t[1] | 32) == 'm' && (t[2] | 32) == 'l') return fail(prolog ? 17 : 17);
      return until("?>");
    }
    if (at("<!DOCTYPE")) sym_unsupported("XML document type declaration");
    return fail(4);
  }
  bool element() {  // p is at '<' of a start tag
    p++;
    std::string tag, k[8], v[8];
    const char* at_[17];
    int n = 0;
    if (!name(tag)) return false;
    for (;;) {
      const char* b = p;
      skip();
      if (p == e) return fail(5);
      if (*p == '>' || *p == '/') break;
      if (p == b) return fail(4);
      if (n == 8) sym_unsupported("more than 8 XML attributes");
      if (!name(k[n])) return false;
      for (int i = 0; i < n; i++) if (k[i] == k[n]) return fail(8);
      skip();
      if (p == e || *p != '=') return fail(4);
      p++;
      skip();
      if (!quoted(v[n], false)) return false;
      n++;
    }
    const bool empty = *p == '/';
    p++;
    if (empty) { if (p == e || *p != '>') return fail(4); p++; }
    for (int i = 0; i < n; i++) { at_[2 * i] = k[i].c_str(); at_[2 * i + 1] = v[i].c_str(); }
    at_[2 * n] = nullptr;
    if (x.start) x.start(x.user, tag.c_str(), at_);
    if (empty) { if (x.end) x.end(x.user, tag.c_str()); return true; }
    if (++depth > 32) sym_unsupported("XML nesting");
    if (!content(tag)) return false;
    depth--;
    return true;
  }
  void text(const char* b, size_t n) { if (x.chars && n) x.chars(x.user, b, (int)n); }
  bool content(const std::string& tag) {
    while (p != e) {
      if (*p == '<') {
        if (at("</")) {
          p += 2;
          std::string t;
          if (!name(t)) return false;
          if (t != tag) return fail(7);
          skip();
          if (p == e || *p != '>') return fail(4);
          p++;
          if (x.end) x.end(x.user, t.c_str());
          return true;
        }
        if (at("<![CDATA[")) {
          p += 9;
          while (p != e && !at("]]>")) {
            const int n = chr();
            if (!n) return fail(4);
            if (*p == '\r') { text("\n", 1); p++; if (p != e && *p == '\n') p++; continue; }
            text(p, (size_t)n);
            p += n;
          }
          if (p == e) return fail(20);
          p += 3;
          continue;
        }
        if (at("<!") || at("<?")) { if (!misc(false)) return false; continue; }
        if (!element()) return false;
        continue;
      }
      if (*p == '&') { std::string r; if (!reference(r)) return false; text(r.data(), r.size()); continue; }
      if (at("]]>")) return fail(4);
      if (*p == '\r') { text("\n", 1); p++; if (p != e && *p == '\n') p++; continue; }
      if (*p == '\n') { text("\n", 1); p++; continue; }
      const char* b = p;
      while (p != e && *p != '<' && *p != '&' && *p != '\r' && *p != '\n' && !at("]]>")) {
        const int n = chr();
        if (!n) { text(b, (size_t)(p - b)); return fail(4); }
        p += n;
      }
      text(b, (size_t)(p - b));
    }
    return fail(3);
  }
  bool declaration() {  // p is after "<?xml"
    std::string k, v, version, encoding;
    bool hv = false, he = false;
    int standalone = -1;
    for (;;) {
      skip();
      if (at("?>")) break;
      if (p == e || !name(k)) return fail(30);
      skip();
      if (p == e || *p != '=') return fail(30);
      p++;
      skip();
      if (!quoted(v, true)) return fail(30);
      if (k == "version") { version = v; hv = true; }
      else if (k == "encoding") { encoding = v; he = true; }
      else if (k == "standalone") standalone = v == "yes";
      else return fail(30);
    }
    if (!hv) return fail(30);
    p += 2;
    if (x.decl) x.decl(x.user, version.c_str(), he ? encoding.c_str() : nullptr, standalone);
    return true;
  }
  bool document() {
    if (at("\xEF\xBB\xBF")) p += 3;
    if (at("<?xml") && e - p > 5 && space(p[5])) { p += 5; if (!declaration()) return false; }
    bool root = false;
    for (;;) {
      skip();
      if (p == e) return root ? true : fail(3);
      if (*p != '<') return fail(root ? 9 : 2);
      if (at("<!") || at("<?")) { if (!misc(true)) return false; continue; }
      if (root) return fail(9);
      root = true;
      if (!element()) return false;
    }
  }
};
}  // namespace
extern "C" {
XP* XML_ParserCreate(const char*) { return new XP; }
void XML_ParserFree(XP* x) { delete x; }
void XML_SetUserData(XP* x, void* u) { x->user = u; }
void XML_SetElementHandler(XP* x, void (*s)(void*, const char*, const char**), void (*e)(void*, const char*)) { x->start = s; x->end = e; }
void XML_SetCharacterDataHandler(XP* x, void (*c)(void*, const char*, int)) { x->chars = c; }
void XML_SetXmlDeclHandler(XP* x, void (*d)(void*, const char*, const char*, int)) { x->decl = d; }
int XML_Parse(XP* x, const char* b, int n, int final) {
  if (!final) sym_unsupported("XML in several pieces");
  x->p = b;
  x->e = b + n;
  XmlModel m{*x, x->p, x->e};
  return m.document() ? 1 : 0;
}
unsigned long XML_GetCurrentLineNumber(XP*) { return 0; }
unsigned long XML_GetCurrentColumnNumber(XP*) { return 0; }
int XML_GetErrorCode(XP* x) { return x->error; }
const char* XML_ErrorString(int) { return "XML error"; }
}
