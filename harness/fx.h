// Shared fixtures for the harnesses.
#pragma once
#include "sym.h"
#include <cstring>
#include <memory>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>
#ifndef TIER
#define TIER 0
#endif
// In-memory random access file: fixed capacity, bounds enforced, no growth surprises.
class MemFile : public std::streambuf {
 public:
  std::vector<uint8_t> d;   // content
  size_t pos = 0;
  int writes = 0;
  MemFile() = default;
  explicit MemFile(const std::vector<uint8_t>& v) : d(v) {}
  explicit MemFile(size_t n) : d(n, 0) {}
  int_type underflow() override { return pos < d.size() ? traits_type::to_int_type((char)d[pos]) : traits_type::eof(); }
  int_type uflow() override { return pos < d.size() ? traits_type::to_int_type((char)d[pos++]) : traits_type::eof(); }
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return 0;
    char b = (char)c;
    xsputn(&b, 1);
    return c;
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    if (n <= 0 || pos >= d.size()) return 0;
    size_t left = d.size() - pos;
    size_t k = (size_t)n < left ? (size_t)n : left;
    memcpy(s, d.data() + pos, k);
    pos += k;
    return (std::streamsize)k;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (n <= 0) return 0;
    ++writes;
    if (pos + (size_t)n > d.size()) d.resize(pos + (size_t)n, 0);
    memcpy(d.data() + pos, s, (size_t)n);
    pos += (size_t)n;
    return n;
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override {
    off_type b = w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? (off_type)pos : (off_type)d.size();
    off_type t;
    if (__builtin_add_overflow(b, o, &t)) return pos_type(off_type(-1));
    if (t < 0 || t > (off_type)1 << 40) return pos_type(off_type(-1));
    pos = (size_t)t;
    return pos_type(t);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
  std::streamsize showmanyc() override { return pos < d.size() ? (std::streamsize)(d.size() - pos) : -1; }
};
inline void sym_bytes(std::vector<uint8_t>& v, size_t n, const char* name) {
  v.resize(n);
  if (n) sym_make(v.data(), n, name);
}
inline std::vector<uint8_t> sym_vec(size_t n, const char* name) {
  std::vector<uint8_t> v;
  sym_bytes(v, n, name);
  return v;
}
inline bool eq(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) {
  if (a.size() != b.size()) return false;
  unsigned d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (unsigned)(a[i] ^ b[i]);
  return d == 0;
}
inline bool eqn(const uint8_t* a, const uint8_t* b, size_t n) {
  unsigned d = 0;
  for (size_t i = 0; i < n; i++) d |= (unsigned)(a[i] ^ b[i]);
  return d == 0;
}
inline uint64_t dbits(double v) { uint64_t b; memcpy(&b, &v, 8); return b; }
inline double bitsd(uint64_t b) { double v; memcpy(&v, &b, 8); return v; }
inline uint32_t fbits(float v) { uint32_t b; memcpy(&b, &v, 4); return b; }
inline void trace_vec(const char* l, const std::vector<uint8_t>& v) {
  sym_trace(l, v.size());
  for (size_t i = 0; i < v.size() && i < 24; i++) sym_trace(l, v[i]);
}
inline void trace_str(const char* l, const std::string& v) {
  sym_trace(l, v.size());
  for (size_t i = 0; i < v.size() && i < 24; i++) sym_trace(l, (uint8_t)v[i]);
}
