// MDF 4 files built byte by byte, independent of the library's writer.
#pragma once
#include "meas.h"
#include <zlib.h>
namespace {
using Bytes = std::vector<uint8_t>;
inline void le(Bytes& b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); }
inline void cat(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
inline Bytes sub(const Bytes& a, size_t from, size_t to) { return Bytes(a.begin() + from, a.begin() + to); }
struct Raw {
  Bytes d;
  Raw() {
    const char id[] = "MDF     4.10    verif   ";
    d.assign(id, id + 24);
    le(d, 0, 4); le(d, 410, 2); le(d, 0, 2);
    d.resize(64, 0);
  }
  uint64_t block(const char* id, const std::vector<uint64_t>& links, const Bytes& data) {
    while (d.size() % 8) d.push_back(0);
    const uint64_t pos = d.size();
    d.push_back('#'); d.push_back('#'); d.push_back((uint8_t)id[0]); d.push_back((uint8_t)id[1]);
    le(d, 0, 4);
    le(d, 24 + 8 * links.size() + data.size(), 8);
    le(d, links.size(), 8);
    for (auto l : links) le(d, l, 8);
    cat(d, data);
    return pos;
  }
  void put(size_t at, uint64_t v, int n) { for (int i = 0; i < n; i++) d[at + i] = (uint8_t)(v >> (8 * i)); }
  uint64_t get(size_t at, int n) const { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)d[at + i] << (8 * i); return v; }
  void link(uint64_t pos, size_t index, uint64_t to) { put(pos + 24 + 8 * index, to, 8); }
  uint64_t text(const char* s) { Bytes b(s, s + strlen(s) + 1); while (b.size() % 8) b.push_back(0); return block("TX", {}, b); }
  // the header block must come first; links: dg fh ch at ev md
  uint64_t header() {
    Bytes b;
    le(b, kStart, 8); le(b, 0, 2); le(b, 0, 2); b.push_back(0); b.push_back(0); b.push_back(0); b.push_back(0);
    le(b, 0, 8); le(b, 0, 8);
    return block("HD", {0, 0, 0, 0, 0, 0}, b);
  }
  uint64_t fh() { Bytes b; le(b, kStart, 8); le(b, 0, 8); return block("FH", {0, 0}, b); }
  uint64_t dg(int id_size) { Bytes b; b.push_back((uint8_t)id_size); b.resize(8, 0); return block("DG", {0, 0, 0, 0}, b); }
  uint64_t cg(uint64_t record_id, uint64_t samples, int flags, uint32_t bytes, uint32_t inval = 0) {
    Bytes b;
    le(b, record_id, 8); le(b, samples, 8); le(b, flags, 2); le(b, '.', 2); le(b, 0, 4); le(b, bytes, 4); le(b, inval, 4);
    return block("CG", {0, 0, 0, 0, 0, 0}, b);
  }
  uint64_t cn(const char* name, int type, int sync, int dtype, uint32_t byte_offset, uint32_t bits, uint32_t flags = 0, uint32_t inval_pos = 0, int bit_offset = 0) {
    const uint64_t tx = text(name);
    Bytes b;
    b.push_back((uint8_t)type); b.push_back((uint8_t)sync); b.push_back((uint8_t)dtype); b.push_back((uint8_t)bit_offset);
    le(b, byte_offset, 4); le(b, bits, 4); le(b, flags, 4); le(b, inval_pos, 4);
    b.push_back(0); b.push_back(0); le(b, 0, 2);
    for (int i = 0; i < 6; i++) le(b, 0, 8);
    return block("CN", {0, 0, tx, 0, 0, 0, 0, 0}, b);
  }
  static Bytes zip(const Bytes& in) {
    z_stream s;
    memset(&s, 0, sizeof s);
    Bytes out(in.size() + 200);
    deflateInit(&s, Z_DEFAULT_COMPRESSION);
    s.next_in = (Bytef*)in.data(); s.avail_in = (uInt)in.size();
    s.next_out = out.data(); s.avail_out = (uInt)out.size();
    deflate(&s, Z_FINISH);
    out.resize(out.size() - s.avail_out);
    deflateEnd(&s);
    return out;
  }
  static Bytes transposed(const Bytes& in, size_t cols) {
    if (cols == 0) return in;
    const size_t rows = in.size() / cols;
    Bytes out = in;
    for (size_t r = 0; r < rows; r++)
      for (size_t c = 0; c < cols; c++) out[c * rows + r] = in[r * cols + c];
    return out;
  }
  // kind: 0 plain, 1 deflated, 2 transposed and deflated
  uint64_t data(const char* id, const Bytes& in, int kind, uint32_t cols = 0) {
    if (kind == 0) return block(id, {}, in);
    const Bytes z = in.empty() ? Bytes() : zip(kind == 2 ? transposed(in, cols) : in);
    Bytes b;
    b.push_back((uint8_t)id[0]); b.push_back((uint8_t)id[1]); b.push_back((uint8_t)(kind - 1)); b.push_back(0);
    le(b, kind == 2 ? cols : 0, 4); le(b, in.size(), 8); le(b, z.size(), 8);
    cat(b, z);
    return block("DZ", {}, b);
  }
  uint64_t dl(const std::vector<uint64_t>& blocks, const std::vector<uint64_t>& offsets, uint64_t next = 0) {
    std::vector<uint64_t> l{next};
    for (auto x : blocks) l.push_back(x);
    Bytes b;
    le(b, 0, 4); le(b, blocks.size(), 4);
    for (auto o : offsets) le(b, o, 8);
    return block("DL", l, b);
  }
  uint64_t hl(uint64_t first) { Bytes b; le(b, 0, 2); b.push_back(0); b.resize(8, 0); return block("HL", {first}, b); }
  std::shared_ptr<MemFile> file() { while (d.size() % 8) d.push_back(0); return std::make_shared<MemFile>(d); }
};
}  // namespace
