// Channel values in a sample record: set/get round trip, bit fields, validity bits.
#include "fx.h"
#include "cg4block.h"
#include "cg3block.h"
#include "cn3block.h"
#include "cn4block.h"
#include "ca4block.h"
#include "dg4block.h"
using namespace mdf;
using namespace mdf::detail;

namespace {
const ChannelDataType kInt[4] = {ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe,
                                 ChannelDataType::SignedIntegerLe, ChannelDataType::SignedIntegerBe};
uint64_t trunc_u(uint64_t v, unsigned bytes) { return bytes >= 8 ? v : v & ((1ull << (8 * bytes)) - 1); }
int64_t sext(uint64_t v, unsigned bytes) {
  if (bytes >= 8) return (int64_t)v;
  unsigned s = 64 - 8 * bytes;
  return (int64_t)(v << s) >> s;
}
struct Group {
  Cg4Block cg;
  IChannel* pre = nullptr;
  IChannel* ch = nullptr;
  IChannel* post = nullptr;
  size_t pre_n, n, post_n, elems;
  bool inv;
};
// pre | channel (maybe an array) | post, then the invalidation bytes
void build(Group& g, ChannelDataType t, unsigned bytes, size_t elems, bool inv, bool inv_others) {
  g.pre_n = 2; g.post_n = 1; g.n = bytes; g.elems = elems; g.inv = inv;
  g.pre = g.cg.CreateChannel();
  g.pre->DataType(ChannelDataType::UnsignedIntegerBe);
  g.pre->DataBytes(2);
  g.ch = g.cg.CreateChannel();
  g.ch->DataType(t);
  g.ch->DataBytes(bytes);
  if (elems > 1) {
    auto* ca = g.ch->CreateChannelArray();
    ca->Shape({elems});
  }
  g.post = g.cg.CreateChannel();
  g.post->DataType(ChannelDataType::UnsignedIntegerLe);
  g.post->DataBytes(1);
  if (inv) g.ch->Flags(g.ch->Flags() | CnFlag::InvalidValid);
  if (inv_others) {
    g.pre->Flags(g.pre->Flags() | CnFlag::InvalidValid);
    g.post->Flags(g.post->Flags() | CnFlag::InvalidValid);
  }
  g.cg.PrepareForWriting();
}
}  // namespace

// Set one element, then read everything back.
HARNESS(h_int_roundtrip) {
  sym_expect("unsigned"); sym_expect("signed"); sym_expect("invalid"); sym_expect("array");
  const auto t = kInt[sym_choose(4, "type")];
  const unsigned bytes = 1u << sym_choose(4, "size");
  const size_t elems = 1 + sym_choose(3, "elems");
  const size_t idx = sym_choose(elems, "index");
  const bool inv = sym_choose(2, "inv"), invo = sym_choose(2, "invo");
  sym_bound("array elements", 3); sym_bound("value bytes", 8);
  Group g;
  build(g, t, bytes, elems, inv, invo);
  auto& buf = g.cg.SampleBuffer();
  const size_t data = 2 + bytes * elems + 1;
  sym_check(buf.size() >= data && g.cg.NofDataBytes() == data, "record holds all channels");
  sym_make(buf.data(), buf.size(), "old");
  const std::vector<uint8_t> old = buf;
  const uint64_t v = sym<uint64_t>("v");
  const bool valid = sym_bool("valid");
  const bool sgn = t == ChannelDataType::SignedIntegerLe || t == ChannelDataType::SignedIntegerBe;
  if (sgn) g.ch->SetChannelValue((int64_t)v, valid, idx);
  else g.ch->SetChannelValue(v, valid, idx);
  const std::vector<uint8_t> rec = g.cg.GetSampleRecord().record_buffer;
  sym_check(rec.size() == old.size(), "record size kept");
  bool ok;
  if (sgn) {
    int64_t r = 0;
    ok = g.ch->GetChannelValue(rec, r, idx);
    sym_check(r == sext(v, bytes), "signed value survives");
    sym_trace("r", (uint64_t)r);
    sym_cover("signed");
  } else {
    uint64_t r = 0;
    ok = g.ch->GetChannelValue(rec, r, idx);
    sym_check(r == trunc_u(v, bytes), "unsigned value survives");
    sym_trace("r", r);
    sym_cover("unsigned");
  }
  sym_check(ok == (inv ? valid : true), "validity survives");
  if (inv) sym_cover("invalid");
  if (elems > 1) sym_cover("array");
  // nothing else moved
  const size_t off = 2 + bytes * idx;
  unsigned diff = 0;
  for (size_t i = 0; i < data; i++)
    if (i < off || i >= off + bytes) diff |= (unsigned)(rec[i] ^ old[i]);
  sym_check(diff == 0, "other data bytes untouched");
  uint64_t a = 0, b = 0, c = 0, d = 0;
  const bool va = g.pre->GetChannelValue(old, a), vb = g.pre->GetChannelValue(rec, b);
  const bool vc = g.post->GetChannelValue(old, c), vd = g.post->GetChannelValue(rec, d);
  sym_check(a == b && va == vb && c == d && vc == vd, "other channels untouched");
  for (size_t i = 0; i < elems; i++) {
    if (i == idx) continue;
    uint64_t x = 0, y = 0;
    const bool vx = g.ch->GetChannelValue(old, x, i), vy = g.ch->GetChannelValue(rec, y, i);
    sym_check(x == y && vx == vy, "other elements untouched");
  }
}

HARNESS(h_float_roundtrip) {
  sym_expect("f32"); sym_expect("f64");
  const bool be = sym_choose(2, "be"), wide = sym_choose(2, "wide");
  const size_t elems = 1 + sym_choose(2, "elems"), idx = sym_choose(elems, "index");
  const bool inv = sym_choose(2, "inv");
  const unsigned bytes = wide ? 8 : 4;
  Group g;
  build(g, be ? ChannelDataType::FloatBe : ChannelDataType::FloatLe, bytes, elems, inv, false);
  auto& buf = g.cg.SampleBuffer();
  sym_make(buf.data(), buf.size(), "old");
  const std::vector<uint8_t> old = buf;
  const bool valid = sym_bool("valid");
  uint64_t want;
  if (wide) {
    const uint64_t bits = sym<uint64_t>("v");
    g.ch->SetChannelValue(bitsd(bits), valid, idx);
    want = bits;
    sym_cover("f64");
  } else {
    const uint32_t bits = sym<uint32_t>("v");
    float f;
    memcpy(&f, &bits, 4);
    sym_assume(f == f);
    g.ch->SetChannelValue(f, valid, idx);
    want = bits;
    sym_cover("f32");
  }
  const std::vector<uint8_t> rec = g.cg.GetSampleRecord().record_buffer;
  double r = 0;
  const bool ok = g.ch->GetChannelValue(rec, r, idx);
  if (wide) sym_check(dbits(r) == want, "double survives bit for bit");
  else {
    float f;
    uint32_t b = (uint32_t)want;
    memcpy(&f, &b, 4);
    sym_check(r == (double)f, "float survives");
  }
  sym_check(ok == (inv ? valid : true), "validity survives");
  const size_t off = 2 + bytes * idx, data = 2 + bytes * elems + 1;
  // the stored bytes follow the declared byte order
  for (unsigned i = 0; i < bytes; i++) {
    const unsigned sh = 8 * (be ? bytes - 1 - i : i);
    sym_check(rec[off + i] == (uint8_t)(want >> sh), "declared byte order in the record");
  }
  unsigned diff = 0;
  for (size_t i = 0; i < data; i++)
    if (i < off || i >= off + bytes) diff |= (unsigned)(rec[i] ^ old[i]);
  sym_check(diff == 0, "other data bytes untouched");
}

// integer byte order in the record
HARNESS(h_int_layout) {
  const auto t = kInt[sym_choose(4, "type")];
  const unsigned bytes = 1u << sym_choose(4, "size");
  Group g;
  build(g, t, bytes, 1, false, false);
  const uint64_t v = sym<uint64_t>("v");
  const bool be = t == ChannelDataType::UnsignedIntegerBe || t == ChannelDataType::SignedIntegerBe;
  g.ch->SetChannelValue(v);
  const auto rec = g.cg.GetSampleRecord().record_buffer;
  for (unsigned i = 0; i < bytes; i++)
    sym_check(rec[2 + i] == (uint8_t)(v >> (8 * (be ? bytes - 1 - i : i))), "declared byte order in the record");
}

// Setting never writes outside the record, whatever the layout the channel claims.
HARNESS(h_set_bounds) {
  sym_expect("fits"); sym_expect("outside");
  static const ChannelDataType kAll[6] = {kInt[0], kInt[1], kInt[2], kInt[3], ChannelDataType::FloatLe, ChannelDataType::FloatBe};
  const auto t = kAll[sym_choose(6, "type")];
  Cg4Block cg;
  auto* ch = cg.CreateChannel();
  ch->DataType(t);
  ch->DataBytes(1 + sym_choose(9, "bytes"));
  const uint32_t off = sym<uint32_t>("off");  // any offset at all
  ch->ByteOffset(off);
  const uint64_t idx = sym_choose(TIER ? 4 : 2, "idx");
  const size_t n = 1 + sym_choose(TIER ? 20 : 12, "n");
  sym_bound("record bytes", TIER ? 20 : 12);
  auto& buf = cg.SampleBuffer();
  buf.resize(n);
  sym_make(buf.data(), n, "old");
  const auto old = buf;
  if (t == ChannelDataType::FloatLe || t == ChannelDataType::FloatBe) ch->SetChannelValue(1.5, true, idx);
  else ch->SetChannelValue(sym<uint64_t>("v"), true, idx);
  const size_t bytes = ch->DataBytes(), lo = (uint64_t)off + idx * bytes;
  unsigned diff = 0;
  for (size_t i = 0; i < n; i++) {
    const bool own = (i >= lo) & (i < lo + bytes) & (lo + bytes <= n);
    diff |= (unsigned)sym_ite(own, 0, (unsigned)(buf[i] ^ old[i]));
  }
  sym_check(buf.size() == n && diff == 0, "only the channel's own bytes are written");
  if (sym_decide(lo + bytes <= n)) sym_cover("fits"); else sym_cover("outside");
}

// --- bit fields -----------------------------------------------------------
namespace {
uint64_t ref_bits(const uint8_t* p, size_t n, unsigned byte_off, unsigned bit_off, unsigned len, bool be) {
  // the field lives in the bytes [byte_off, byte_off + ceil((bit_off+len)/8))
  const unsigned nb = (bit_off + len + 7) / 8;
  unsigned __int128 acc = 0;
  for (unsigned i = 0; i < nb; i++) {
    const unsigned src = be ? byte_off + i : byte_off + nb - 1 - i;
    acc = (acc << 8) | (unsigned __int128)p[src];
  }
  acc >>= bit_off;
  if (len < 64) acc &= (((unsigned __int128)1) << len) - 1;
  return (uint64_t)acc;
}
template <bool BE, bool SIGNED> void bitfield(unsigned max_off) {
  const unsigned len = 1 + (unsigned)sym_choose(64, "len");
  const unsigned bit = (unsigned)sym_choose(8, "bit");
  const unsigned off = (unsigned)sym_choose(max_off, "off");
  const unsigned need = off + (bit + len + 7) / 8;
  Cg4Block cg;
  auto* ch = cg.CreateChannel();
  ch->DataType(SIGNED ? (BE ? ChannelDataType::SignedIntegerBe : ChannelDataType::SignedIntegerLe)
                      : (BE ? ChannelDataType::UnsignedIntegerBe : ChannelDataType::UnsignedIntegerLe));
  ch->BitCount(len);
  ch->BitOffset((uint16_t)bit);
  ch->ByteOffset(off);
  const size_t size = need + sym_choose(2, "slack");
  const std::vector<uint8_t> rec = sym_vec(size, "rec");
  const uint64_t want = ref_bits(rec.data(), size, off, bit, len, BE);
  if (SIGNED) {
    int64_t v = 0;
    const bool ok = ch->GetChannelValue(rec, v);
    sym_check(ok, "a field inside the record is readable");
    const unsigned s = 64 - len;
    sym_check(v == ((int64_t)(want << s) >> s), "signed bit field value");
    sym_trace("v", (uint64_t)v);
  } else {
    uint64_t v = 0;
    const bool ok = ch->GetChannelValue(rec, v);
    sym_check(ok, "a field inside the record is readable");
    sym_check(v == want, "unsigned bit field value");
    sym_trace("v", v);
  }
  // one byte short: refused
  std::vector<uint8_t> shorter(rec.begin(), rec.begin() + (need - 1));
  uint64_t x = 0;
  sym_check(!ch->GetChannelValue(shorter, x), "a field outside the record is refused");
}
}  // namespace
HARNESS(h_bits_le_u) { bitfield<false, false>(TIER ? 3 : 1); }
HARNESS(h_bits_be_u) { bitfield<true, false>(TIER ? 3 : 1); }
HARNESS(h_bits_le_s) { bitfield<false, true>(TIER ? 3 : 1); }
HARNESS(h_bits_be_s) { bitfield<true, true>(TIER ? 3 : 1); }

// IEEE values at any bit position
namespace {
// the bits of the double that has the value of an IEEE half
uint64_t half_bits(uint16_t h) {
  const uint64_t s = (uint64_t)(h >> 15) << 63;
  const unsigned e = (h >> 10) & 31u;
  const uint64_t m = h & 1023u;
  if (e == 31) return s | 0x7FF0000000000000ull | m << 42;
  if (e) return s | (uint64_t)(e - 15 + 1023) << 52 | m << 42;
  if (m == 0) return s;
  unsigned top = 9;
  while (!(m >> top & 1)) top--;
  return s | (uint64_t)(top - 24 + 1023) << 52 | (m & ((1u << top) - 1)) << (52 - top);
}
void float_bits(unsigned len) {
  const bool be = sym_choose(2, "be");
  const unsigned bit = TIER || len == 64 ? (unsigned)sym_choose(8, "bit") : 5 * (unsigned)sym_choose(2, "bit");
  const unsigned off = (unsigned)sym_choose(TIER ? 2 : 1, "off");
  Cg4Block cg;
  auto* ch = cg.CreateChannel();
  ch->DataType(be ? ChannelDataType::FloatBe : ChannelDataType::FloatLe);
  ch->BitCount(len);
  ch->BitOffset((uint16_t)bit);
  ch->ByteOffset(off);
  const unsigned need = off + (bit + len + 7) / 8;
  const std::vector<uint8_t> rec = sym_vec(need, "rec");
  const uint64_t want = ref_bits(rec.data(), need, off, bit, len, be);
  double v = 0;
  if (len == 16) {
    if (!TIER) {
      static const uint8_t kE[] = {0, 1, 15, 31};
      sym_assume((want >> 10 & 31) == kE[sym_choose(4, "exp")]);
      sym_bound("half exponents (quick): 0, 1, 15, 31 with every mantissa and sign", 4);
    }
    // one exponent at a time; subnormals one leading bit at a time
    if (sym_concrete(want & 0x7C00) == 0)
      for (int i = 9; i >= 0; i--) if (sym_decide((want >> i & 1) != 0)) break;
    const uint64_t hb = half_bits((uint16_t)want);
    const bool ok = ch->GetChannelValue(rec, v);
    sym_check(ok, "a float inside the record is readable");
    if ((want & 0x7C00) == 0x7C00 && (want & 0x3FF)) sym_check(v != v, "half nan");
    else sym_check(dbits(v) == hb, "half value");
  } else {
    const bool ok = ch->GetChannelValue(rec, v);
    sym_check(ok, "a float inside the record is readable");
    if (len == 64) {
      sym_check(dbits(v) == want, "double bits");
    } else {
      float f;
      uint32_t b = (uint32_t)want;
      memcpy(&f, &b, 4);
      sym_check((f != f && v != v) || v == (double)f, "float value");
    }
  }
  std::vector<uint8_t> shorter(rec.begin(), rec.begin() + (need - 1));
  double x = 0;
  sym_check(!ch->GetChannelValue(shorter, x), "a float outside the record is refused");
}
}  // namespace
HARNESS(h_half_bits) { float_bits(16); }
HARNESS(h_single_bits) { float_bits(32); }
HARNESS(h_double_bits) { float_bits(64); }

// --- reading any data type from any record stays inside it ------------------
namespace {
template <class F> void get_bounds(unsigned tlo, unsigned thi, bool any_bits, F read) {
  sym_expect("inside"); sym_expect("outside");
  const unsigned t = tlo + (unsigned)sym_choose(thi - tlo + 1, "type");
  Cg4Block cg;
  auto* ch = cg.CreateChannel();
  static const ChannelType kT[3] = {ChannelType::FixedLength, ChannelType::MaxLength, ChannelType::Sync};
  ch->Type(kT[sym_choose(3, "ct")]);
  ch->DataType((ChannelDataType)t);
  static const uint32_t kBits[] = {8, 32, 64, 0, 1, 7, 24, 33, 128, 16};
  ch->BitCount(kBits[sym_choose(any_bits ? (tlo == 4 && !TIER ? 9 : 10) : 6, "bits")]);
  ch->BitOffset((uint16_t)sym_choose(TIER ? 8 : 2, "bit") * (TIER ? 1 : 5));
  const uint32_t off = sym<uint32_t>("off");  // any offset
  ch->ByteOffset(off);
  const size_t n = sym_choose(4, "n") * 4;
  sym_bound("record bytes", 12);
  const std::vector<uint8_t> rec = sym_vec(n, "rec");
  const bool ok = read(ch, rec, sym_choose(2, "idx") * 3);
  if (off >= n && ch->BitCount() > 0) sym_check(!ok, "nothing readable behind the record");
  sym_check(true, "read stays inside the record");
  if (ok) sym_cover("inside"); else sym_cover("outside");
}
}  // namespace
HARNESS(h_get_bounds_num) {
  get_bounds(0, 3, true, [](IChannel* ch, const std::vector<uint8_t>& rec, uint64_t idx) {
    uint64_t u = 0; int64_t s = 0; 
    const bool a = ch->GetChannelValue(rec, u, idx), b = ch->GetChannelValue(rec, s, idx);
    return a || b;
  });
}
HARNESS(h_get_bounds_float) {
  get_bounds(4, 5, true, [](IChannel* ch, const std::vector<uint8_t>& rec, uint64_t idx) {
    double d = 0;
    const bool ok = ch->GetChannelValue(rec, d, idx);
    return ok;
  });
}
HARNESS(h_get_bounds_text) {
  get_bounds(6, 9, false, [](IChannel* ch, const std::vector<uint8_t>& rec, uint64_t idx) {
    std::string s;
    if (rec.size() > 8) sym_stop();
    return ch->BitCount() >= 8 && ch->GetChannelValue(rec, s, idx);
  });
}
HARNESS(h_get_bounds_bytes) {
  get_bounds(10, 16, false, [](IChannel* ch, const std::vector<uint8_t>& rec, uint64_t idx) {
    std::vector<uint8_t> b;
    return ch->BitCount() >= 8 && ch->GetChannelValue(rec, b, idx);
  });
}
// variable length values: the index and the length found there are arbitrary
namespace {
template <bool TEXT> void vlsd_bounds() {
  sym_expect("hit"); sym_expect("miss");
  const unsigned t = (TEXT ? 6 : 10) + (unsigned)sym_choose(TEXT ? 4 : 3, "type");
  Cg4Block cg;
  auto* ch = cg.CreateChannel();
  ch->Type(ChannelType::VariableLength);
  ch->DataType((ChannelDataType)t);
  ch->DataBytes(8);
  ch->BitOffset(0);
  ch->ByteOffset(0);
  const size_t n = sym_choose(TIER ? 4 : 3, "n") * 3;
  const std::vector<uint8_t> sd = sym_vec(n, "sd");
  ((Cn4Block*)ch)->data_list_ = sd;
  const std::vector<uint8_t> rec = sym_vec(8, "rec");
  uint64_t index;
  memcpy(&index, rec.data(), 8);
  const bool out = sym_decide(index > n || n - index < 4);
  size_t at = 0;
  uint32_t len = 0;
  if (!out) {
    at = (size_t)sym_concrete(index);
    for (unsigned i = 0; i < 4; i++) len |= (uint32_t)sd[at + i] << 8 * i;
    sym_assume(len <= n || len > 0x7FFFFFFFu);
    sym_bound("stored length: up to the data size, or above 2^31", n);
  }
  std::vector<uint8_t> b;
  std::string s;
  const bool ok = TEXT ? ch->GetChannelValue(rec, s) : ch->GetChannelValue(rec, b);
  if (out) {
    sym_check(!ok, "index outside the signal data is refused");
    sym_cover("miss");
    return;
  }
  if (sym_decide(len > n - at - 4)) {
    sym_check(!ok, "length outside the signal data is refused");
    sym_cover("miss");
    return;
  }
  const size_t L = (size_t)sym_concrete(len);
  if (!TEXT) sym_check(ok && b.size() == L && eqn(b.data(), sd.data() + at + 4, L), "the stored bytes are returned");
  sym_cover("hit");
}
}  // namespace
HARNESS(h_vlsd_bounds_text) { vlsd_bounds<true>(); }
HARNESS(h_vlsd_bounds_bytes) { vlsd_bounds<false>(); }

// --- invalidation bits of all channels --------------------------------------
HARNESS(h_valid_bits) {
  sym_expect("two bytes");
  const size_t nch = 1 + sym_choose(TIER ? 4 : 3, "nch");
  Cg4Block cg;
  std::vector<IChannel*> ch;
  std::vector<size_t> el;
  std::vector<bool> inv;
  size_t bits = 0;
  for (size_t i = 0; i < nch; i++) {
    auto* c = cg.CreateChannel();
    c->DataType(ChannelDataType::UnsignedIntegerLe);
    c->DataBytes(1);
    const size_t e = sym_choose(2, "el") ? 5 : 1;
    if (e > 1) c->CreateChannelArray()->Shape({e});
    const bool f = sym_choose(2, "flag");
    if (f) { c->Flags(c->Flags() | CnFlag::InvalidValid); bits += e; }
    ch.push_back(c);
    el.push_back(e);
    inv.push_back(f);
  }
  cg.PrepareForWriting();
  sym_check(cg.NofInvalidBytes() == (bits + 7) / 8, "one invalidation bit per flagged element");
  auto& buf = cg.SampleBuffer();
  sym_make(buf.data(), buf.size(), "old");
  bool want[4][5] = {};
  for (size_t i = 0; i < nch; i++)
    for (size_t k = 0; k < el[i]; k++) {
      want[i][k] = sym_bool("valid");
      ch[i]->SetChannelValue((uint64_t)(16 * i + k), want[i][k], k);
    }
  const auto rec = cg.GetSampleRecord().record_buffer;
  for (size_t i = 0; i < nch; i++)
    for (size_t k = 0; k < el[i]; k++) {
      uint64_t v = 0;
      const bool ok = ch[i]->GetChannelValue(rec, v, k);
      sym_check(v == 16 * i + k, "values independent of validity bits");
      sym_check(ok == (inv[i] ? want[i][k] : true), "every element keeps its own validity");
    }
  if (bits > 8) sym_cover("two bytes");
}

// variable length and fixed text/byte channels
HARNESS(h_bytes_roundtrip) {
  sym_expect("vlsd"); sym_expect("fixed");
  const bool text = sym_choose(2, "text"), var = sym_choose(2, "var");
  const bool inv = sym_choose(2, "inv");
  Cg4Block cg;
  auto* pre = cg.CreateChannel();
  pre->DataType(ChannelDataType::UnsignedIntegerLe);
  pre->DataBytes(1);
  auto* ch = cg.CreateChannel();
  ch->DataType(text ? ChannelDataType::StringUTF8 : ChannelDataType::ByteArray);
  if (var) ch->Type(ChannelType::VariableLength);
  else ch->DataBytes(4);
  auto* post = cg.CreateChannel();
  post->DataType(ChannelDataType::UnsignedIntegerLe);
  post->DataBytes(2);
  if (inv) ch->Flags(ch->Flags() | CnFlag::InvalidValid);
  cg.PrepareForWriting();
  auto& buf = cg.SampleBuffer();
  sym_make(buf.data(), buf.size(), "old");
  const std::vector<uint8_t> old = buf;
  // two values one after the other: each sample keeps its own
  std::vector<std::vector<uint8_t>> val(2), rec(2);
  bool valid[2];
  for (int k = 0; k < 2; k++) {
    const size_t n = sym_choose(text ? 4 : 5, "n");
    val[k] = sym_vec(n, "v");
    valid[k] = sym_bool("valid");
    if (text) {
      for (auto c : val[k]) sym_assume(c != 0);
      ch->SetChannelValue(std::string(val[k].begin(), val[k].end()), valid[k]);
    } else {
      ch->SetChannelValue(val[k], valid[k]);
    }
    rec[k] = cg.GetSampleRecord().record_buffer;
  }
  for (int k = 0; k < 2; k++) {
    bool ok;
    if (text) {
      std::string s;
      ok = ch->GetChannelValue(rec[k], s);
      sym_check(eq(std::vector<uint8_t>(s.begin(), s.end()), val[k]), "text survives");
      trace_str("s", s);
    } else {
      std::vector<uint8_t> b;
      ok = ch->GetChannelValue(rec[k], b);
      if (!var) {
        sym_check(b.size() == 4, "fixed length kept");
        std::vector<uint8_t> w = val[k];
        w.resize(4, 0);
        sym_check(eq(b, w), "bytes survive, zero padded");
      } else {
        sym_check(eq(b, val[k]), "bytes survive");
      }
    }
    sym_check(ok == (inv ? valid[k] : true), "validity survives");
    uint64_t a = 0, b2 = 0;
    pre->GetChannelValue(rec[k], a);
    pre->GetChannelValue(old, b2);
    uint64_t c = 0, d = 0;
    post->GetChannelValue(rec[k], c);
    post->GetChannelValue(old, d);
    sym_check(a == b2 && c == d, "neighbours untouched");
  }
  if (var) sym_cover("vlsd"); else sym_cover("fixed");
}
