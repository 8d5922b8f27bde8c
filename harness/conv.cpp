// Conversions: documented formulas and tables, evaluated on a conversion that went through a file.
#include "fx.h"
#include "cc3block.h"
#include "cc4block.h"
#include "cn4block.h"
#include "cg4block.h"
using namespace mdf;
using namespace mdf::detail;
namespace {
std::unique_ptr<Cc4Block> reload4(Cc4Block& cc) {
  MemFile f(std::vector<uint8_t>(64, 0));
  f.pos = 64;
  cc.Write(f);
  f.pos = (size_t)cc.FilePosition();
  auto r = std::make_unique<Cc4Block>();
  r->Read(f);
  return r;
}
std::unique_ptr<Cc3Block> reload3(Cc3Block& cc, bool be) {
  MemFile f(std::vector<uint8_t>(64, 0));
  cc.byte_order_ = be ? 1 : 0;
  cc.version_ = 330;
  f.pos = 64;
  cc.Write(f);
  f.pos = (size_t)cc.FilePosition();
  auto r = std::make_unique<Cc3Block>();
  r->byte_order_ = be ? 1 : 0;
  r->version_ = 330;
  r->Read(f);
  return r;
}
double small(const char* n) { return (double)sym_range<int8_t>(-8, 7, n); }
bool same(double a, double b) { return (dbits(a) == dbits(b)) | (a == b) | ((a != a) & (b != b)); }
// a MDF4 or MDF3 conversion of the given type with these parameters, as read from a file
std::unique_ptr<IChannelConversion> make(int ver, ConversionType t, const std::vector<double>& par) {
  if (ver == 4) {
    Cc4Block cc;
    cc.Type(t);
    for (size_t i = 0; i < par.size(); i++) cc.Parameter((uint16_t)i, par[i]);
    return reload4(cc);
  }
  Cc3Block cc;
  cc.Type(t);
  for (size_t i = 0; i < par.size(); i++) cc.Parameter((uint16_t)i, par[i]);
  return reload3(cc, ver == 2);
}
int version() { const int v[3] = {4, 3, 2}; return v[sym_choose(3, "version")]; }
}  // namespace

HARNESS(h_cc_linear) {
  sym_bound("formula", 1);
  sym_expect("identity"); sym_expect("linear");
  const int ver = version();
  if (sym_choose(2, "kind") == 0) {
    auto cc = make(ver, ConversionType::NoConversion, {});
    const double x = sym<double>("x");
    sym_assume(x == x);
    double y = 0;
    sym_check(cc->Convert(x, y) && y == x, "identity conversion keeps the value");
    const uint64_t u = sym<uint64_t>("u");
    uint64_t v = 0;
    sym_check(cc->Convert(u, v) && v == u, "identity conversion keeps the integer");
    sym_cover("identity");
    return;
  }
  const double a = sym<double>("offset"), b = sym<double>("factor"), x = sym<double>("x");
  sym_assume(a == a && b == b && x == x);
  auto cc = make(ver, ConversionType::Linear, {a, b});
  double y = 0;
  const bool ok = cc->Convert(x, y);
  sym_check(ok, "linear conversion is valid");
  sym_check(same(y, a + b * x), "linear: offset + factor * value");
  const int32_t i = sym<int32_t>("i");
  double z = 0;
  sym_check(cc->Convert((int64_t)i, z) && same(z, a + b * (double)i), "linear conversion of an integer");
  sym_cover("linear");
}

HARNESS(h_cc_rational) {
  sym_expect("value"); sym_expect("zero divisor");
  const int ver = version();
  double p[6];
  for (int i = 0; i < 6; i++) p[i] = small("p");
  const double x = small("x");
  auto cc = make(ver, ConversionType::Rational, {p[0], p[1], p[2], p[3], p[4], p[5]});
  double y = 0;
  const bool ok = cc->Convert(x, y);
  const double n = p[0] * (x * x) + p[1] * x + p[2], d = p[3] * (x * x) + p[4] * x + p[5];
  if (d == 0.0) {
    sym_check(!ok, "division by zero is reported invalid");
    sym_cover("zero divisor");
  } else {
    sym_check(ok && same(y, n / d), "rational: (p0 x^2 + p1 x + p2) / (p3 x^2 + p4 x + p5)");
    sym_cover("value");
  }
}
HARNESS(h_cc_polynomial) {
  sym_expect("value"); sym_expect("zero divisor");
  const bool be = sym_choose(2, "be") != 0;
  double p[6];
  for (int i = 0; i < 6; i++) p[i] = small("p");
  const double x = small("x");
  auto cc = make(be ? 2 : 3, ConversionType::Polynomial, {p[0], p[1], p[2], p[3], p[4], p[5]});
  double y = 0;
  const bool ok = cc->Convert(x, y);
  const double t = x - p[4] - p[5];
  const double n = p[1] - p[3] * t, d = p[2] * t - p[0];
  if (d == 0.0) {
    sym_check(!ok, "division by zero is reported invalid");
    sym_cover("zero divisor");
  } else {
    sym_check(ok && same(y, n / d), "polynomial: (p2 - p4 (x - p5 - p6)) / (p3 (x - p5 - p6) - p1)");
    sym_cover("value");
  }
}

namespace {
const int kKeys[4][4] = {{-4, 0, 4, 20}, {1, 2, 3, 4}, {-7, -2, 6, 7}, {0, 16, 24, 32}};
}
// Key tables: any number of pairs 1..4, ascending keys, arbitrary values.
static void table(const bool interp) {
  sym_expect("below"); sym_expect("above"); sym_expect("hit"); sym_expect("between");
  const int ver = version();
  const size_t n = 1 + sym_choose(TIER ? 4 : 3, "pairs");
  const int* k = kKeys[sym_choose(4, "keys")];
  std::vector<double> par, val;
  for (size_t i = 0; i < n; i++) {
    double v;
    if (interp) v = 32.0 * small("v");
    else { v = sym<double>("v"); sym_assume(v == v); }
    val.push_back(v);
    par.push_back((double)k[i]);
    par.push_back(v);
  }
  // in quarters: exact for every spacing that is a power of two
  const int q = sym_range<int16_t>(-40, 140, "x");
  const double x = (double)q / 4.0;
  auto cc = make(ver, interp ? ConversionType::ValueToValueInterpolation : ConversionType::ValueToValue, par);
  double y = 0;
  const bool ok = cc->Convert(x, y);
  sym_check(ok, "table conversion is valid");
  if (q <= 4 * k[0]) {
    sym_check(same(y, val[0]), "first value at or below the first key");
    sym_cover("below");
    return;
  }
  for (size_t i = 0; i + 1 < n; i++) {
    if (q == 4 * k[i + 1]) {
      sym_check(same(y, val[i + 1]), "value at a key");
      sym_cover("hit");
      return;
    }
    if (q < 4 * k[i + 1]) {
      const int r = k[i + 1] - k[i], o = q - 4 * k[i];
      if (interp) {
        if ((r & (r - 1)) == 0)
          sym_check(same(y, val[i] + (x - (double)k[i]) / (double)r * (val[i + 1] - val[i])), "linear interpolation between the keys");
      } else {
        sym_check(dbits(y) == (2 * o <= 4 * r ? dbits(val[i]) : dbits(val[i + 1])), "value of the nearest key");
      }
      sym_cover("between");
      return;
    }
  }
  sym_check(same(y, val[n - 1]), "last value at or above the last key");
  sym_cover("above");
}
HARNESS(h_cc_interpolate) { table(true); }
HARNESS(h_cc_nearest) { table(false); }

HARNESS(h_cc_range) {
  sym_expect("hit"); sym_expect("default"); sym_expect("float");
  const size_t n = 1 + sym_choose(3, "ranges");
  const bool flt = sym_choose(2, "float") != 0;
  std::vector<double> par, lo, hi, val;
  for (size_t i = 0; i < n; i++) {
    const double a = small("lo"), b = small("hi"), v = sym<double>("v");
    sym_assume(a <= b);
    sym_assume(v == v);
    lo.push_back(a); hi.push_back(b); val.push_back(v);
    par.push_back(a); par.push_back(b); par.push_back(v);
  }
  const double dflt = sym<double>("default");
  sym_assume(dflt == dflt);
  par.push_back(dflt);
  auto cc = make(4, ConversionType::ValueRangeToValue, par);
  cc->ChannelDataType(static_cast<uint8_t>(flt ? ChannelDataType::FloatLe : ChannelDataType::SignedIntegerLe));
  const double x = flt ? (double)sym_range<int8_t>(-40, 40, "x") / 4.0 : small("x");
  double y = 0;
  sym_check(cc->Convert(x, y), "range conversion is valid");
  double want = dflt;
  bool hit = false;
  for (size_t i = 0; i < n; i++) {
    if (!hit && x >= lo[i] && (flt ? x < hi[i] : x <= hi[i])) { want = val[i]; hit = true; }
  }
  sym_check(same(y, want), "value of the first range containing the channel value, else the default");
  sym_cover(hit ? "hit" : "default");
  if (flt) sym_cover("float");
}

namespace {
std::string letter(const char* n) { return std::string(1, (char)sym_range<uint8_t>('a', 'e', n)); }
}
HARNESS(h_cc_value_text) {
  sym_expect("hit"); sym_expect("default"); sym_expect("range");
  const bool range = sym_choose(2, "range") != 0;
  const bool flt = range && sym_choose(2, "float") != 0;
  const size_t n = 1 + sym_choose(3, "entries");
  Cc4Block cc;
  cc.Type(range ? ConversionType::ValueRangeToText : ConversionType::ValueToText);
  std::vector<double> lo, hi;
  for (size_t i = 0; i < n; i++) {
    const double a = small("lo"), b = range ? small("hi") : a;
    sym_assume(a <= b);
    lo.push_back(a); hi.push_back(b);
    if (range) { cc.Parameter((uint16_t)(2 * i), a); cc.Parameter((uint16_t)(2 * i + 1), b); }
    else cc.Parameter((uint16_t)i, a);
    cc.Reference((uint16_t)i, std::string("text") + (char)('0' + i));
  }
  const bool has_default = sym_choose(2, "default") != 0;
  if (has_default) cc.Reference((uint16_t)n, "other");
  auto r = reload4(cc);
  r->ChannelDataType(static_cast<uint8_t>(flt ? ChannelDataType::FloatLe : ChannelDataType::SignedIntegerLe));
  const double x = small("x");
  std::string y;
  const bool ok = r->Convert(x, y);
  size_t want = n;
  for (size_t i = 0; i < n; i++) {
    if (x >= lo[i] && (flt ? x < hi[i] : x <= hi[i])) { want = i; break; }
  }
  if (want < n) {
    sym_check(ok && y == std::string("text") + (char)('0' + want), "text of the matching entry");
    sym_cover("hit");
  } else if (has_default) {
    sym_check(ok && y == "other", "default text when nothing matches");
    sym_cover("default");
  }
  if (range) sym_cover("range");
}
HARNESS(h_cc_text) {
  sym_expect("hit"); sym_expect("default"); sym_expect("translate"); sym_expect("value");
  const bool trans = sym_choose(2, "translate") != 0;
  const size_t n = 1 + sym_choose(2, "entries");
  Cc4Block cc;
  cc.Type(trans ? ConversionType::TextToTranslation : ConversionType::TextToValue);
  const char* keys[2] = {"on", "off"};
  double val[3];
  for (size_t i = 0; i <= n; i++) {
    val[i] = sym<double>("v");
    sym_assume(val[i] == val[i]);
    if (!trans) cc.Parameter((uint16_t)i, val[i]);
  }
  for (size_t i = 0; i < n; i++) {
    if (trans) {
      cc.Reference((uint16_t)(2 * i), keys[i]);
      cc.Reference((uint16_t)(2 * i + 1), std::string("text") + (char)('0' + i));
    } else {
      cc.Reference((uint16_t)i, keys[i]);
    }
  }
  if (trans) cc.Reference((uint16_t)(2 * n), "other");
  auto r = reload4(cc);
  const size_t len = 1 + sym_choose(3, "length");
  std::string in;
  for (size_t i = 0; i < len; i++) in.push_back((char)sym<uint8_t>("c"));
  size_t want = n;
  for (size_t i = 0; i < n; i++) if (in == keys[i]) { want = i; break; }
  if (trans) {
    std::string out;
    const bool ok = r->Convert(in, out);
    sym_check(ok && out == (want < n ? std::string("text") + (char)('0' + want) : std::string("other")), "translation of a text");
    sym_cover("translate");
  } else {
    double out = 0;
    const bool ok = r->Convert(in, out);
    sym_check(ok && same(out, val[want]), "value of a text");
    sym_cover("value");
  }
  sym_cover(want < n ? "hit" : "default");
}
// MDF3 text tables as stored in a file
HARNESS(h_cc3_text) {
  sym_expect("table"); sym_expect("range"); sym_expect("hit"); sym_expect("default");
  const bool be = sym_choose(2, "be") != 0;
  const bool range = sym_choose(2, "range") != 0;
  const bool flt = sym_choose(2, "float") != 0;
  const size_t n = 1 + sym_choose(2, "entries");
  Cc3Block cc;
  cc.Type(range ? ConversionType::ValueRangeToText : ConversionType::ValueToText);
  std::vector<double> lo, hi;
  if (range) {
    TextRangeConversion d;
    d.text = "other";
    cc.text_range_conversion_list_.push_back(d);
  }
  for (size_t i = 0; i < n; i++) {
    const double a = small("lo"), b = range ? small("hi") : a;
    sym_assume(a <= b);
    lo.push_back(a); hi.push_back(b);
    const std::string t = std::string("text") + (char)('0' + i);
    if (range) {
      TextRangeConversion d;
      d.lower = a; d.upper = b; d.text = t;
      cc.text_range_conversion_list_.push_back(d);
    } else {
      TextConversion d;
      d.value = a; d.text = t;
      cc.text_conversion_list_.push_back(d);
    }
  }
  auto r = reload3(cc, be);
  r->ChannelDataType(static_cast<uint8_t>(flt ? ChannelDataType::FloatLe : ChannelDataType::SignedIntegerLe));
  const double x = small("x");
  std::string y;
  const bool ok = r->Convert(x, y);
  size_t want = n;
  for (size_t i = 0; i < n; i++)
    if (range ? (x >= lo[i] && (flt ? x < hi[i] : x <= hi[i])) : x == lo[i]) { want = i; break; }
  if (want < n) {
    sym_check(ok && y == std::string("text") + (char)('0' + want), "text of the matching entry");
    sym_cover("hit");
  } else if (range) {
    sym_check(ok && y == "other", "default text when nothing matches");
    sym_cover("default");
  }
  sym_cover(range ? "range" : "table");
}
// A copied conversion converts like its source.
HARNESS(h_cc_copy) {
  sym_expect("text"); sym_expect("value"); sym_expect("from file"); sym_expect("fresh");
  const bool text = sym_choose(2, "text") != 0;
  const bool from_file = sym_choose(2, "from_file") != 0;
  Cc4Block cc;
  cc.Type(text ? ConversionType::ValueToText : ConversionType::Linear);
  const double a = small("a"), b = small("b");
  cc.Parameter(0, a);
  cc.Parameter(1, b);
  if (text) { cc.Reference(0, "first"); cc.Reference(1, "second"); cc.Reference(2, "other"); }
  std::unique_ptr<Cc4Block> keep;
  Cc4Block* src = &cc;
  if (from_file) { keep = reload4(cc); src = keep.get(); }
  Cc4Block dst;
  dst.CopyFrom(*src);
  auto r = reload4(dst);
  const double x = small("x");
  if (text) {
    std::string y;
    const bool ok = r->Convert(x, y);
    sym_check(ok && y == (x == a ? "first" : x == b ? "second" : "other"), "copied text conversion");
    sym_cover("text");
  } else {
    double y = 0;
    const bool ok = r->Convert(x, y);
    sym_check(ok && y == a + b * x, "copied linear conversion");
    sym_cover("value");
  }
  sym_cover(from_file ? "from file" : "fresh");
}
