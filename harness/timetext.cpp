// Times and texts in their different representations.
#include "raw.h"
#include "mdf/itimestamp.h"
#include "mdf/mdfhelper.h"
#include <ctime>
namespace {
void digits(std::string& s, unsigned v, int n) {
  char b[16];
  for (int i = n - 1; i >= 0; i--) { b[i] = (char)('0' + v % 10); v /= 10; }
  s.append(b, n);
}
// n digits whose value is below `lim`
int64_t number(std::string& s, int n, int64_t lo, int64_t hi, const char* name) {
  int64_t v = 0;
  for (int i = 0; i < n; i++) {
    const uint8_t c = sym<uint8_t>(name);
    sym_assume(c >= '0' && c <= '9');
    s.push_back((char)c);
    v = v * 10 + (c - '0');
  }
  sym_assume(v >= lo && v <= hi);
  return v;
}
int64_t seconds(int64_t y, int64_t mo, int64_t d, int64_t h, int64_t mi, int64_t s) {
  struct tm t;
  memset(&t, 0, sizeof t);
  t.tm_year = (int)y - 1900; t.tm_mon = (int)mo - 1; t.tm_mday = (int)d; t.tm_hour = (int)h; t.tm_min = (int)mi; t.tm_sec = (int)s;
  return timegm(&t);
}
}  // namespace
// every date in the extended and the basic format
HARNESS(h_iso_date) {
  sym_expect("done");
  const bool basic = sym_choose(2, "basic") != 0;
  std::string s;
  const int64_t y = number(s, 4, 1970, 2400, "year");
  if (!basic) s += '-';
  const int64_t m = 1 + (int64_t)sym_choose(12, "month");
  digits(s, (unsigned)m, 2);
  if (!basic) s += '-';
  const int64_t d = number(s, 2, 1, 31, "day");
  const size_t tail = sym_choose(3, "time of day");
  if (tail == 0) s += basic ? "T020304Z" : "T02:03:04Z";
  if (tail == 1) s += basic ? " 0203" : " 02:03";
  UtcTimestamp t(s);
  sym_check(t.GetUtcTimeNs() == (uint64_t)seconds(y, m, d, tail < 2 ? 2 : 0, tail < 2 ? 3 : 0, tail == 0 ? 4 : 0) * kSec, "time of a date text");
  sym_cover("done");
}
// every time of day, fraction and zone
HARNESS(h_iso_time) {
  sym_expect("done");
  const bool basic = sym_choose(2, "basic") != 0;
  std::string s = basic ? "20240229T" : "2024-02-29T";
  const int64_t h = number(s, 2, 0, 23, "hour");
  if (!basic) s += ':';
  const int64_t m = number(s, 2, 0, 59, "minute");
  const bool ws = sym_choose(2, "with seconds") != 0;
  int64_t sec = 0;
  if (ws) {
    if (!basic) s += ':';
    sec = number(s, 2, 0, 59, "second");
  }
  const int nf = ws ? (int)sym_choose(10, "fraction digits") : 0;
  uint64_t frac = 0;
  if (nf) {
    s += '.';
    frac = (uint64_t)number(s, nf, 0, 999999999, "fraction");
    for (int i = nf; i < 9; i++) frac *= 10;
  }
  int64_t off = 0;
  const size_t zone = sym_choose(7, "zone");   // none Z +hh +hh:mm -hh -hh:mm
  if (zone == 1) s += 'Z';
  if (zone > 1) {
    const bool neg = zone == 3 || zone == 5;
    s += neg ? '-' : '+';
    off = number(s, 2, 0, 14, "zone hour") * 60;
    if (zone >= 4) { if (zone != 6) s += ':'; off += number(s, 2, 0, 59, "zone minute"); }
    if (neg) off = -off;
  }
  UtcTimestamp t(s);
  sym_check(t.GetUtcTimeNs() == (uint64_t)(seconds(2024, 2, 29, h, m, sec) - off * 60) * kSec + frac, "time of a time text");
  sym_cover("done");
}
// the text of a time is the text of that time
HARNESS(h_iso_text) {
  sym_expect("done");
  static const uint32_t kDay[] = {0, 59, 365, 11016, 19782, 19783, 47540, 100000};
  const uint32_t day = kDay[sym_choose(8, "day")];
  const uint32_t h = (uint32_t)sym_choose(3, "hour") * 11 + 1, sod = h * 3600 + sym_range<uint16_t>(0, 3599, "second of the hour");
  const uint32_t ms = sym_range<uint16_t>(0, 999, "ms"), ns = sym_range<uint32_t>(0, 999999, "ns");
  UtcTimestamp t((day * 86400ull + sod) * kSec + ms * 1000000ull + ns);
  const bool with = sym_choose(2, "with ms") != 0;
  const std::string a = t.ToIsoDateTime(with), d = t.ToIsoDate(), c = t.ToIsoTime(with);
  struct tm b;
  const time_t tt = (time_t)day * 86400;
  gmtime_r(&tt, &b);
  std::string want;
  digits(want, (unsigned)b.tm_year + 1900, 4); want += '-'; digits(want, (unsigned)b.tm_mon + 1, 2); want += '-'; digits(want, (unsigned)b.tm_mday, 2);
  sym_check(d == want + "Z", "text of a date");
  std::string w2;
  digits(w2, h, 2); w2 += ':'; digits(w2, (sod / 60) % 60, 2); w2 += ':'; digits(w2, sod % 60, 2);
  if (with && ms > 0) { w2 += '.'; digits(w2, ms, 3); }
  sym_check(c == w2 + "Z", "text of a time");
  sym_check(a == want + "T" + w2 + "Z", "text of a date and time");
  sym_cover("done");
}
// CANopen date and time: milliseconds survive
HARNESS(h_canopen_time) {
  sym_expect("done");
  const uint32_t ms = sym_range<uint32_t>(0, 86399999, "ms");
  const uint16_t day = sym<uint16_t>("day");
  Bytes a;
  le(a, ms, 4); le(a, day, 2);
  const uint64_t ns = MdfHelper::CanOpenTimeArrayToNs(a);
  sym_check(ns == ((5113ull + day) * 86400000ull + ms) * 1000000ull, "time of a CANopen time");
  sym_cover("done");
}
HARNESS(h_canopen_time_back) {
  sym_expect("done");
  static const uint16_t kDay[] = {0, 1, 365, 14000, 14610, 65535};
  const uint32_t ms = (uint32_t)sym_choose(3, "hour") * 11 * 3600000u + sym_range<uint32_t>(0, 3599999, "ms");
  const uint16_t day = kDay[sym_choose(6, "day")];
  Bytes a;
  le(a, ms, 4); le(a, day, 2);
  const Bytes b = MdfHelper::NsToCanOpenTimeArray(((5113ull + day) * 86400000ull + ms) * 1000000ull);
  sym_check(b == a, "CANopen time of a time");
  sym_cover("done");
}
HARNESS(h_canopen_date) {
  sym_expect("done");
  const uint16_t ms = sym_range<uint16_t>(0, 59999, "ms");
  const uint8_t mi = sym<uint8_t>("minute") & 0x3f, h = sym<uint8_t>("hour") & 0x1f, d = sym<uint8_t>("day") & 0x1f, mo = (uint8_t)sym_choose(12, "month") + 1, y = sym<uint8_t>("year") & 0x7f, wd = sym<uint8_t>("week day") & 7;
  sym_assume(mi < 60 && h < 24 && d > 0 && d < 29 && y < 100 && wd > 0);
  Bytes a;
  le(a, ms, 2);
  a.push_back(mi); a.push_back(h); a.push_back((uint8_t)(d | wd << 5)); a.push_back(mo); a.push_back(y);
  const uint64_t ns = MdfHelper::CanOpenDateArrayToNs(a);
  sym_check(ns == (uint64_t)seconds(1900u + (y >= 70 ? y : 100u + y), mo, d, h, mi, 0) * kSec + ms * 1000000ull, "time of a CANopen date");
  sym_cover("done");
}
HARNESS(h_canopen_date_back) {
  sym_expect("done");
  static const uint32_t kDay[] = {0, 59, 365, 11016, 19782, 19783, 29219};
  const uint32_t day = kDay[sym_choose(7, "day")];
  const uint32_t h = (uint32_t)sym_choose(3, "hour") * 11 + 1, mi = (uint32_t)sym_choose(3, "minute") * 29, ms = sym_range<uint16_t>(0, 59999, "ms");
  struct tm b;
  const time_t tt = (time_t)day * 86400;
  gmtime_r(&tt, &b);
  const Bytes a = MdfHelper::NsToCanOpenDateArray(((day * 24ull + h) * 60 + mi) * 60 * kSec + ms * 1000000ull);
  Bytes w;
  le(w, ms, 2);
  w.push_back((uint8_t)mi); w.push_back((uint8_t)h); w.push_back((uint8_t)(b.tm_mday | (b.tm_wday ? b.tm_wday : 7) << 5)); w.push_back((uint8_t)(b.tm_mon + 1)); w.push_back((uint8_t)(b.tm_year % 100));
  sym_check(a == w, "CANopen date of a time");
  sym_cover("done");
}
// ---- texts
namespace {
void utf8(std::string& s, uint32_t c) {
  if (c < 0x80) s.push_back((char)c);
  else if (c < 0x800) { s.push_back((char)(0xc0 | c >> 6)); s.push_back((char)(0x80 | (c & 0x3f))); }
  else if (c < 0x10000) { s.push_back((char)(0xe0 | c >> 12)); s.push_back((char)(0x80 | ((c >> 6) & 0x3f))); s.push_back((char)(0x80 | (c & 0x3f))); }
  else { s.push_back((char)(0xf0 | c >> 18)); s.push_back((char)(0x80 | ((c >> 12) & 0x3f))); s.push_back((char)(0x80 | ((c >> 6) & 0x3f))); s.push_back((char)(0x80 | (c & 0x3f))); }
}
// the text that `b` holds in encoding 6 Latin-1, 7 UTF-8, 8 UTF-16 LE, 9 UTF-16 BE; nothing when it holds none
bool text_of(const Bytes& b, int enc, std::string& out) {
  if (enc < 8) {
    for (auto c : b) {
      if (c == 0) break;
      if (enc == 6) utf8(out, c); else out.push_back((char)c);
    }
    return true;
  }
  for (size_t i = 0; i + 2 <= b.size(); i += 2) {
    const uint32_t u = enc == 8 ? b[i] | (uint32_t)b[i + 1] << 8 : b[i + 1] | (uint32_t)b[i] << 8;
    if (u == 0) break;
    if (u >= 0xd800 && u < 0xdc00) {
      if (i + 4 > b.size()) return false;
      const uint32_t v = enc == 8 ? b[i + 2] | (uint32_t)b[i + 3] << 8 : b[i + 3] | (uint32_t)b[i + 2] << 8;
      if (v < 0xdc00 || v > 0xdfff) return false;
      utf8(out, 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00));
      i += 2;
    } else if (u >= 0xdc00 && u < 0xe000) return false;
    else utf8(out, u);
  }
  return true;
}
void text_file(int enc, const Bytes& b, int where) {   // where: 0 in the record, 1 signal data, 2 group of its own
  Raw f;
  const uint32_t n = where ? 8 : (uint32_t)b.size();
  const auto hd = f.header(), dg = f.dg(where == 2 ? 1 : 0), cg = f.cg(where == 2 ? 1 : 0, 1, 0, n + 1);
  const auto x = f.cn("x", where ? 1 : 0, 0, enc, 0, 8 * n), y = f.cn("y", 0, 0, 0, n, 8);
  f.link(hd, 0, dg); f.link(hd, 1, f.fh()); f.link(dg, 1, cg); f.link(cg, 1, x); f.link(x, 0, y);
  Bytes s, sd;
  le(sd, b.size(), 4); cat(sd, b);
  if (where == 2) s.push_back(1);
  if (where) le(s, 0, 8); else cat(s, b);
  s.push_back(0x41);
  if (where == 1) f.link(x, 5, f.data("SD", sd, 0));
  if (where == 2) { const auto c2 = f.cg(2, 1, 1, (uint32_t)b.size()); f.link(cg, 0, c2); f.link(x, 5, c2); s.push_back(2); cat(s, sd); }
  f.link(dg, 2, f.data("DT", s, 0));
  std::string want;
  const bool ok = text_of(b, enc, want);
  MdfReader r(f.file());
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* d = r.GetDataGroup(0);
  auto o = observe(d, 0, "x");
  sym_check(o && r.ReadData(*d), "the data can be read");
  std::string got, eng;
  const bool v = o->GetChannelValue(0, got), e = o->GetEngValue(0, eng);
  if (!ok) sym_stop();
  sym_check(v && got == want, "text of the channel");
  sym_check(e && eng == want, "engineering text of the channel");
  sym_cover("done");
}
}  // namespace
HARNESS(h_text_bytes) {
  sym_expect("done");
  const int enc = 6 + (int)sym_choose(2, "encoding");
  const size_t n = 1 + sym_choose(6, "length");
  text_file(enc, sym_vec(n, "text"), (int)sym_choose(3, "place"));
}
HARNESS(h_text_utf16) {
  sym_expect("done");
  const int enc = 8 + (int)sym_choose(2, "encoding");
  const size_t n = 1 + sym_choose(3, "length");
  text_file(enc, sym_vec(2 * n, "text"), (int)sym_choose(3, "place"));
}
// narrow and wide texts
HARNESS(h_wide) {
  sym_expect("done");
  const size_t n = 1 + sym_choose(3, "length");
  std::string s;
  std::wstring w;
  for (size_t i = 0; i < n; i++) {
    const uint32_t c = sym<uint32_t>("character");
    sym_assume(c > 0 && c < 0x110000 && (c < 0xd800 || c > 0xdfff));
    utf8(s, c);
    w.push_back((wchar_t)c);
  }
  sym_check(MdfHelper::Utf16ToUtf8(w) == s, "wide to UTF-8");
  sym_check(MdfHelper::Utf8ToUtf16(s) == w, "UTF-8 to wide");
  sym_cover("done");
}
