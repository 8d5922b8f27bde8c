// Damaged and truncated files: the reader ends, with a result or an error, and touches no memory it does not own.
#include "raw.h"
#include "mdf/isamplereduction.h"
#include "mdf/ichannelconversion.h"
#include "mdf/isourceinformation.h"
#include "mdf/iattachment.h"
#include "mdf/ievent.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ifilehistory.h"
#include "mdf/imetadata.h"
#include "mdf/isampleobserver.h"
#include "mdf/samplerecord.h"
namespace {
// a position inside the file is explored one by one, positions behind its end stay symbolic
class RFile : public MemFile {
 public:
  explicit RFile(const Bytes& b) : MemFile(b) {}
  pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode m) override {
    const pos_type p = MemFile::seekoff(o, w, m);
    if (sym_is_symbolic(pos) && sym_decide(pos <= d.size())) pos = sym_concrete(pos);
    return p;
  }
};
void read_file(const std::shared_ptr<std::streambuf>& file) {
  MdfReader r(file);
  if (!r.IsOk()) { sym_cover("refused"); return; }
  const bool ok = r.ReadEverythingButData();
  const auto* hd = r.GetHeader();
  if (hd != nullptr) {
    (void)hd->Description(); (void)hd->StartTime();
    if (auto* md = hd->MetaData()) (void)md->StringProperty("TX");
    for (auto* a : hd->Attachments()) if (a) { (void)a->FileName(); (void)a->FileType(); }
    for (auto* e : hd->Events()) if (e) { (void)e->Name(); (void)e->Description(); }
    for (auto* c : hd->ChannelHierarchies()) if (c) { (void)c->Name(); (void)c->ElementLinks(); }
    for (auto* h : hd->FileHistories()) if (h) (void)h->Description();
    for (auto* dg : hd->DataGroups()) {
      if (!dg) continue;
      ChannelObserverList obs;
      std::vector<IChannelGroup*> of;
      for (auto* cg : dg->ChannelGroups()) {
        if (!cg) continue;
        (void)cg->Name();
        if (auto* s = cg->SourceInformation()) (void)s->Name();
        for (auto* c : cg->Channels()) {
          if (!c) continue;
          (void)c->Unit(); (void)c->Description();
          if (auto* k = c->ChannelConversion()) (void)k->Unit();
          if (auto* s = c->SourceInformation()) (void)s->Name();
          if (!sym_decide(cg->NofSamples() <= 8) || !sym_decide(c->ArraySize() <= 8)) continue;  // an observer holds all samples
          auto o = CreateChannelObserver(*dg, *cg, *c);
          if (!o) continue;
          obs.push_back(std::move(o));
          of.push_back(cg);
        }
      }
      ISampleObserver any(*dg);
      any.DoOnSample = [](uint64_t, uint64_t, const std::vector<uint8_t>&) { return true; };
      if (obs.empty()) any.AttachObserver();
      r.ReadData(*dg);
      for (auto& o : obs) {
        const uint64_t n = o->NofSamples();
        for (uint64_t i = 0; i < 3; i++) {
          if (sym_decide(i > n)) break;
          double v = 0; std::string t; std::vector<uint8_t> b;
          double e = 0;
          (void)o->GetChannelValue(i, v); (void)o->GetEngValue(i, e);
          if (!sym_is_symbolic(dbits(v)) && !sym_is_symbolic(dbits(e))) { (void)o->GetChannelValue(i, t); (void)o->GetEngValue(i, t); }
          (void)o->GetChannelValue(i, b);
        }
      }
      r.ReadPartialData(*dg, 1, 1);
    }
  }
  sym_cover(ok ? "read" : "failed");
}
void read_all(const std::shared_ptr<std::streambuf>& file) {
  bool thrown = false;
  try { read_file(file); } catch (...) { thrown = true; }
  sym_check(!thrown, "no exception leaves the reader");
}
// ---- files
Raw structure() {
  Raw f;
  const auto hd = f.header();
  const auto fh = f.fh(), dg = f.dg(0), cg = f.cg(0, 2, 0, 3), x = f.cn("x", 0, 0, 0, 0, 8), y = f.cn("y", 0, 0, 0, 1, 16);
  f.link(hd, 0, dg); f.link(hd, 1, fh); f.link(dg, 1, cg); f.link(cg, 1, x); f.link(x, 0, y);
  // value range to text conversion
  Bytes b; b.push_back(8); b.push_back(0); le(b, 0, 2); le(b, 2, 2); le(b, 2, 2); le(b, 0, 8); le(b, 0, 8);
  le(b, dbits(0), 8); le(b, dbits(1), 8);
  const auto t1 = f.text("lo");
  const auto cc = f.block("CC", {0, 0, 0, 0, t1, 0}, b);
  f.link(y, 4, cc);
  Bytes s; s.push_back(1); s.push_back(2); s.push_back(0); s.resize(8, 0);
  const auto si = f.block("SI", {f.text("src"), 0, 0}, s);
  f.link(x, 3, si);
  f.link(cg, 3, si);
  f.link(dg, 2, f.data("DT", {1, 2, 3, 4, 5, 6}, 0));
  return f;
}
Raw extras() {
  Raw f;
  const auto hd = f.header(), fh = f.fh(), dg = f.dg(0), cg = f.cg(0, 1, 0, 1), x = f.cn("x", 0, 0, 0, 0, 8);
  f.link(hd, 0, dg); f.link(hd, 1, fh); f.link(dg, 1, cg); f.link(cg, 1, x);
  f.link(dg, 2, f.data("DT", {1}, 0));
  const char* xml = "<HDcomment><TX>a</TX></HDcomment>";
  Bytes m(xml, xml + strlen(xml) + 1); while (m.size() % 8) m.push_back(0);
  f.link(hd, 5, f.block("MD", {}, m));
  Bytes a; le(a, 1, 2); le(a, 0, 2); le(a, 0, 4); a.resize(24, 0); le(a, 2, 8); le(a, 2, 8); a.push_back('d'); a.push_back('e');
  f.link(hd, 3, f.block("AT", {0, f.text("f.txt"), 0, 0}, a));
  Bytes e; e.push_back(2); e.push_back(1); e.push_back(0); e.push_back(0); e.push_back(0); e.push_back(0); e.push_back(0); e.push_back(0);
  le(e, 1, 4); le(e, 0, 2); le(e, 0, 2); le(e, 5, 8); le(e, dbits(1), 8);
  f.link(hd, 4, f.block("EV", {0, 0, 0, f.text("ev"), 0, cg}, e));
  Bytes c; le(c, 1, 4); c.push_back(0); c.resize(8, 0);
  f.link(hd, 2, f.block("CH", {0, 0, f.text("ch"), 0, dg, cg, x}, c));
  return f;
}
Raw fragmented(int kind) {
  Raw f;
  const auto hd = f.header(), dg = f.dg(1), cg0 = f.cg(1, 2, 0, 1), cg1 = f.cg(2, 2, 0, 2), x = f.cn("x", 0, 0, 0, 0, 8), y = f.cn("y", 0, 0, 0, 0, 16);
  f.link(hd, 0, dg); f.link(dg, 1, cg0); f.link(cg0, 0, cg1); f.link(cg0, 1, x); f.link(cg1, 1, y); f.link(hd, 1, f.fh());
  const Bytes s = {1, 10, 2, 11, 12, 1, 20, 2, 21, 22};
  const auto p0 = f.data("DT", sub(s, 0, 4), kind, 2), p1 = f.data("DT", sub(s, 4, 10), 0);
  f.link(dg, 2, kind ? f.hl(f.dl({p0}, {0}, f.dl({p1}, {4}))) : f.dl({p0, p1}, {0, 4}));
  return f;
}
Raw signal(bool group) {
  Raw f;
  Bytes sd; le(sd, 1, 4); sd.push_back('a'); le(sd, 2, 4); sd.push_back('b'); sd.push_back('c');
  const auto hd = f.header(), dg = f.dg(group ? 1 : 0), cg = f.cg(1, 2, 0, 8), x = f.cn("x", 1, 0, 7, 0, 64);
  f.link(hd, 0, dg); f.link(dg, 1, cg); f.link(cg, 1, x); f.link(hd, 1, f.fh());
  Bytes s;
  if (group) {
    const auto vl = f.cg(2, 2, 1, 3);
    f.link(cg, 0, vl); f.link(x, 5, vl);
    s.push_back(2); cat(s, sub(sd, 0, 5)); s.push_back(1); le(s, 0, 8); s.push_back(2); cat(s, sub(sd, 5, 11)); s.push_back(1); le(s, 5, 8);
  } else {
    f.link(x, 5, f.data("SD", sd, 0));
    le(s, 0, 8); le(s, 5, 8);
  }
  f.link(dg, 2, f.data("DT", s, 0));
  return f;
}
Raw arrays() {
  Raw f;
  const auto hd = f.header(), fh = f.fh(), dg = f.dg(0), cg = f.cg(0, 2, 0, 6), x = f.cn("x", 0, 0, 0, 0, 8), y = f.cn("y", 0, 0, 0, 4, 8);
  f.link(hd, 0, dg); f.link(hd, 1, fh); f.link(dg, 1, cg); f.link(cg, 1, x); f.link(x, 0, y);
  // 2 x 2 values with fixed axes; 2 values with axes of their own channels
  Bytes a; a.push_back(0); a.push_back(0); le(a, 2, 2); le(a, 0x20, 4); le(a, 1, 4); le(a, 0, 4); le(a, 2, 8); le(a, 2, 8);
  for (int i = 0; i < 4; i++) le(a, dbits(i), 8);
  f.link(x, 1, f.block("CA", {0}, a));
  Bytes b; b.push_back(2); b.push_back(0); le(b, 1, 2); le(b, 0x10, 4); le(b, 1, 4); le(b, 0, 4); le(b, 2, 8);
  f.link(y, 1, f.block("CA", {0, 0, dg, cg, x}, b));
  f.link(dg, 2, f.data("DT", {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, 0));
  return f;
}
// one channel with a conversion of the kind; 7 and 8 texts as values, 9 and 10 texts as input
Raw conversion(unsigned kind, uint64_t& cc) {
  Raw f;
  const bool text = kind == 9 || kind == 10;
  const auto hd = f.header(), fh = f.fh(), dg = f.dg(0), cg = f.cg(0, 3, 0, 1), x = f.cn("x", 0, 0, text ? 7 : 0, 0, 8);
  f.link(hd, 0, dg); f.link(hd, 1, fh); f.link(dg, 1, cg); f.link(cg, 1, x);
  f.link(dg, 2, f.data("DT", {'1', '2', '7'}, 0));
  std::vector<double> v;
  size_t refs = 0;
  switch (kind) {
    case 1: v = {1, 2}; break;                             // linear
    case 2: v = {0, 1, 2, 0, 0, 1}; break;                 // rational
    case 4: case 5: v = {49, 1, 51, 2}; break;             // tables
    case 6: v = {48, 49, 1, 50, 51, 2, 9}; break;          // range table
    case 7: v = {49, 50}; refs = 3; break;                 // value to text
    case 8: v = {48, 49, 50, 51}; refs = 3; break;         // range to text
    case 9: v = {1, 2, 3}; refs = 2; break;                // text to value
    case 10: refs = 3; break;                              // text to text
    default: refs = 2; v = {0, 0}; break;                  // bit field
  }
  std::vector<uint64_t> links = {0, 0, 0, 0};
  const char* name[] = {"1", "2", "3"};
  for (size_t i = 0; i < refs; i++) links.push_back(f.text(name[i]));
  Bytes b; b.push_back((uint8_t)kind); b.push_back(0); le(b, 0, 2); le(b, refs, 2); le(b, v.size(), 2); le(b, 0, 8); le(b, 0, 8);
  for (auto d : v) le(b, kind == 11 ? 3 : dbits(d), 8);
  cc = f.block("CC", links, b);
  f.link(x, 4, cc);
  return f;
}
// MDF 3: little endian, 4 byte links
struct Raw3 : Raw {
  Raw3() {
    const char id[] = "MDF     3.30    verif   ";
    d.assign(id, id + 24);
    le(d, 0, 2); le(d, 0, 2); le(d, 330, 2); le(d, 0, 2);
    d.resize(64, 0);
  }
  std::vector<uint64_t> pos;
  uint64_t block3(const char* id, const std::vector<uint32_t>& links, const Bytes& data) {
    const uint64_t p = d.size();
    pos.push_back(p);
    d.push_back((uint8_t)id[0]); d.push_back((uint8_t)id[1]);
    le(d, 4 + 4 * links.size() + data.size(), 2);
    for (auto l : links) le(d, l, 4);
    cat(d, data);
    return p;
  }
  void link3(uint64_t p, size_t index, uint64_t to) { put(p + 4 + 4 * index, to, 4); }
  uint32_t text3(const char* s) { return (uint32_t)block3("TX", {}, Bytes(s, s + strlen(s) + 1)); }
};
Bytes str3(const char* s, size_t n) { Bytes b(s, s + strlen(s)); b.resize(n, 0); return b; }
Raw3 structure3(bool ids) {  // without record ids: one group
  Raw3 f;
  Bytes h; le(h, 1, 2); cat(h, str3("01:02:2024", 10)); cat(h, str3("10:11:12", 8)); h.resize(h.size() + 4 * 32, 0);
  const auto hd = f.block3("HD", {0, 0, 0}, h);
  Bytes g; le(g, ids ? 2 : 1, 2); le(g, ids ? 1 : 0, 2);
  const auto dg = f.block3("DG", {0, 0, 0, 0}, g);
  Bytes c0; le(c0, 1, 2); le(c0, 1, 2); le(c0, 2, 2); le(c0, 2, 4);
  const auto cg0 = f.block3("CG", {0, 0, 0}, c0);
  Bytes c1; le(c1, 2, 2); le(c1, 1, 2); le(c1, 1, 2); le(c1, 1, 4); le(c1, 0, 8);
  const auto cg1 = f.block3("CG", {0, 0, 0}, c1);
  const auto cn = [&](const char* n, int bits) {
    Bytes b; le(b, 0, 2); cat(b, str3(n, 32)); cat(b, str3("", 128)); le(b, 0, 2); le(b, (uint64_t)bits, 2); le(b, 0, 2); le(b, 0, 2);
    le(b, dbits(0), 8); le(b, dbits(1), 8); le(b, 0, 8); le(b, 0, 4); le(b, 0, 4); le(b, 0, 2);
    return f.block3("CN", {0, 0, 0, 0, 0}, b);
  };
  const auto x = cn("x", 16), y = cn("y", 8);
  f.link3(hd, 0, dg); f.link3(hd, 1, f.text3("hd")); f.link3(dg, 1, cg0); if (ids) f.link3(cg0, 0, cg1);
  f.link3(cg0, 1, x); f.link3(cg1, 1, y);
  Bytes v; le(v, 0, 2); le(v, dbits(0), 8); le(v, dbits(0), 8); cat(v, str3("V", 20));
  Bytes k = v; le(k, 11, 2); le(k, 1, 2); le(k, dbits(5), 8); cat(k, str3("five", 32));
  f.link3(x, 1, f.block3("CC", {}, k));
  Bytes l = v; le(l, 12, 2); le(l, 1, 2); le(l, dbits(5), 8); le(l, dbits(6), 8); le(l, f.text3("range"), 4);
  f.link3(y, 1, f.block3("CC", {}, l));
  Bytes t; le(t, 1, 2); le(t, dbits(1), 8); le(t, dbits(1), 8); le(t, dbits(1), 8);
  f.link3(dg, 2, f.block3("TR", {f.text3("tr")}, t));
  Bytes r; le(r, 1, 4); le(r, dbits(1), 8);
  const auto sr = f.block3("SR", {0, 0}, r);
  f.put(cg1 + 4 + 12 + 10, sr, 4);
  const auto dt = f.d.size();
  const Bytes data = {1, 10, 11, 2, 20, 1, 12, 13};
  cat(f.d, ids ? data : sub(data, 0, 4));
  f.link3(dg, 3, dt);
  return f;
}
std::vector<uint64_t> blocks_of(const Raw& f) {
  std::vector<uint64_t> b;
  for (size_t i = 64; i + 24 <= f.d.size(); i += 8) if (f.d[i] == '#' && f.d[i + 1] == '#') b.push_back(i);
  return b;
}
// one 8 byte field takes other values: small ones, near the original, near the end of the file, any block, huge ones
const uint64_t kNear = TIER ? 9 : 3;
void bad_field(Raw f) {
  sym_expect("read"); sym_expect("failed");
  const uint64_t n = f.d.size(), at = 8 * (8 + sym_choose(n / 8 - 8, "field"));
  const uint64_t was = f.get(at, 8);
  const uint64_t b = sym<uint8_t>("value");
  uint64_t v = 0;
  switch (sym_choose(5, "class")) {
    case 0: sym_assume(b <= (TIER ? 24 : 8)); v = b; break;
    case 1: sym_assume(b <= 2 * kNear); v = was - kNear + b; break;
    case 2: sym_assume(b <= 2 * kNear); v = n - kNear + b; break;
    case 3: { const auto l = blocks_of(f); v = l[sym_choose(l.size(), "block")]; break; }
    default: sym_assume(b <= 1 || b >= 0xfe || (b >= 0x7f && b <= 0x80)); v = b << 56 | (uint64_t)0x12345 << 20; break;
  }
  for (int i = 0; i < 8; i++) f.d[at + i] = (uint8_t)(v >> (8 * i));
  read_all(std::make_shared<RFile>(f.d));
}
void bad_link3(Raw3 f) {
  sym_expect("read"); sym_expect("failed");
  const uint64_t n = f.d.size(), at = 64 + 2 * sym_choose((n - 64) / 2 - 1, "field");
  const uint64_t was = f.get(at, 4);
  const uint64_t b = sym<uint8_t>("value");
  uint64_t v = 0;
  switch (sym_choose(4, "class")) {
    case 0: sym_assume(b <= (TIER ? 24 : 8)); v = b; break;
    case 1: sym_assume(b <= 2 * kNear); v = n - kNear + b; break;
    case 2: v = f.pos[sym_choose(f.pos.size(), "block")]; break;
    default: sym_assume(b <= 2); v = was - 1 + b; break;
  }
  for (int i = 0; i < 4; i++) f.d[at + i] = (uint8_t)(v >> (8 * i));
  read_all(std::make_shared<RFile>(f.d));
}
// one byte takes any value; quick: the last byte of a word, which makes a count or an offset huge, takes six values
void bad_byte(Raw f, size_t from, size_t part, size_t parts, bool few = false) {
  sym_expect("read");
  const size_t n = f.d.size() - from, a = from + n * part / parts, b = from + n * (part + 1) / parts;
  const size_t half = (b - a) / 200 + 1;
  const size_t at = a + 200 * sym_choose(half, "part") + sym_choose(200, "byte");
  if (at >= b) return;
  for (auto p : blocks_of(f)) if (f.d[p + 2] == 'D' && f.d[p + 3] == 'Z' && 
      ((at >= p + 48 && at < p + f.get(p + 8, 8)) || at == p + 34 || at == p + 35)) return;  // deflated bytes, megabytes of data
  for (auto p : blocks_of(f)) if (f.d[p + 2] == 'C' && f.d[p + 3] == 'A' && at >= p + 40 + 8 * f.get(p + 16, 8) && at < p + f.get(p + 8, 8) && at % 8 >= 1 && at % 8 <= 3) return;  // 256 to 16 million values
  const uint8_t v = sym<uint8_t>("value");
  if (!TIER && few) sym_assume(v <= 24 || v >= 0xfc || v == 0x7f || v == 0x80);
  if (!TIER && at % 8 == 7) sym_assume(v <= 1 || v >= 0xfe || (v >= 0x7f && v <= 0x80));
  for (auto p : blocks_of(f)) if (!TIER && f.d[p + 2] == 'D' && f.d[p + 3] == 'Z' && at >= p + 32 && at < p + 40) sym_assume(v <= (at == p + 33 ? 1 : 24) || v == 255);
  f.d[at] = v;
  read_all(std::make_shared<RFile>(f.d));
}
void bad_conversion(unsigned from, unsigned kinds) {
  sym_expect("read");
  static const unsigned all[] = {1, 2, 4, 5, 6, 7, 8, 9, 10, 11};
  uint64_t cc = 0;
  Raw f = conversion(all[from + sym_choose(kinds, "kind")], cc);
  const size_t at = cc + 8 + sym_choose(f.d.size() - cc - 8, "byte");
  const uint8_t v = sym<uint8_t>("value");
  if (!TIER && at % 8 == 7) sym_assume(v <= 1 || v >= 0xfe || (v >= 0x7f && v <= 0x80));
  f.d[at] = v;
  read_all(std::make_shared<RFile>(f.d));
}
void cut(Raw f) {
  sym_expect("failed"); sym_expect("read"); sym_expect("refused");
  const size_t n = 200 * sym_choose(f.d.size() / 200 + 1, "part") + sym_choose(200, "length");
  if (n > f.d.size()) return;
  f.d.resize(n);
  read_all(std::make_shared<RFile>(f.d));
}
}  // namespace
HARNESS(h_field_structure) { bad_field(structure()); }
HARNESS(h_field_extras) { bad_field(extras()); }
HARNESS(h_field_plain) { bad_field(fragmented(0)); }
HARNESS(h_field_zip) { bad_field(fragmented(2)); }
HARNESS(h_field_signal) { bad_field(signal(false)); }
HARNESS(h_field_vlsd) { bad_field(signal(true)); }
HARNESS(h_byte_structure_a) { bad_byte(structure(), 0, 0, 2); }
HARNESS(h_byte_structure_b) { bad_byte(structure(), 0, 1, 2); }
HARNESS(h_byte_extras_a) { bad_byte(extras(), 64, 0, 2); }
HARNESS(h_byte_extras_b) { bad_byte(extras(), 64, 1, 2); }
HARNESS(h_byte_plain) { bad_byte(fragmented(0), 168, 0, 1); }
HARNESS(h_byte_zip_a) { bad_byte(fragmented(2), 168, 0, 2); }
HARNESS(h_byte_zip_b) { bad_byte(fragmented(2), 168, 1, 2); }
HARNESS(h_byte_signal) { bad_byte(signal(false), 168, 0, 1); }
HARNESS(h_byte_vlsd) { bad_byte(signal(true), 168, 0, 1); }
HARNESS(h_cut_structure) { cut(structure()); }
HARNESS(h_cut_extras) { cut(extras()); }
HARNESS(h_cut_zip) { cut(fragmented(1 + (int)sym_choose(2, "kind"))); }
HARNESS(h_cut_vlsd) { cut(signal(sym_choose(2, "group") != 0)); }
HARNESS(h_conversion_a) { bad_conversion(0, 5); }
HARNESS(h_conversion_b) { bad_conversion(5, 5); }
HARNESS(h_field_array) { bad_field(arrays()); }
HARNESS(h_byte_array) { bad_byte(arrays(), 168, 0, 1, true); }
HARNESS(h_cut_array) { cut(arrays()); }
HARNESS(h_field_old) { bad_link3(structure3(true)); }
HARNESS(h_field_old_one) { bad_link3(structure3(false)); }
HARNESS(h_byte_old_one) { bad_byte(structure3(false), 64, 0, 1); }
HARNESS(h_byte_old) { bad_byte(structure3(true), 0, 0, 1); }
HARNESS(h_cut_old) { cut(structure3(true)); }
