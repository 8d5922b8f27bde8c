// Data split over blocks of any kind reads like one block.
#include "raw.h"
namespace {
// where the pieces of a data stream lie: every split in up to three pieces, every list structure and block kind
struct Split { size_t a, b; int scheme, kind; };
int kind_of(int k, int piece) { return k < 3 ? k : (piece + k) % 3; }
uint64_t store(Raw& f, const char* id, const Bytes& s, const Split& p, uint32_t cols) {
  if (p.scheme == 0) return f.data(id, s, kind_of(p.kind, 0), cols);
  const Bytes parts[3] = {sub(s, 0, p.a), sub(s, p.a, p.b), sub(s, p.b, s.size())};
  const std::vector<uint64_t> off{0, p.a, p.b};
  std::vector<uint64_t> pos;
  for (int i = 0; i < 3; i++) pos.push_back(f.data(id, parts[i], kind_of(p.kind, i), cols));
  if (p.scheme == 2) {  // a chain of lists
    const uint64_t l3 = f.dl({pos[2]}, {off[2]});
    return f.dl({pos[0], pos[1]}, {off[0], off[1]}, l3);
  }
  const uint64_t l = f.dl(pos, off);
  return p.scheme == 3 ? f.hl(l) : l;
}
Split any_split(size_t n, int schemes_from, int kinds) {
  Split p;
  p.scheme = schemes_from + (int)sym_choose(4 - schemes_from, "scheme");
  p.kind = (int)sym_choose(kinds, "kind");
  p.a = p.b = 0;
  if (p.scheme) {
    p.a = sym_choose(n + 1, "cut 1");
    p.b = p.a + sym_choose(n - p.a + 1, "cut 2");
  }
  return p;
}
}  // namespace
// one group, fixed length records
HARNESS(h_frag_sorted) {
  sym_expect("done");
  const size_t rec = 3, n = TIER ? 4 : 3;
  const Bytes s = sym_vec(rec * n, "data");
  const Split p = any_split(s.size(), 0, 5);
  Raw f;
  const auto hd = f.header(), dg = f.dg(0), cg = f.cg(0, n, 0, rec), x = f.cn("x", 0, 0, 0, 0, 8), y = f.cn("y", 0, 0, 0, 1, 16);
  f.link(hd, 0, dg); f.link(dg, 1, cg); f.link(cg, 1, x); f.link(x, 0, y); f.link(hd, 1, f.fh());
  f.link(dg, 2, store(f, "DT", s, p, rec));
  MdfReader r(f.file());
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* g = r.GetDataGroup(0);
  auto ox = observe(g, 0, "x"), oy = observe(g, 0, "y");
  sym_check(ox && oy && r.ReadData(*g), "the data can be read");
  for (size_t i = 0; i < n; i++) {
    uint64_t vx = 0, vy = 0;
    sym_check(ox->GetChannelValue(i, vx) && vx == s[i * rec], "value of the first channel");
    sym_check(oy->GetChannelValue(i, vy) && vy == (s[i * rec + 1] | (uint64_t)s[i * rec + 2] << 8), "value of the second channel");
  }
  sym_cover("done");
}
// several groups in one data group, any record id size, observing any of them
HARNESS(h_frag_unsorted) {
  sym_expect("done");
  const int ids = 1 << sym_choose(4, "id size");
  const size_t n = 3;
  const size_t order = sym_choose(8, "order");
  const size_t seen = 1 + sym_choose(3, "observed");
  const size_t rec[2] = {1, 3};
  uint64_t id[2];
  id[0] = ids == 8 ? 0x8100000000000002ull : ids == 4 ? 0x81000002 : ids == 2 ? 0x8102 : 0x82;
  id[1] = ids == 8 ? 0x8200000000000002ull : ids == 4 ? 0x82000002 : ids == 2 ? 0x8202 : 0x7f;
  Bytes s;
  std::vector<Bytes> vals[2];
  for (size_t i = 0; i < n; i++) {
    const size_t k = (order >> i) & 1;
    const Bytes v = sym_vec(rec[k], "record");
    le(s, id[k], ids);
    cat(s, v);
    vals[k].push_back(v);
  }
  // cuts anywhere: the first of them in the middle record
  Split p;
  p.scheme = 1;
  static const int kinds[3] = {0, 3, 4}; p.kind = kinds[sym_choose(3, "kind")];
  p.a = sym_choose(s.size() + 1, "cut");
  p.b = p.a + (s.size() - p.a) / 2;
  Raw f;
  const auto hd = f.header(), dg = f.dg(ids), cg0 = f.cg(id[0], vals[0].size(), 0, 1), cg1 = f.cg(id[1], vals[1].size(), 0, 3);
  const auto x = f.cn("x", 0, 0, 0, 0, 8), y = f.cn("y", 0, 0, 0, 0, 24);
  f.link(hd, 0, dg); f.link(dg, 1, cg0); f.link(cg0, 0, cg1); f.link(cg0, 1, x); f.link(cg1, 1, y); f.link(hd, 1, f.fh());
  f.link(dg, 2, store(f, "DT", s, p, 2));
  MdfReader r(f.file());
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* g = r.GetDataGroup(0);
  ChannelObserverPtr ox, oy;
  if (seen & 1) ox = observe(g, 0, "x");
  if (seen & 2) oy = observe(g, 1, "y");
  sym_check(r.ReadData(*g), "the data can be read");
  for (size_t i = 0; ox && i < vals[0].size(); i++) {
    uint64_t v = 0;
    sym_check(ox->GetChannelValue(i, v) && v == vals[0][i][0], "value in the first group");
  }
  for (size_t i = 0; oy && i < vals[1].size(); i++) {
    uint64_t v = 0;
    sym_check(oy->GetChannelValue(i, v) && v == (vals[1][i][0] | (uint64_t)vals[1][i][1] << 8 | (uint64_t)vals[1][i][2] << 16), "value in the second group");
  }
  sym_cover("done");
}
namespace {
// three variable length values in a signal data stream
struct Sd { Bytes stream; std::vector<Bytes> vals; std::vector<uint64_t> off; };
Sd signal_data() {
  static const int lens[4][3] = {{1, 2, 0}, {0, 0, 3}, {2, 1, 1}, {0, 3, 1}};
  const size_t k = sym_choose(4, "lengths");
  Sd s;
  for (int i = 0; i < 3; i++) {
    const Bytes v = sym_vec(lens[k][i], "value");
    s.off.push_back(s.stream.size());
    le(s.stream, v.size(), 4);
    cat(s.stream, v);
    s.vals.push_back(v);
  }
  return s;
}
// the file with one variable length channel whose values lie in `s`; records refer to values in the order `ref`
uint64_t sd_file(Raw& f, const Sd& s, const Split& p, const std::vector<size_t>& ref) {
  const auto hd = f.header(), dg = f.dg(0), cg = f.cg(0, ref.size(), 0, 8), x = f.cn("x", 1, 0, 10, 0, 64);
  f.link(hd, 0, dg); f.link(dg, 1, cg); f.link(cg, 1, x); f.link(hd, 1, f.fh());
  f.link(x, 5, store(f, "SD", s.stream, p, 2));
  Bytes d;
  for (auto r : ref) le(d, s.off[r], 8);
  f.link(dg, 2, f.data("DT", d, 0));
  return x;
}
}  // namespace
HARNESS(h_frag_sd) {
  sym_expect("done");
  const Sd s = signal_data();
  const Split p = any_split(s.stream.size(), 0, 5);
  std::vector<size_t> ref{0, 1, 2};
  if (p.scheme == 0) { const size_t o = sym_choose(27, "references"); ref = {o % 3, (o / 3) % 3, o / 9}; }
  Raw f;
  sd_file(f, s, p, ref);
  MdfReader r(f.file());
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* g = r.GetDataGroup(0);
  auto o = observe(g, 0, "x");
  sym_check(o && r.ReadData(*g), "the data can be read");
  for (size_t i = 0; i < ref.size(); i++) {
    Bytes v;
    sym_check(o->GetChannelValue(i, v) && v == s.vals[ref[i]], "variable length value");
  }
  sym_cover("done");
}
// fetching chosen variable length values by their offsets
HARNESS(h_frag_sd_fetch) {
  sym_expect("done");
  const Sd s = signal_data();
  Split p;
  p.scheme = (int)sym_choose(4, "scheme");
  p.kind = (int)sym_choose(5, "kind");
  p.a = p.scheme ? sym_choose(s.stream.size() + 1, "cut") : 0;
  p.b = p.a + (s.stream.size() - p.a) / 2;
  const size_t want = sym_choose(8, "wanted");
  Raw f;
  sd_file(f, s, p, {0, 1, 2});
  MdfReader r(f.file());
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* g = r.GetDataGroup(0);
  auto* x = group_of(g, 0)->GetChannel("x");
  std::vector<uint64_t> list;
  for (size_t i = 3; i-- > 0;) if (want >> i & 1) list.push_back(s.off[i]);
  std::vector<std::pair<uint64_t, Bytes>> got;
  std::function<void(uint64_t, const Bytes&)> cb = [&](uint64_t o, const Bytes& b) { got.emplace_back(o, b); };
  sym_check(r.ReadVlsdData(*g, *x, list, cb), "the signal data can be read");
  size_t n = 0;
  for (size_t i = 0; i < 3; i++) {
    if (want && !(want >> i & 1)) continue;  // no list: everything
    sym_check(n < got.size() && got[n].first == s.off[i], "every wanted value is delivered once, in file order");
    sym_check(got[n].second == s.vals[i], "the delivered value");
    n++;
  }
  sym_check(n == got.size(), "nothing else is delivered");
  sym_cover("done");
}
// a group whose variable length values are records of a second group
HARNESS(h_frag_vlsd_group) {
  sym_expect("done");
  static const int lens[3][2] = {{1, 2}, {0, 3}, {2, 0}};
  const size_t k = sym_choose(3, "lengths");
  const int ids = sym_choose(2, "id size") ? 2 : 1;
  const size_t order = sym_choose(3, "order");  // v0 r0 v1 r1 | v0 v1 r0 r1 | r0 v0 v1 r1
  Bytes s, vals[2], rec[2], num;
  uint64_t off = 0;
  for (int i = 0; i < 2; i++) {
    vals[i] = sym_vec(lens[k][i], "value");
    num.push_back(sym<uint8_t>("number"));
    rec[i].push_back(num[i]);
    le(rec[i], off, 8);
    off += 4 + vals[i].size();
  }
  auto put = [&](bool v, int i) {
    le(s, v ? 2 : 1, ids);
    if (v) le(s, vals[i].size(), 4);
    cat(s, v ? vals[i] : rec[i]);
  };
  if (order == 0) { put(true, 0); put(false, 0); put(true, 1); put(false, 1); }
  else if (order == 1) { put(true, 0); put(true, 1); put(false, 0); put(false, 1); }
  else { put(false, 0); put(true, 0); put(true, 1); put(false, 1); }
  Split p;
  p.scheme = 1;
  static const int kinds[3] = {0, 3, 4}; p.kind = kinds[sym_choose(3, "kind")];
  p.a = sym_choose(s.size() + 1, "cut");
  p.b = p.a + (s.size() - p.a) / 2;
  const bool fetch = sym_choose(2, "fetch") != 0;
  const bool vlsd_first = sym_choose(2, "group order") != 0;
  Raw f;
  const auto hd = f.header(), dg = f.dg(ids), cg0 = f.cg(1, 2, 0, 9), cg1 = f.cg(2, 2, 1, (uint32_t)off);
  const auto n = f.cn("n", 0, 0, 0, 0, 8), x = f.cn("x", 1, 0, 10, 1, 64);
  f.link(hd, 0, dg); f.link(hd, 1, f.fh());
  f.link(dg, 1, vlsd_first ? cg1 : cg0); f.link(vlsd_first ? cg1 : cg0, 0, vlsd_first ? cg0 : cg1);
  f.link(cg0, 1, n); f.link(n, 0, x); f.link(x, 5, cg1);
  f.link(dg, 2, store(f, "DT", s, p, 2));
  MdfReader r(f.file());
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* g = r.GetDataGroup(0);
  if (fetch) {
    const size_t want = 1 + sym_choose(3, "wanted");
    std::vector<uint64_t> list;
    for (size_t i = 0; i < 2; i++) if (want >> i & 1) list.push_back(i ? 4 + vals[0].size() : 0);
    std::vector<std::pair<uint64_t, Bytes>> got;
    std::function<void(uint64_t, const Bytes&)> cb = [&](uint64_t o, const Bytes& b) { got.emplace_back(o, b); };
    sym_check(r.ReadVlsdData(*g, *group_of(g, 0)->GetChannel("x"), list, cb), "the signal data can be read");
    sym_check(got.size() == list.size(), "number of delivered values");
    size_t j = 0;
    for (size_t i = 0; i < 2; i++)
      if (want >> i & 1) { sym_check(got[j].first == list[j] && got[j].second == vals[i], "the delivered value"); j++; }
  } else {
    auto on = observe(g, 0, "n"), ox = observe(g, 0, "x");
    sym_check(on && ox && r.ReadData(*g), "the data can be read");
    for (int i = 0; i < 2; i++) {
      uint64_t v = 0;
      Bytes b;
      sym_check(on->GetChannelValue(i, v) && v == num[i], "value in the group");
      sym_check(ox->GetChannelValue(i, b) && b == vals[i], "variable length value");
    }
  }
  sym_cover("done");
}
