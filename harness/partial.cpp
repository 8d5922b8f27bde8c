// Reading a range of samples gives exactly those samples.
#include "raw.h"
namespace {
struct Range { size_t first, last; bool in(size_t i) const { return i + 1 >= first && i + 1 <= last; } };
Range any_range(size_t n) {
  Range r;
  r.first = sym_choose(n + 3, "first");
  r.last = r.first + sym_choose(n + 2, "more");
  return r;
}
void expect_u(IChannelObserver& o, size_t i, bool read, uint64_t want) {
  uint64_t v = 0;
  const bool ok = o.GetChannelValue(i, v);
  sym_check(ok == read, "exactly the requested samples are delivered");
  if (read) sym_check(v == want, "value of a requested sample");
}
}  // namespace
// two groups in one data group, blocks cut anywhere, observing any of the groups
HARNESS(h_partial4) {
  sym_expect("done");
  const size_t n = 3, order = sym_choose(8, "order"), seen = 1 + sym_choose(3, "observed");
  const size_t rec[2] = {1, 2};
  Bytes s;
  std::vector<Bytes> vals[2];
  for (size_t i = 0; i < n; i++) {
    const size_t k = (order >> i) & 1;
    const Bytes v = sym_vec(rec[k], "record");
    le(s, k + 1, 1);
    cat(s, v);
    vals[k].push_back(v);
  }
  const Range g = any_range(n);
  const int form = (int)sym_choose(3, "form");
  Raw f;
  const auto hd = f.header(), dg = f.dg(1), cg0 = f.cg(1, vals[0].size(), 0, 1), cg1 = f.cg(2, vals[1].size(), 0, 2);
  const auto x = f.cn("x", 0, 0, 0, 0, 8), y = f.cn("y", 0, 0, 0, 0, 16);
  f.link(hd, 0, dg); f.link(dg, 1, cg0); f.link(cg0, 0, cg1); f.link(cg0, 1, x); f.link(cg1, 1, y); f.link(hd, 1, f.fh());
  if (form == 0) f.link(dg, 2, f.data("DT", s, 0));
  else {
    const size_t a = s.size() / 3 + 1, b = 2 * s.size() / 3;
    f.link(dg, 2, f.dl({f.data("DT", sub(s, 0, a), form - 1), f.data("DT", sub(s, a, b), 0), f.data("DT", sub(s, b, s.size()), form - 1)}, {0, a, b}));
  }
  MdfReader r(f.file());
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* d = r.GetDataGroup(0);
  ChannelObserverPtr ox, oy;
  if (seen & 1) ox = observe(d, 0, "x");
  if (seen & 2) oy = observe(d, 1, "y");
  sym_check(r.ReadPartialData(*d, g.first, g.last), "the range can be read");
  for (size_t i = 0; ox && i < vals[0].size(); i++) expect_u(*ox, i, g.in(i), vals[0][i][0]);
  for (size_t i = 0; oy && i < vals[1].size(); i++) expect_u(*oy, i, g.in(i), vals[1][i][0] | (uint64_t)vals[1][i][1] << 8);
  sym_cover("done");
}
// variable length values in signal data or in a group of their own
HARNESS(h_partial4_vlsd) {
  sym_expect("done");
  const size_t n = 3;
  const bool group = sym_choose(2, "group") != 0;
  static const int lens[3][3] = {{1, 2, 0}, {0, 0, 2}, {2, 1, 1}};
  const size_t k = sym_choose(3, "lengths");
  std::vector<Bytes> vals;
  Bytes s, sd;
  for (size_t i = 0; i < n; i++) {
    vals.push_back(sym_vec(lens[k][i], "value"));
    const uint64_t off = sd.size();
    le(sd, vals[i].size(), 4);
    cat(sd, vals[i]);
    if (group) { s.push_back(1); le(s, off, 8); s.push_back(2); le(s, vals[i].size(), 4); cat(s, vals[i]); }
    else le(s, off, 8);
  }
  const Range g = any_range(n);
  Raw f;
  const auto hd = f.header(), dg = f.dg(group ? 1 : 0), cg0 = f.cg(group ? 1 : 0, n, 0, 8), x = f.cn("x", 1, 0, 10, 0, 64);
  f.link(hd, 0, dg); f.link(hd, 1, f.fh()); f.link(dg, 1, cg0); f.link(cg0, 1, x);
  if (group) { const auto cg1 = f.cg(2, n, 1, (uint32_t)sd.size()); f.link(cg0, 0, cg1); f.link(x, 5, cg1); }
  else f.link(x, 5, f.data("SD", sd, 0));
  f.link(dg, 2, f.data("DT", s, 0));
  MdfReader r(f.file());
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* d = r.GetDataGroup(0);
  auto o = observe(d, 0, "x");
  sym_check(r.ReadPartialData(*d, g.first, g.last), "the range can be read");
  for (size_t i = 0; i < n; i++) {
    Bytes v;
    const bool ok = o->GetChannelValue(i, v);
    sym_check(ok == g.in(i), "exactly the requested samples are delivered");
    if (ok) sym_check(v == vals[i], "value of a requested sample");
  }
  sym_cover("done");
}
// MDF 3, written by the library
HARNESS(h_partial3) {
  sym_expect("done");
  auto file = std::make_shared<MemFile>();
  const bool two = sym_choose(2, "groups") != 0;
  std::vector<uint64_t> vals[2];
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf3Basic);
    w->Init(file);
    auto* dg = w->CreateDataGroup();
    IChannelGroup* cg[2] = {MdfWriter::CreateChannelGroup(dg), two ? MdfWriter::CreateChannelGroup(dg) : nullptr};
    IChannel* c[2] = {nullptr, nullptr};
    for (int i = 0; i < 1 + two; i++) { add_master(cg[i], true); c[i] = add_channel(cg[i], "x", ChannelDataType::UnsignedIntegerLe, i ? 4 : 2); }
    w->InitMeasurement();
    w->StartMeasurement(kStart);
    for (int i = 0; i < 3; i++) {
      const size_t k = two ? sym_choose(2, "group") : 0;
      const uint64_t v = sym<uint16_t>("value");
      c[k]->SetChannelValue(v);
      vals[k].push_back(v);
      w->SaveSample(*dg, *cg[k], kStart + i * kSec);
    }
    w->StopMeasurement(kStart + 10 * kSec);
    sym_check(w->FinalizeMeasurement(), "measurement finalised");
  }
  const Range g = any_range(3);
  const size_t seen = two ? 1 + sym_choose(3, "observed") : 1;
  MdfReader r(file);
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* d = r.GetDataGroup(0);
  ChannelObserverPtr o[2];
  if (seen & 1) o[0] = observe(d, 0, "x");
  if (seen & 2) o[1] = observe(d, 1, "x");
  sym_check(r.ReadPartialData(*d, g.first, g.last), "the range can be read");
  for (int k = 0; k < 2; k++)
    for (size_t i = 0; o[k] && i < vals[k].size(); i++) expect_u(*o[k], i, g.in(i), vals[k][i]);
  sym_cover("done");
}
