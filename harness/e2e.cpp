// Whole measurements through the public API: writer on a memory file, then reader on the same bytes.
#include "meas.h"
namespace {
struct Val { int kind; uint64_t u; double d; std::string s; bool valid; };
enum { KU1, KU2, KU4, KU8, KI1, KI2, KI4, KI8, KF4, KF8, KTEXT, KBYTES, KVTEXT, KVBYTES, KINDS };
const struct { ChannelDataType le, be; int bytes; } kInfo[KINDS] = {
    {ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe, 1}, {ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe, 2},
    {ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe, 4}, {ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe, 8},
    {ChannelDataType::SignedIntegerLe, ChannelDataType::SignedIntegerBe, 1}, {ChannelDataType::SignedIntegerLe, ChannelDataType::SignedIntegerBe, 2},
    {ChannelDataType::SignedIntegerLe, ChannelDataType::SignedIntegerBe, 4}, {ChannelDataType::SignedIntegerLe, ChannelDataType::SignedIntegerBe, 8},
    {ChannelDataType::FloatLe, ChannelDataType::FloatBe, 4}, {ChannelDataType::FloatLe, ChannelDataType::FloatBe, 8},
    {ChannelDataType::StringAscii, ChannelDataType::StringUTF8, 3}, {ChannelDataType::ByteArray, ChannelDataType::ByteArray, 3},
    {ChannelDataType::StringUTF8, ChannelDataType::StringAscii, 8}, {ChannelDataType::ByteArray, ChannelDataType::ByteArray, 8}};
int g_len = -1;  // fixed text length, or every length up to 2
// sets a fresh symbolic value on the channel and remembers what must come back
Val put(IChannel* c, int kind, bool flagged) {
  Val v;
  v.kind = kind;
  v.u = 0; v.d = 0;
  v.valid = flagged ? sym_bool("valid") : true;
  const int n = kInfo[kind].bytes;
  if (kind <= KU8) {
    v.u = sym<uint64_t>("value");
    if (n < 8) v.u &= (1ull << (8 * n)) - 1;
    c->SetChannelValue(v.u, v.valid);
  } else if (kind <= KI8) {
    int64_t x = sym<int64_t>("value");
    x = (int64_t)((uint64_t)x << (64 - 8 * n)) >> (64 - 8 * n);
    v.u = (uint64_t)x;
    c->SetChannelValue(x, v.valid);
  } else if (kind == KF4) {
    float f = sym<float>("value");
    sym_assume(f == f);
    v.d = f;
    c->SetChannelValue(f, v.valid);
  } else if (kind == KF8) {
    v.d = sym<double>("value");
    sym_assume(v.d == v.d);
    c->SetChannelValue(v.d, v.valid);
  } else {
    const bool text = kind == KTEXT || kind == KVTEXT;
    const size_t len = kind == KBYTES ? 3 : g_len >= 0 ? (size_t)g_len : sym_choose(3, "len");
    auto b = sym_vec(len, "data");
    if (text) for (auto x : b) sym_assume(x >= 'a' && x <= 'z');
    v.s.assign(b.begin(), b.end());
    if (text) c->SetChannelValue(v.s, v.valid);
    else c->SetChannelValue(b, v.valid);
  }
  return v;
}
void expect_value(IChannelObserver& o, uint64_t sample, const Val& v) {
  if (v.kind <= KU8) {
    uint64_t x = 0;
    const bool ok = o.GetChannelValue(sample, x);
    sym_trace("value", x);
    sym_check(ok == v.valid, "validity of a sample");
    sym_check(!v.valid || x == v.u, "unsigned sample value");
  } else if (v.kind <= KI8) {
    int64_t x = 0;
    const bool ok = o.GetChannelValue(sample, x);
    sym_check(ok == v.valid, "validity of a sample");
    sym_check(!v.valid || (uint64_t)x == v.u, "signed sample value");
  } else if (v.kind <= KF8) {
    double x = 0;
    const bool ok = o.GetChannelValue(sample, x);
    sym_check(ok == v.valid, "validity of a sample");
    sym_check(!v.valid || x == v.d, "float sample value");
  } else if (v.kind == KTEXT || v.kind == KVTEXT) {
    std::string x;
    const bool ok = o.GetChannelValue(sample, x);
    sym_check(ok == v.valid, "validity of a sample");
    if (v.valid) sym_check(x == v.s, "text sample value");
  } else {
    std::vector<uint8_t> x;
    const bool ok = o.GetChannelValue(sample, x);
    sym_check(ok == v.valid, "validity of a sample");
    if (v.valid) sym_check(x == std::vector<uint8_t>(v.s.begin(), v.s.end()), "byte array sample value");
  }
}
struct Group { IDataGroup* dg; IChannelGroup* cg; IChannel* c; IChannel* c2; int kind, kind2; bool flagged; size_t dgi, cgi; std::vector<Val> vals, vals2; std::vector<uint64_t> times; };

// One measurement: `layout` 0 = one group, 1 = two channel groups in one data group, 2 = two data groups, 3 = three channel groups.
void measurement(MdfWriterType type, int layout, bool compress, bool periodic, int kind, int kind2, bool be, bool flagged, int pad, int samples) {
  auto file = std::make_shared<MemFile>();
  std::vector<Group> g;
  const bool mdf3 = type == MdfWriterType::Mdf3Basic;
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    sym_check(w->Init(file), "the writer accepts the stream");
    w->CompressData(compress);
    w->SavePeriodic(periodic);
    const int ng = layout == 0 ? 1 : layout == 3 ? 3 : 2;
    IDataGroup* dg = nullptr;
    for (int i = 0; i < ng; i++) {
      Group x;
      if (i == 0 || layout == 2) dg = w->CreateDataGroup();
      x.dg = dg;
      x.dgi = layout == 2 ? i : 0;
      x.cgi = layout == 2 ? 0 : i;
      x.cg = MdfWriter::CreateChannelGroup(dg);
      x.cg->Name(i == 0 ? "A" : i == 1 ? "B" : "C");
      add_master(x.cg, mdf3);
      x.kind = i == 0 ? kind : kind2;
      x.kind2 = i == 0 ? kind2 : kind;
      x.flagged = flagged;
      x.c = add_channel(x.cg, "x", be ? kInfo[x.kind].be : kInfo[x.kind].le, kInfo[x.kind].bytes,
                        x.kind >= KVTEXT ? ChannelType::VariableLength : ChannelType::FixedLength);
      x.c2 = add_channel(x.cg, "y", be ? kInfo[x.kind2].le : kInfo[x.kind2].be, kInfo[x.kind2].bytes,
                         x.kind2 >= KVTEXT ? ChannelType::VariableLength : ChannelType::FixedLength);
      if (flagged) { x.c->Flags(CnFlag::InvalidValid); x.c2->Flags(CnFlag::InvalidValid); }
      if (pad) add_channel(x.cg, "p", ChannelDataType::ByteArray, pad);
      g.push_back(x);
    }
    sym_check(w->InitMeasurement(), "measurement initialised");
    w->StartMeasurement(kStart);
    for (int i = 0; i < samples; i++) {
      Group& x = g[g.size() == 1 ? 0 : sym_choose(g.size(), "group")];
      x.vals.push_back(put(x.c, x.kind, x.flagged));
      x.vals2.push_back(put(x.c2, x.kind2, x.flagged));
      const uint64_t t = kStart + sym<uint32_t>("dt");
      x.times.push_back(t);
      w->SaveSample(*x.dg, *x.cg, t);
    }
    w->StopMeasurement(kStart + 1000 * kSec);
    sym_check(w->FinalizeMeasurement(), "measurement finalised");
  }
  MdfReader r(file);
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  sym_check(r.IsFinalized(), "the file is finalised");
  sym_check(r.GetHeader()->StartTime() == kStart, "start time");
  for (size_t i = 0; i < g.size(); i++) {
    Group& x = g[i];
    auto* dg = r.GetDataGroup(x.dgi);
    sym_check(dg != nullptr, "data group found");
    auto* cg = group_of(dg, x.cgi);
    sym_check(cg != nullptr && (mdf3 || cg->Name() == (i == 0 ? "A" : i == 1 ? "B" : "C")), "channel group found");
    sym_check(cg->NofSamples() == x.vals.size(), "number of samples");
    auto o = observe(dg, x.cgi, "x");
    auto o2 = observe(dg, x.cgi, "y");
    auto ot = observe(dg, x.cgi, "t");
    sym_check(o && o2 && ot, "channels found");
    sym_check(r.ReadData(*dg), "data read");
    sym_check(o->NofSamples() == x.vals.size(), "number of observed samples");
    for (size_t k = 0; k < x.vals.size(); k++) {
      expect_value(*o, k, x.vals[k]);
      expect_value(*o2, k, x.vals2[k]);
      double t = -1;
      sym_check(ot->GetChannelValue(k, t), "time is valid");
      sym_check(same_bits(t, (double)(int64_t)(x.times[k] - kStart) / 1'000'000'000.0), "relative time of a sample");
    }
    sym_cover(x.vals.empty() ? "empty group" : "samples");
  }
}
}  // namespace
// every value type, one group
HARNESS(h_m4_types) {
  sym_expect("samples");
  const int kind = (int)sym_choose(KINDS, "kind");
  measurement(MdfWriterType::Mdf4Basic, 0, sym_choose(2, "compress") != 0, true, kind, (kind + 3) % KINDS, sym_choose(2, "be") != 0, sym_choose(2, "flag") != 0, 0, 2);
}
// groups, record ids, compression
HARNESS(h_m4_groups) {
  sym_expect("samples"); sym_expect("empty group");
  g_len = 2;
  const int layout = 1 + (int)sym_choose(3, "layout");
  measurement(MdfWriterType::Mdf4Basic, layout, sym_choose(2, "compress") != 0, sym_choose(2, "periodic") != 0, KU4, sym_choose(2, "vlsd") ? KVTEXT : KI2, false, false, sym_choose(2, "pad") ? 60 : 0, 3);
}
HARNESS(h_conv_groups) {
  sym_expect("samples");
  g_len = 2;
  const int layout = (int)sym_choose(4, "layout");
  measurement(MdfWriterType::MdfConverter, layout, sym_choose(2, "compress") != 0, sym_choose(2, "periodic") != 0, KU4, sym_choose(2, "vlsd") ? KVTEXT : KI2, false, false, sym_choose(2, "pad") ? 60 : 0, 3);
}
HARNESS(h_m3_types) {
  sym_expect("samples");
  const int kind = (int)sym_choose(KVTEXT, "kind");
  measurement(MdfWriterType::Mdf3Basic, 0, false, true, kind, (kind + 3) % KVTEXT, sym_choose(2, "be") != 0, false, 0, 2);
}
HARNESS(h_m3_groups) {
  sym_expect("samples"); sym_expect("empty group");
  g_len = 2;
  const int layout = 1 + (int)sym_choose(3, "layout");
  measurement(MdfWriterType::Mdf3Basic, layout, false, sym_choose(2, "periodic") != 0, KU4, KI2, false, false, 0, 3);
}
// two measurements in one file
static void append(MdfWriterType type) {
  sym_expect("done");
  auto file = std::make_shared<MemFile>();
  const bool mdf3 = type == MdfWriterType::Mdf3Basic;
  const bool compress = !mdf3 && sym_choose(2, "compress") != 0;
  const bool vlsd = !mdf3 && sym_choose(2, "vlsd") != 0;
  const size_t n[2] = {sym_choose(3, "first"), sym_choose(3, "second")};
  std::vector<Val> v[2];
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    w->Init(file);
    w->CompressData(compress);
    g_len = 2;
    for (int m = 0; m < 2; m++) {
      auto* dg = w->CreateDataGroup();
      auto* cg = MdfWriter::CreateChannelGroup(dg);
      add_master(cg, mdf3);
      auto* c = add_channel(cg, "x", ChannelDataType::UnsignedIntegerLe, 4);
      auto* d = vlsd ? add_channel(cg, "y", ChannelDataType::StringUTF8, 8, ChannelType::VariableLength) : add_channel(cg, "y", ChannelDataType::UnsignedIntegerBe, 2);
      sym_check(w->InitMeasurement(), "measurement initialised");
      w->StartMeasurement(kStart + m * kSec);
      for (size_t i = 0; i < n[m]; i++) {
        v[m].push_back(put(c, KU4, false));
        v[m].push_back(put(d, vlsd ? KVTEXT : KU2, false));
        w->SaveSample(*dg, *cg, kStart + (m + i) * kSec);
      }
      w->StopMeasurement(kStart + 10 * kSec);
      sym_check(w->FinalizeMeasurement(), "measurement finalised");
    }
  }
  MdfReader r(file);
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  for (int m = 0; m < 2; m++) {
    auto* dg = r.GetDataGroup(m);
    sym_check(dg != nullptr, "data group found");
    sym_check(group_of(dg, 0)->NofSamples() == n[m], "number of samples");
    auto o = observe(dg, 0, "x"), o2 = observe(dg, 0, "y"), ot = observe(dg, 0, "t");
    sym_check(r.ReadData(*dg), "data read");
    for (size_t i = 0; i < n[m]; i++) {
      expect_value(*o, i, v[m][2 * i]);
      expect_value(*o2, i, v[m][2 * i + 1]);
      double t = -1;
      sym_check(ot->GetChannelValue(i, t) && t == (double)i, "time relative to its own measurement");
    }
  }
  sym_cover("done");
}
HARNESS(h_m4_append) { append(MdfWriterType::Mdf4Basic); }
HARNESS(h_m3_append) { append(MdfWriterType::Mdf3Basic); }
