// The writer's worker thread: every schedule within the bounds, and the pre-trigger queue.
#include "meas.h"
#include <thread>
#include "mdf/canmessage.h"
#include "mdf/linmessage.h"
#include "mdf/ethmessage.h"
#include "mdf/mostmessage.h"
#include "mdf/flexraymessage.h"
#include "mdf/flexrayconfigadapter.h"
namespace {
struct One { uint64_t x; uint64_t t; std::string s; };
struct G { IDataGroup* dg; IChannelGroup* cg; IChannel *x, *y; size_t dgi, cgi; std::vector<One> want; };
struct Meas {
  std::shared_ptr<MemFile> file = std::make_shared<MemFile>();
  std::unique_ptr<MdfWriter> w;
  std::vector<G> g;
  bool mdf3 = false, vlsd = false;
  void setup(MdfWriterType type, int groups, bool own_dg, bool compress, bool vl, double pretrig) {
    mdf3 = type == MdfWriterType::Mdf3Basic;
    vlsd = vl;
    w = MdfFactory::CreateMdfWriter(type);
    sym_check(w->Init(file), "the writer accepts the stream");
    w->CompressData(compress);
    w->SavePeriodic(true);
    w->PreTrigTime(pretrig);
    IDataGroup* dg = nullptr;
    for (int i = 0; i < groups; i++) {
      G q;
      if (i == 0 || own_dg) dg = w->CreateDataGroup();
      q.dg = dg;
      q.dgi = own_dg ? i : 0;
      q.cgi = own_dg ? 0 : i;
      q.cg = MdfWriter::CreateChannelGroup(dg);
      q.cg->Name(i == 0 ? "A" : "B");
      add_master(q.cg, mdf3);
      q.x = add_channel(q.cg, "x", ChannelDataType::UnsignedIntegerLe, 2);
      q.y = vl ? add_channel(q.cg, "y", ChannelDataType::StringUTF8, 8, ChannelType::VariableLength) : nullptr;
      g.push_back(q);
    }
    sym_check(w->InitMeasurement(), "measurement initialised");
  }
  One put(G& q, uint64_t t) {
    One o;
    o.x = sym<uint16_t>("value");
    o.t = t;
    q.x->SetChannelValue(o.x);
    if (q.y) {
      auto b = sym_vec(2, "text");
      for (auto c : b) sym_assume(c >= 'a' && c <= 'z');
      o.s.assign(b.begin(), b.end());
      q.y->SetChannelValue(o.s);
    }
    w->SaveSample(*q.dg, *q.cg, t);
    return o;
  }
  void stop() {
    w->StopMeasurement(kStart + 1000 * kSec);
    sym_check(w->FinalizeMeasurement(), "measurement finalised");
    w.reset();
  }
  void verify(uint64_t start) {
    MdfReader r(file);
    sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
    sym_check(r.IsFinalized() && r.GetHeader()->StartTime() == start, "finalised, with the start time");
    for (auto& q : g) {
      auto* dg = r.GetDataGroup(q.dgi);
      sym_check(dg != nullptr && group_of(dg, q.cgi) != nullptr, "group found");
      sym_check(group_of(dg, q.cgi)->NofSamples() == q.want.size(), "number of samples");
      auto o = observe(dg, q.cgi, "x"), ot = observe(dg, q.cgi, "t");
      auto os = q.y ? observe(dg, q.cgi, "y") : nullptr;
      sym_check(r.ReadData(*dg), "data read");
      for (size_t k = 0; k < q.want.size(); k++) {
        uint64_t v = 0;
        double t = 0;
        sym_check(o->GetChannelValue(k, v) && v == q.want[k].x, "sample value");
        sym_check(ot->GetChannelValue(k, t) && same_bits(t, (double)(int64_t)(q.want[k].t - start) / 1'000'000'000.0), "relative time of a sample");
        sym_trace("value", v);
        if (os) {
          std::string s;
          sym_check(os->GetChannelValue(k, s) && s == q.want[k].s, "text of a sample");
        }
      }
      sym_cover(q.want.empty() ? "empty group" : "samples");
    }
  }
};
// samples before and after the start; nothing may be lost, doubled or reordered
void worker(MdfWriterType type, int groups, bool own_dg, bool compress, bool vl, int before, int after) {
  sym_expect("samples");
  Meas m;
  m.setup(type, groups, own_dg, compress, vl, 100.0);
  int n = 0;
  uint64_t t = kStart;
  for (int i = 0; i < before; i++, n++, t += sym<uint32_t>("dt")) { G& q = m.g[n % groups]; q.want.push_back(m.put(q, t)); }
  const uint64_t start = t;
  m.w->StartMeasurement(start);
  for (int i = 0; i < after; i++, n++, t += sym<uint32_t>("dt")) { G& q = m.g[n % groups]; q.want.push_back(m.put(q, t)); }
  m.stop();
  m.verify(start);
}
}  // namespace
HARNESS(h_worker4) { worker(MdfWriterType::Mdf4Basic, 1, false, false, false, 1, 2); }
HARNESS(h_worker4_vlsd) { worker(MdfWriterType::Mdf4Basic, 1, false, sym_choose(2, "compress") != 0, true, 0, 2); }
HARNESS(h_worker4_groups) { worker(MdfWriterType::Mdf4Basic, 2, sym_choose(2, "dg") != 0, sym_choose(2, "compress") != 0, false, 1, 2); }
HARNESS(h_worker3) { worker(MdfWriterType::Mdf3Basic, 1, false, false, false, 1, 2); }
HARNESS(h_worker3_groups) { worker(MdfWriterType::Mdf3Basic, 2, sym_choose(2, "dg") != 0, false, false, 1, 2); }
HARNESS(h_worker_conv) { worker(MdfWriterType::MdfConverter, 1 + (int)sym_choose(2, "groups"), false, sym_choose(2, "compress") != 0, false, 1, 2); }
// two threads of the application, each with a group of its own
HARNESS(h_two_producers) {
  sym_expect("samples");
  Meas m;
  const bool mdf3 = sym_choose(2, "mdf3") != 0;
  m.setup(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic, 2, false, false, false, 100.0);
  m.w->StartMeasurement(kStart);
  std::thread other([&] { for (int i = 0; i < 2; i++) m.g[1].want.push_back(m.put(m.g[1], kStart + i * kSec)); });
  for (int i = 0; i < 2; i++) m.g[0].want.push_back(m.put(m.g[0], kStart + i * kSec));
  other.join();
  m.stop();
  m.verify(kStart);
}

// every way of handing over a sample, against the worker thread
HARNESS(h_worker_ops) {
  sym_expect("message stored");
  static const uint16_t kBus[] = {MdfBusType::CAN, MdfBusType::CAN, MdfBusType::LIN, MdfBusType::LIN, MdfBusType::Ethernet,
                                  MdfBusType::Ethernet, MdfBusType::MOST, MdfBusType::FlexRay, MdfBusType::CAN, MdfBusType::CAN};
  static const char* kGroup[] = {"_DataFrame", "_DataFrame", "_Frame", "_Frame", "_Frame", "_Frame", "_Message", "_Frame", "_DataFrame", "_DataFrame"};
  const size_t op = sym_choose(10, "operation");
  auto file = std::make_shared<MemFile>();
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::MdfBusLogger);
  w->Init(file);
  w->BusType(kBus[op]);
  w->StorageType(MdfStorageType::MlsdStorage);
  w->MaxLength(8);
  w->MandatoryMembersOnly(true);
  w->CompressData(false);
  w->CreateBusLogConfiguration();
  auto* dg = w->Header()->LastDataGroup();
  if (kBus[op] == MdfBusType::FlexRay && dg->ChannelGroups().empty()) { FlexRayConfigAdapter a(*w); a.CreateConfig(*dg); }
  IChannelGroup* cg = nullptr;
  std::string name;
  for (auto* g : dg->ChannelGroups()) if (!cg && g->Name().find(kGroup[op]) != std::string::npos) { cg = g; name = g->Name(); }
  sym_check(cg != nullptr, "the configured group exists");
  sym_check(w->InitMeasurement(), "measurement initialised");
  w->StartMeasurement(kStart);
  uint64_t t[2];
  for (int i = 0; i < 2; i++) {
    t[i] = kStart + sym<uint32_t>("time");
    CanMessage can; LinMessage lin; EthMessage eth; MostMessage most; FlexRayFrame flex;
    switch (op) {
      case 0: w->SaveCanMessage(*cg, t[i], can); break;
      case 1: w->SaveCanMessage(*dg, *cg, t[i], can); break;
      case 2: w->SaveLinMessage(*cg, t[i], lin); break;
      case 3: w->SaveLinMessage(*dg, *cg, t[i], lin); break;
      case 4: w->SaveEthMessage(*cg, t[i], eth); break;
      case 5: w->SaveEthMessage(*dg, *cg, t[i], eth); break;
      case 6: w->SaveMostMessage(*dg, *cg, t[i], most); break;
      case 7: w->SaveFlexRayMessage(*dg, *cg, t[i], flex); break;
      case 8: w->SaveSample(*cg, t[i]); break;
      default: w->AddSample(*dg, *cg, t[i], cg->GetSampleRecord()); break;
    }
  }
  w->StopMeasurement(kStart + 1000 * kSec);
  sym_check(w->FinalizeMeasurement(), "measurement finalised");
  w.reset();
  MdfReader r(file);
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* rd = r.GetDataGroup(0);
  for (auto* g : rd->ChannelGroups()) {
    if (g->Name() != name) continue;
    sym_check(g->NofSamples() == 2, "number of samples");
    IChannel* m = nullptr;
    for (auto* c : g->Channels()) if (!m && c->Type() == ChannelType::Master) m = c;
    auto o = CreateChannelObserver(*rd, *g, *m);
    sym_check(r.ReadData(*rd), "data read");
    for (int i = 0; i < 2; i++) {
      double v = -1;
      sym_check(o->GetChannelValue(i, v) && same_bits(v, (double)(int64_t)(t[i] - kStart) / 1'000'000'000.0), "relative time of a sample");
    }
    sym_cover("message stored");
  }
}

// ---------------------------------------------------------------- pre-trigger
namespace {
// Per data group: what is not older than start - pre-trigger time is stored, plus the last sample before that.
void pretrig(MdfWriterType type, int groups, bool compress, int before, bool spaced) {
  sym_expect("trimmed"); if (!spaced) sym_expect("kept");
  static const uint64_t kP[] = {0, kSec, 5 * kSec / 2};
  const uint64_t p = kP[sym_choose(3, "pretrig")];
  const uint64_t base = sym_choose(2, "epoch") ? kStart : 1;
  Meas m;
  m.setup(type, groups, false, compress, false, (double)p / 1e9);
  struct In { int g; One o; };
  std::vector<In> in;
  uint64_t t = base;
  for (int i = 0; i < before; i++) {
    in.push_back({i % groups, m.put(m.g[i % groups], t)});
    t += spaced ? kSec / 2 : sym<uint32_t>("dt");
  }
  const uint64_t start = t;
  m.w->StartMeasurement(start);
  t += sym<uint32_t>("dt");
  in.push_back({0, m.put(m.g[0], t)});
  m.stop();
  size_t first = 0;  // the last one that is too old stays as the value at the beginning
  for (size_t i = 1; i < in.size(); i++) if (sym_decide(in[i].o.t + p < start)) first = i;


  for (size_t i = first; i < in.size(); i++) m.g[in[i].g].want.push_back(in[i].o);
  sym_cover(first ? "trimmed" : "kept");
  m.verify(start);
}
}  // namespace
HARNESS(h_pretrig4) { pretrig(MdfWriterType::Mdf4Basic, 1 + (int)sym_choose(2, "groups"), sym_choose(2, "compress") != 0, 3, false); }
HARNESS(h_pretrig3) { pretrig(MdfWriterType::Mdf3Basic, 1 + (int)sym_choose(2, "groups"), false, 3, false); }
HARNESS(h_pretrig_many) { pretrig(sym_choose(2, "mdf3") ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic, 1, false, 8, true); }
