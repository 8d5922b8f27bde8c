// Bus messages logged with the predefined bus configurations.
#include "meas.h"
#include "mdf/canbusobserver.h"
#include "mdf/canmessage.h"
#include "mdf/linmessage.h"
#include "mdf/ethmessage.h"
#include "mdf/mostmessage.h"
#include "mdf/flexraymessage.h"
#include "mdf/flexrayconfigadapter.h"
namespace {
using Bytes = std::vector<uint8_t>;
struct Cfg { MdfWriterType type; MdfStorageType storage; uint32_t max; bool mandatory, compress; };
struct Log {
  std::shared_ptr<MemFile> file = std::make_shared<MemFile>();
  std::unique_ptr<MdfWriter> w;
  IDataGroup* dg = nullptr;
  Log(uint16_t bus, const Cfg& c) {
    w = MdfFactory::CreateMdfWriter(c.type);
    w->Init(file);
    w->BusType(bus);
    w->StorageType(c.storage);
    w->MaxLength(c.max);
    w->MandatoryMembersOnly(c.mandatory);
    w->CompressData(c.compress);
    sym_check(w->CreateBusLogConfiguration(), "bus configuration created");
    dg = w->Header()->LastDataGroup();
    if (bus == MdfBusType::FlexRay && dg->ChannelGroups().empty()) { FlexRayConfigAdapter a(*w); a.CreateConfig(*dg); }
  }
  IChannelGroup* group(const char* part) {
    for (auto* cg : dg->ChannelGroups()) if (cg->Name().find(part) != std::string::npos) return cg;
    sym_check(false, "the configured group exists");
    return nullptr;
  }
  void start() { sym_check(w->InitMeasurement(), "measurement initialised"); w->StartMeasurement(kStart); }
  void finish() {
    w->StopMeasurement(kStart + 1000 * kSec);
    sym_check(w->FinalizeMeasurement(), "measurement finalised");
    w.reset();
  }
};
Cfg any_cfg() {
  Cfg c;
  const size_t k = sym_choose(3, "writer");
  c.type = k == 2 ? MdfWriterType::MdfBusLogger : MdfWriterType::Mdf4Basic;
  c.compress = k != 0;
  const size_t s = sym_choose(3, "storage");
  c.storage = s == 0 ? MdfStorageType::MlsdStorage : s == 1 ? MdfStorageType::VlsdStorage : MdfStorageType::FixedLengthStorage;
  c.max = sym_choose(2, "max") ? 12 : 8;
  c.mandatory = sym_choose(2, "mandatory") != 0;
  return c;
}
bool flag(const char* n) { return sym_bool(n); }
CanMessage any_can(size_t max, bool with_data) {
  CanMessage m;
  m.BusChannel(sym<uint8_t>("bus"));
  const uint32_t id = sym<uint32_t>("id");
  sym_assume(id < 0x20000000);
  m.MessageId(id);
  m.ExtendedId(flag("ext") || id > 0x7ff);
  if (with_data) {
    static const size_t l[] = {0, 1, 8, 12};
    const size_t n = l[sym_choose(max >= 12 ? 4 : 3, "length")];
    m.DataBytes(sym_vec(n, "data"));
  }
  m.Dlc(sym<uint8_t>("dlc") & 0x0f);
  m.Dir(flag("dir")); m.Srr(flag("srr")); m.Edl(flag("edl")); m.Brs(flag("brs")); m.Esi(flag("esi"));
  m.WakeUp(flag("wake")); m.SingleWire(flag("single")); m.R0(flag("r0")); m.R1(flag("r1"));
  m.FrameDuration(sym<uint32_t>("duration"));
  m.Crc(sym<uint32_t>("crc"));
  m.BitPosition(sym<uint16_t>("position"));
  const uint8_t e = sym<uint8_t>("error");
  sym_assume(e <= 5);
  m.ErrorType((CanErrorType)e);
  return m;
}
void expect_can(const CanMessage& r, const CanMessage& m, MessageType type, bool mandatory) {
  sym_check(r.BusChannel() == m.BusChannel(), "bus channel");
  if (type == MessageType::CAN_OverloadFrame) { sym_check(r.Dir() == m.Dir(), "direction"); return; }
  sym_check(r.CanId() == m.CanId() && r.ExtendedId() == m.ExtendedId() && r.MessageId() == m.MessageId(), "message identifier");
  sym_check(r.Dlc() == m.Dlc(), "data length code");
  sym_check(r.DataLength() == m.DataLength(), "data length");
  if (type != MessageType::CAN_RemoteFrame) sym_check(r.DataBytes() == m.DataBytes(), "data bytes");
  if (mandatory && type != MessageType::CAN_ErrorFrame) return;
  sym_check(r.Dir() == m.Dir(), "direction");
  sym_check(r.Srr() == m.Srr() && r.WakeUp() == m.WakeUp() && r.SingleWire() == m.SingleWire(), "SRR, wake up and single wire flags");
  sym_check(r.R0() == m.R0() && r.R1() == m.R1(), "reserved flags");
  if (type != MessageType::CAN_RemoteFrame) sym_check(r.Edl() == m.Edl() && r.Brs() == m.Brs() && r.Esi() == m.Esi(), "CAN FD flags");
  sym_check(r.FrameDuration() == m.FrameDuration(), "frame duration");
  sym_check(r.Crc() == m.Crc(), "checksum");
  if (type == MessageType::CAN_ErrorFrame) sym_check(r.ErrorType() == m.ErrorType() && r.BitPosition() == m.BitPosition(), "error type and bit position");
}
const char* kCan[] = {"_DataFrame", "_RemoteFrame", "_ErrorFrame", "_OverloadFrame"};
// n messages of one type, optionally with a data frame in between
void can_log(MessageType type, bool callback) {
  sym_expect("done");
  const Cfg c = any_cfg();
  if (type == MessageType::CAN_OverloadFrame) sym_assume(!c.mandatory);
  Log log(MdfBusType::CAN, c);
  auto* cg = log.group(kCan[(int)type]);
  auto* other = log.group("_DataFrame");
  const bool mixed = type != MessageType::CAN_DataFrame && (TIER ? sym_choose(2, "mixed") != 0 : callback);
  log.start();
  CanMessage m[2];
  for (int i = 0; i < 2; i++) {
    m[i] = any_can(c.max, type == MessageType::CAN_DataFrame || type == MessageType::CAN_ErrorFrame);
    if (mixed) { CanMessage x; x.MessageId(5); x.DataBytes({1, 2, 3}); log.w->SaveCanMessage(*log.dg, *other, kStart + i * kSec, x); }
    log.w->SaveCanMessage(*log.dg, *cg, kStart + (i + 1) * kSec, m[i]);
  }
  log.finish();
  MdfReader r(log.file);
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* dg = r.GetDataGroup(0);
  IChannelGroup* rg = nullptr;
  for (auto* g : dg->ChannelGroups()) if (g->Name().find(kCan[(int)type]) != std::string::npos) rg = g;
  sym_check(rg != nullptr && rg->NofSamples() == 2, "number of messages");
  CanBusObserver o(*dg, *rg);
  std::vector<CanMessage> got;
  if (callback) o.OnCanMessage = [&](uint64_t sample, const CanMessage& x) {
      sym_check(sample == got.size(), "messages arrive in order");
      got.push_back(x);
      return true;
    };
  sym_check(r.ReadData(*dg), "the data can be read");
  if (!callback)
    for (int i = 0; i < 2; i++) { auto* x = o.GetCanMessage(i); sym_check(x != nullptr, "message available"); got.push_back(*x); }
  sym_check(got.size() == 2, "number of delivered messages");
  for (int i = 0; i < 2; i++) {
    expect_can(got[i], m[i], type, c.mandatory);
    sym_check(got[i].Timestamp() == i + 1.0, "message time");
    sym_check(got[i].TypeOfMessage() == type, "message type");
  }
  sym_cover("done");
}

// ---- the other buses: the members of a message are channels of its group
struct Field { const char* name; uint64_t v; int kind; };   // kind 0 unsigned, 1 signed, 2 float
struct Msg {
  std::vector<Field> f;
  bool has_data = false;
  const char* data_name = ".DataBytes";
  Bytes data, src, dst;
  void u(const char* n, uint64_t v) { f.push_back({n, v, 0}); }
  void s(const char* n, int64_t v) { f.push_back({n, (uint64_t)v, 1}); }
  void fl(const char* n, uint32_t bits) { f.push_back({n, bits, 2}); }
  void d(const Bytes& b, const char* n = ".DataBytes") { has_data = true; data = b; data_name = n; }
};
struct Readback {
  ChannelObserverList list;
  const IChannelObserver* find(const std::string& suffix) {
    for (auto& o : list) {
      const std::string n = o->Name();
      if (n.size() >= suffix.size() && n.compare(n.size() - suffix.size(), suffix.size(), suffix) == 0) return o.get();
    }
    sym_check(false, "the message member has a channel");
    return nullptr;
  }
  void expect(uint64_t i, const Msg& m) {
    for (const auto& f : m.f) {
      auto* o = find(f.name);
      if (f.kind == 0) { uint64_t v = 0; sym_check(o->GetChannelValue(i, v) && v == f.v, "message member"); }
      if (f.kind == 1) { int64_t v = 0; sym_check(o->GetChannelValue(i, v) && v == (int64_t)f.v, "signed message member"); }
      if (f.kind == 2) { float v = 0; uint32_t b; sym_check(o->GetChannelValue(i, v), "float member valid"); memcpy(&b, &v, 4); sym_check(b == (uint32_t)f.v, "float message member"); }
    }
    auto bytes = [&](const char* n, const Bytes& want, bool prefix) {
      Bytes v;
      sym_check(find(n)->GetChannelValue(i, v), "bytes valid");
      if (prefix) { sym_check(v.size() >= want.size(), "data length"); v.resize(want.size()); }
      sym_check(v == want, "message bytes");
    };
    if (m.has_data) bytes(m.data_name, m.data, true);
    if (!m.src.empty()) { bytes(".Source", m.src, false); bytes(".Destination", m.dst, false); }
    double t = 0;
    sym_check(find("t")->GetEngValue(i, t) && t == i + 1.0, "message time");
  }
};
// save(i) saves message number i and tells what has to be read back
template <class F> void bus_log(Log& log, IChannelGroup* cg, const char* part, F save) {
  const bool vl = true; (void)vl;
  log.start();
  Msg m[2];
  for (int i = 0; i < 2; i++) m[i] = save(i, kStart + (i + 1) * kSec);
  log.finish();
  MdfReader r(log.file);
  sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
  auto* dg = r.GetDataGroup(0);
  IChannelGroup* rg = nullptr;
  for (auto* g : dg->ChannelGroups()) if (g->Name().find(part) != std::string::npos && !rg) rg = g;
  sym_check(rg != nullptr && rg->NofSamples() == 2, "number of messages");
  Readback b;
  CreateChannelObserverForChannelGroup(*dg, *rg, b.list);
  sym_check(r.ReadData(*dg), "the data can be read");
  for (int i = 0; i < 2; i++) b.expect(i, m[i]);
  sym_cover("done");
}
Cfg small_cfg() {
  Cfg c;
  const size_t k = sym_choose(2, "writer");
  c.type = k == 1 ? MdfWriterType::MdfBusLogger : MdfWriterType::Mdf4Basic;
  c.compress = k != 0;
  c.storage = sym_choose(2, "storage") ? MdfStorageType::FixedLengthStorage : MdfStorageType::VlsdStorage;
  c.max = 8;
  c.mandatory = sym_choose(2, "mandatory") != 0;
  return c;
}
uint64_t below(const char* n, uint64_t lim) { const uint64_t v = sym<uint16_t>(n); sym_assume(v < lim); return v; }
void lin(size_t type) {
  static const char* part[] = {"_Frame", "_WakeUp", "_ChecksumError", "_TransmissionError", "_SyncError", "_ReceiveError", "_Spike", "_LongDom"};
  sym_expect("done");
  const Cfg c = small_cfg();
  Log log(MdfBusType::LIN, c);
  auto* cg = log.group(part[type]);
  bus_log(log, cg, part[type], [&](int, uint64_t t) {
    LinMessage m;
    Msg e;
    const uint8_t bus = sym<uint8_t>("bus");
    const uint8_t id = (uint8_t)below("id", 64), rec = (uint8_t)below("received", 16), exp = (uint8_t)below("expected", 16), lt = (uint8_t)below("dominant", 3), crc = sym<uint8_t>("crc");
    const bool dir = flag("dir");
    const Bytes data = sym_vec(sym_choose(2, "len") ? 8 : 1, "data");
    const int model = (int)below("model", 3) - 1;
    const uint64_t sof = sym<uint64_t>("sof");
    const uint32_t bl = sym<uint32_t>("break"), dl = sym<uint32_t>("delimiter"), tl = sym<uint32_t>("total"), br = sym<uint32_t>("baud"), rbr = sym<uint32_t>("rbaud");
    sym_assume((br & 0x7f800000) != 0x7f800000 && (rbr & 0x7f800000) != 0x7f800000);
    float bf, rbf; memcpy(&bf, &br, 4); memcpy(&rbf, &rbr, 4);
    m.BusChannel(bus); m.LinId(id); m.Dir(dir); m.DataBytes(data); m.ReceivedDataByteCount(rec); m.Checksum(crc); m.ChecksumModel((LinChecksumModel)model);
    m.StartOfFrame(sof); m.Baudrate(bf); m.ResponseBaudrate(rbf); m.BreakLength(bl); m.DelimiterBreakLength(dl); m.ExpectedDataByteCount(exp);
    m.TypeOfLongDominantSignal((LinTypeOfLongDominantSignal)lt); m.TotalSignalLength(tl);
    log.w->SaveLinMessage(*log.dg, *cg, t, m);
    e.u(".BusChannel", bus);
    if (type == 0 || type == 2 || type == 3 || type == 5) e.u(".ID", id);
    if (type == 0 || type == 2) e.u(".Dir", dir);
    if (type == 0) { e.u(".ReceivedDataByteCount", rec); e.u(".DataLength", data.size()); e.d(data); }
    if (c.mandatory && (type == 0 || type == 2 || type == 3)) return e;
    if (type == 2 || type == 5) { e.u(".ReceivedDataByteCount", rec); e.u(".DataLength", data.size()); e.d(data); }
    if (type == 0 || type == 2) e.u(".Checksum", crc);
    if (type == 3 || type == 5) e.u(".SpecifiedDataByteCount", exp);
    if (type == 0 || type == 2 || type == 3 || type == 5) e.s(".ChecksumModel", model);
    e.u(".SOF", sof);
    e.fl(".Baudrate", br);
    if (type == 0 || type == 2 || type == 5) e.fl(".ResponseBaudrate", rbr);
    if (type == 0 || type == 2 || type == 3 || type == 4 || type == 5) { e.u(".BreakLength", bl); e.u(".BreakDelimiterLength", dl); }
    if (type == 7) { e.u(".Length", tl); e.u(".Type", lt); }
    return e;
  });
}
void eth(size_t type) {
  static const char* part[] = {"_Frame", "_ChecksumError", "_LengthError", "_ReceiveError"};
  sym_expect("done");
  const Cfg c = small_cfg();
  Log log(MdfBusType::Ethernet, c);
  auto* cg = log.group(part[type]);
  bus_log(log, cg, part[type], [&](int, uint64_t t) {
    EthMessage m;
    Msg e;
    const uint8_t bus = sym<uint8_t>("bus");
    const uint16_t et = sym<uint16_t>("ethertype"), rec = sym<uint16_t>("received"), pad = sym<uint16_t>("padding");
    const uint32_t crc = sym<uint32_t>("crc"), ecrc = sym<uint32_t>("expected crc");
    const bool dir = flag("dir"), err = flag("error");
    const Bytes data = sym_vec(sym_choose(2, "len") ? 9 : 1, "data"), src = sym_vec(6, "source"), dst = sym_vec(6, "destination");
    m.BusChannel(bus); m.Dir(dir); m.ErrorType(err ? (EthErrorType)1 : (EthErrorType)0); m.Source(src.data()); m.Destination(dst.data()); m.EthType(et);
    m.DataBytes(data); m.ReceivedDataByteCount(rec); m.Crc(crc); m.ExpectedCrc(ecrc); m.PaddingByteCount(pad);
    log.w->SaveEthMessage(*log.dg, *cg, t, m);
    e.u(".BusChannel", bus); e.u(".EtherType", et);
    e.src = src; e.dst = dst;
    if (type == 1) { e.u(".ReceivedCRC", crc); e.u(".ExpectedCRC", ecrc); e.u(".DataLength", data.size()); }
    else e.u(".ReceivedDataByteCount", rec);
    if (type == 0) { e.u(".DataLength", data.size()); e.d(data); }
    if (c.mandatory) return e;
    e.d(data);
    if (type == 1) e.u(".ReceivedDataByteCount", rec); else { e.u(".CRC", crc); e.u(".DataLength", data.size()); }
    e.u(".Dir", dir); e.u(".PadByteCount", pad);
    if (type == 3) e.u(".ErrorType", err);
    return e;
  });
}
void most(size_t type) {
  static const char* part[] = {"_Message", "_Packet", "_EthernetPacket", "_SignalState", "_MaxPosInfo", "_BoundDesc", "_AllocTable", "_SysLockState", "_ShutdownFlag"};
  sym_expect("done");
  const Cfg c = small_cfg();
  Log log(MdfBusType::MOST, c);
  auto* cg = log.group(part[type]);
  bus_log(log, cg, part[type], [&](int, uint64_t t) {
    Msg e;
    const uint8_t bus = sym<uint8_t>("bus");
    e.u(".BusChannel", bus);
    auto save = [&](IMostEvent& m) { m.BusChannel(bus); log.w->SaveMostMessage(*log.dg, *cg, t, m); };
    if (type >= 3) {
      const uint8_t b = sym<uint8_t>("value");
      const uint16_t w = sym<uint16_t>("word");
      const bool f = flag("flag");
      if (type == 3) { sym_assume(b <= 3 || b == 16 || b == 32); MostSignalState m; m.SignalState((MostStateOfSignal)b); save(m); e.u(".State", b); }
      if (type == 4) { MostMaxPosInfo m; m.DeviceCount(b); save(m); e.u(".DeviceCount", b); }
      if (type == 5) { MostBoundDesc m; m.BoundaryCount(w); save(m); e.u(".SBC", w); }
      if (type == 6) {
        MostAllocTable m;
        const Bytes d = sym_vec(sym_choose(2, "len") ? 9 : 1, "table");
        m.FreeByteCount(w); m.TableLayout(f ? MostTableLayout::LabelList : MostTableLayout::ChannelResourceAllocationTable); m.TableData(d); save(m);
        e.u(".FreeByteCount", w); e.u(".TableLayout", f); e.u(".TableLength", d.size()); e.d(d, ".TableData");
      }
      if (type == 7) { MostSysLockState m; m.RingIsClosed(f); save(m); e.u(".SysLockState", f); }
      if (type == 8) { MostShutdownFlag m; m.ShutdownFlag(f); save(m); e.u(".ShutdownFlag", f); }
      return e;
    }
    const uint8_t speed = (uint8_t)below("speed", 3), cack = (uint8_t)below("cack", 5), pack = (uint8_t)below("pack", 5), ack = (uint8_t)below("ack", 16), idx = sym<uint8_t>("index"), rt = (uint8_t)below("rtype", 6);
    const bool tt = flag("transfer"), dir = flag("dir"), fail = flag("failed");
    const uint64_t src = sym<uint64_t>("src") & (type == 2 ? 0xffffffffffffull : 0xffffull), dst = sym<uint64_t>("dst") & (type == 2 ? 0xffffffffffffull : 0xffffull);
    const uint16_t spec = sym<uint16_t>("specified"), rec = sym<uint16_t>("received");
    const uint32_t crc = sym<uint32_t>("crc");
    const Bytes d = sym_vec(sym_choose(2, "len") ? 9 : 1, "data");
    auto base = [&](MostEthernetPacket& m) {
      m.Speed((MostSpeed)speed); m.TransferType(tt ? MostTransferType::Node : MostTransferType::Spy); m.Direction(dir ? MostDirection::Tx : MostDirection::Rx);
      m.Source(src); m.Destination(dst); m.DataBytes(d); m.SpecifiedNofBytes(spec); m.ReceivedNofBytes(rec); m.Crc(crc);
      m.CompleteAck((MostCompleteAck)cack); m.PreemptiveAck((MostPreemptiveAck)pack); m.TxAck(ack);
    };
    if (type == 2) { MostEthernetPacket m; base(m); save(m); }
    if (type == 1) { MostPacket m; base(m); m.PacketIndex(idx); save(m); }
    if (type == 0) { MostMessage m; base(m); m.PacketIndex(idx); m.TxFailed(fail); m.ControlMessageType((MostControlMessageType)rt); save(m); }
    e.u(".Speed", speed); e.u(".TransferType", tt); e.u(".Dir", dir); e.u(".Source", src); e.u(".Destination", dst);
    e.u(".SpecifiedDataByteCount", spec); e.u(".ReceivedDataByteCount", rec); e.u(".DataLength", d.size()); e.d(d);
    if (c.mandatory) return e;
    e.u(".CRC", crc); e.u(".CAck", cack); e.u(".PAck", pack); e.u(".AckNAck", ack);
    if (type <= 1) e.u(".PIndex", idx);
    if (type == 0) { e.u(".TxFailed", fail); e.u(".RType", rt); }
    return e;
  });
}
void flexray(size_t type) {
  static const char* part[] = {"_Frame", "_Pdu", "_FrameHeader", "_NullFrame", "_ErrorFrame", "_Symbol"};
  sym_expect("done");
  const Cfg c = small_cfg();
  Log log(MdfBusType::FlexRay, c);
  auto* cg = log.group(part[type]);
  bus_log(log, cg, part[type], [&](int, uint64_t t) {
    Msg e;
    const uint8_t bus = sym<uint8_t>("bus"), cycle = (uint8_t)below("cycle", 64), len = sym<uint8_t>("length");
    const uint16_t id = (uint16_t)below("id", 2048);
    const bool ch = flag("channel"), dir = flag("dir");
    const Bytes d = sym_vec(sym_choose(2, "len") ? 9 : 1, "data");
    e.u(".BusChannel", bus); e.u(".Cycle", cycle);
    auto save = [&](IFlexRayEvent& m) {
      m.BusChannel(bus); m.FrameId(id); m.CycleCount(cycle); m.Channel(ch ? FlexRayChannel::B : FlexRayChannel::A); m.Direction(dir ? FlexRayDirection::Tx : FlexRayDirection::Rx);
      log.w->SaveFlexRayMessage(*log.dg, *cg, t, m);
    };
    if (type == 5) {
      FlexRaySymbol m;
      const uint8_t mask = (uint8_t)below("mask", 4), st = (uint8_t)below("symbol", 4);
      sym_assume(mask > 0);
      m.ChannelMask((FlexRayChannelMask)mask); m.Length(len); m.Type((FlexRaySymbolType)st); save(m);
      e.u(".FlxChannelMask", mask);
      if (!c.mandatory) { e.u(".SymbolLength", len); e.u(".SymbolType", st); }
      return e;
    }
    e.u(".ID", id); e.u(".FlxChannel", ch);
    if (type == 1) {
      FlexRayPdu m;
      const bool mux = flag("mux"), valid = flag("valid");
      const uint16_t sw = sym<uint16_t>("switch"), up = (uint16_t)below("update", 4096);
      const uint8_t bo = sym<uint8_t>("byte offset"), bi = (uint8_t)below("bit offset", 8);
      m.Length(len); m.DataBytes(d); m.Multiplexed(mux); m.Switch(sw); m.Valid(valid); m.UpdateBitPos(up); m.ByteOffset(bo); m.BitOffset(bi); save(m);
      e.u(".PduLength", len); e.u(".DataLength", d.size()); e.d(d);
      if (!c.mandatory) { e.u(".IsMultiplexed", mux); e.u(".Switch", sw); e.u(".ValidFlag", valid); e.u(".UpdateBitPos", up); e.u(".PduByteOffset", bo); e.u(".PduBitOffset", bi); }
      return e;
    }
    const uint32_t crc = sym<uint32_t>("crc") & 0xffffff, fl = sym<uint32_t>("frame length");
    const uint16_t hcrc = sym<uint16_t>("header crc");
    const bool res = flag("reserved"), pre = flag("preamble"), sync = flag("sync"), st = flag("startup"), nf = flag("null");
    auto base = [&](FlexRayFrame& m) {
      m.PayloadLength(len); m.Crc(crc); m.HeaderCrc(hcrc); m.Reserved(res); m.PayloadPreamble(pre); m.SyncFrame(sync); m.StartupFrame(st); m.FrameLength(fl);
      if (type != 3) m.NullFrame(nf ? FlexRayNullFlag::NormalFrame : FlexRayNullFlag::NullFrame);
    };
    const bool f0 = flag("f0"), f1 = flag("f1"), f2 = flag("f2"), f3 = flag("f3"), f4 = flag("f4");
    if (type == 0) { FlexRayFrame m; base(m); m.DataBytes(d); save(m); }
    if (type == 2) { FlexRayFrameHeader m; base(m); m.FillDataBytes(d); save(m); }
    if (type == 3) { FlexRayNullFrame m; base(m); m.DataBytes(d); save(m); }
    if (type == 4) { FlexRayErrorFrame m; base(m); m.DataBytes(d); m.Syntax(f0); m.Content(f1); m.Boundary(f2); m.TxConflict(f3); m.Valid(f4); save(m); }
    e.u(".Dir", dir);
    if (type == 0) { e.u(".PayloadLength", len); e.u(".DataLength", d.size()); e.d(d); }
    if (type == 2) e.u(".PayloadLength", len);
    if (c.mandatory) return e;
    if (type == 3 || type == 4) { e.u(".PayloadLength", len); e.u(".DataLength", d.size()); e.d(d); }
    if (type == 2) { e.u(".FillDataLength", d.size()); e.d(d, ".FillDataBytes"); }
    e.u(".CRC", crc); e.u(".HeaderCRC", hcrc); e.u(".ReservedBitFlag", res); e.u(".PayloadPreambleFlag", pre); e.u(".SyncFrameFlag", sync); e.u(".StartUpFrameFlag", st); e.u(".FrameLength", fl);
    e.u(".NullFrameFlag", type == 3 ? 0 : nf);
    if (type == 4) { e.u(".IsSyntaxError", f0); e.u(".IsContentError", f1); e.u(".IsSlotBndViolation", f2); e.u(".IsTxConflict", f3); e.u(".IsValidFrame", f4); }
    return e;
  });
}
}  // namespace
HARNESS(h_can_data) { can_log(MessageType::CAN_DataFrame, false); }
HARNESS(h_can_data_cb) { can_log(MessageType::CAN_DataFrame, true); }
HARNESS(h_can_remote) { can_log(MessageType::CAN_RemoteFrame, sym_choose(2, "callback") != 0); }
HARNESS(h_can_error) { can_log(MessageType::CAN_ErrorFrame, sym_choose(2, "callback") != 0); }
HARNESS(h_can_overload) { can_log(MessageType::CAN_OverloadFrame, sym_choose(2, "callback") != 0); }

HARNESS(h_lin_a) { lin(sym_choose(4, "type")); }
HARNESS(h_lin_b) { lin(4 + sym_choose(4, "type")); }
HARNESS(h_eth) { eth(sym_choose(4, "type")); }
HARNESS(h_most_a) { most(sym_choose(3, "type")); }
HARNESS(h_most_b) { most(3 + sym_choose(6, "type")); }
HARNESS(h_flexray_a) { flexray(sym_choose(3, "type")); }
HARNESS(h_flexray_b) { flexray(3 + sym_choose(3, "type")); }
