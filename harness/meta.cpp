// Metadata written with a measurement reads back unchanged.
#include "meas.h"
#include "mdf/iattachment.h"
#include "mdf/ievent.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ifilehistory.h"
#include "mdf/isourceinformation.h"
namespace {
// symbolic text of every length up to n; printable, no blanks at the ends, not XML
std::string text(const char* name, size_t n = 2, size_t min = 0) {
  const size_t len = min + sym_choose(n - min + 1, name);
  auto b = sym_vec(len, name);
  for (auto x : b) sym_assume(x > ' ' && x < 0x7f && x != '<');
  return std::string(b.begin(), b.end());
}
std::string text1(const char* name) { return text(name, 1, 1); }
double num(const char* n) { double d = sym<double>(n); sym_assume(d == d); return d; }
struct W {
  std::shared_ptr<MemFile> file = std::make_shared<MemFile>();
  std::unique_ptr<MdfWriter> w;
  IDataGroup* dg = nullptr;
  IChannelGroup* cg = nullptr;
  IChannel* c = nullptr;
  explicit W(MdfWriterType t = MdfWriterType::Mdf4Basic) {
    w = MdfFactory::CreateMdfWriter(t);
    w->Init(file);
    dg = w->CreateDataGroup();
    cg = MdfWriter::CreateChannelGroup(dg);
    add_master(cg, t == MdfWriterType::Mdf3Basic);
    c = add_channel(cg, "x", ChannelDataType::UnsignedIntegerLe, 4);
  }
  void finish(int samples = 1) {
    sym_check(w->InitMeasurement(), "measurement initialised");
    w->StartMeasurement(kStart);
    for (int i = 0; i < samples; i++) {
      c->SetChannelValue((uint32_t)(7 + i));
      w->SaveSample(*dg, *cg, kStart + i * kSec);
    }
    w->StopMeasurement(kStart + 10 * kSec);
    sym_check(w->FinalizeMeasurement(), "measurement finalised");
    w.reset();
  }
};
struct R {
  MdfReader r;
  IHeader* hd;
  explicit R(const std::shared_ptr<MemFile>& f) : r(f) {
    sym_check(r.IsOk() && r.ReadEverythingButData(), "the file can be read");
    hd = const_cast<IHeader*>(r.GetHeader());
  }
  void expect_data(int samples = 1) {
    auto* dg = r.GetDataGroup(0);
    auto o = observe(dg, 0, "x");
    sym_check(o && r.ReadData(*dg) && o->NofSamples() == (size_t)samples, "the data can be read");
    for (int i = 0; i < samples; i++) {
      uint64_t v = 0;
      sym_check(o->GetChannelValue(i, v) && v == 7u + i, "the data is intact");
    }
  }
};
}  // namespace
HARNESS(h_header4) {
  sym_expect("done");
  W w;
  const bool sa = sym_choose(2, "angle?"), sd = sym_choose(2, "distance?");
  const double a = num("angle"), d = num("distance");
  if (sa) w.w->Header()->StartAngle(a);
  if (sd) w.w->Header()->StartDistance(d);
  const size_t nfh = sym_choose(3, "fh");
  uint64_t t[2];
  for (size_t i = 0; i < nfh; i++) {
    t[i] = sym<uint64_t>("fh time");
    w.w->Header()->CreateFileHistory()->Time(t[i]);
  }
  w.finish();
  R r(w.file);
  sym_check(r.hd->StartTime() == kStart, "start time");
  auto ra = r.hd->StartAngle(), rd = r.hd->StartDistance();
  sym_check(ra.has_value() == sa && rd.has_value() == sd, "angle/distance presence");
  if (sa) sym_check(same_bits(*ra, a), "start angle");
  if (sd) sym_check(same_bits(*rd, d), "start distance");
  auto fh = r.hd->FileHistories();
  sym_check(fh.size() >= nfh, "number of file histories");
  for (size_t i = 0; i < nfh; i++) sym_check(fh[fh.size() - nfh + i]->Time() == t[i], "file history time");
  r.expect_data();
  sym_cover("done");
}
HARNESS(h_source4) {
  sym_expect("done");
  W w;
  auto n = text("name"), p = text("path");
  const uint8_t ty = sym<uint8_t>("type"), bus = sym<uint8_t>("bus"), fl = sym<uint8_t>("flags");
  const bool on_cg = sym_choose(2, "on group");
  ISourceInformation* si = on_cg ? w.cg->CreateSourceInformation() : w.c->CreateSourceInformation();
  si->Name(n); si->Path(p); si->Type((SourceType)ty); si->Bus((BusType)bus); si->Flags(fl);
  w.finish();
  R r(w.file);
  auto* cg = group_of(r.r.GetDataGroup(0), 0);
  auto* s = on_cg ? cg->SourceInformation() : cg->GetChannel("x")->SourceInformation();
  auto* other = on_cg ? cg->GetChannel("x")->SourceInformation() : cg->SourceInformation();
  sym_check(s != nullptr && other == nullptr, "source information on its owner");
  sym_check(s->Name() == n && s->Path() == p, "source name and path");
  sym_check((uint8_t)s->Type() == ty && (uint8_t)s->Bus() == bus && s->Flags() == fl, "source type, bus and flags");
  r.expect_data();
  sym_cover("done");
}
HARNESS(h_attachment4) {
  sym_expect("done");
  W w;
  const size_t n = 1 + sym_choose(2, "attachments");
  std::string name[2], type[2];
  uint16_t ci[2];
  IAttachment* at[2] = {nullptr, nullptr};
  for (size_t i = 0; i < n; i++) {
    at[i] = w.w->Header()->CreateAttachment();
    name[i] = i == 0 ? "/nowhere/a" : "/nowhere/bb";
    type[i] = text("file type");
    ci[i] = sym<uint16_t>("creator");
    at[i]->FileName(name[i]);
    at[i]->FileType(type[i]);
    at[i]->CreatorIndex(ci[i]);
  }
  const size_t ref = sym_choose(n + 1, "reference");  // n: none
  if (ref < n) w.c->AddAttachmentReference(at[ref]);
  w.finish();
  R r(w.file);
  auto list = r.hd->Attachments();
  sym_check(list.size() == n, "number of attachments");
  for (size_t i = 0; i < n; i++) {
    sym_check(list[i]->FileName() == name[i] && list[i]->FileType() == type[i], "attachment name and type");
    sym_check(list[i]->CreatorIndex() == ci[i] && !list[i]->IsEmbedded() && !list[i]->IsCompressed(), "attachment attributes");
  }
  auto refs = group_of(r.r.GetDataGroup(0), 0)->GetChannel("x")->AttachmentList();
  sym_check(refs.size() == (ref < n ? 1u : 0u), "attachment references of the channel");
  if (ref < n) sym_check(refs[0]->Index() == list[ref]->Index(), "the referenced attachment");
  r.expect_data();
  sym_cover("done");
}
HARNESS(h_event4) {
  sym_expect("done");
  W w;
  const bool with_at = sym_choose(2, "attachment");
  IAttachment* at = nullptr;
  if (with_at) { at = w.w->Header()->CreateAttachment(); at->FileName("/nowhere/a"); }
  auto* e0 = w.w->Header()->CreateEvent();
  e0->Name("e0");
  auto* e = w.w->Header()->CreateEvent();
  auto n = text("name"), g = text("group");
  const uint8_t ty = sym<uint8_t>("type"), sy = sym<uint8_t>("sync"), ra = sym<uint8_t>("range"), ca = sym<uint8_t>("cause");
  const uint16_t ci = sym<uint16_t>("creator");
  const int64_t sv = sym<int64_t>("sync value");
  const double sf = num("sync factor");
  e->Name(n); e->GroupName(g); e->Type((EventType)ty); e->Sync((SyncType)sy); e->Range((RangeType)ra); e->Cause((EventCause)ca);
  e->CreatorIndex(ci); e->SyncValue(sv); e->SyncFactor(sf);
  const bool parent = sym_choose(2, "parent"), range = sym_choose(2, "range event");
  if (parent) e->ParentEvent(e0);
  if (range) e->RangeEvent(e0);
  if (with_at) e->AddAttachment(at);
  const size_t scope = sym_choose(4, "scope");  // none, group, channel, both
  if (scope & 1) e->AddScope(w.cg);
  if (scope & 2) e->AddScope(w.c);
  w.finish();
  R r(w.file);
  auto list = r.hd->Events();
  sym_check(list.size() == 2 && list[0]->Name() == "e0", "events in order");
  auto* x = list[1];
  sym_check(x->Name() == n, "event name");
  sym_check(x->GroupName() == g, "event group name");
  sym_check((uint8_t)x->Type() == ty && (uint8_t)x->Sync() == sy && (uint8_t)x->Range() == ra && (uint8_t)x->Cause() == ca, "event type, sync, range and cause");
  sym_check(x->CreatorIndex() == ci && x->SyncValue() == sv && same_bits(x->SyncFactor(), sf), "event numbers");
  sym_check(parent ? x->ParentEvent() == list[0] : x->ParentEvent() == nullptr, "parent event");
  sym_check(range ? x->RangeEvent() == list[0] : x->RangeEvent() == nullptr, "range event");
  sym_check(x->Attachments().size() == (with_at ? 1u : 0u), "event attachments");
  if (with_at) sym_check(x->Attachments()[0]->Index() == r.hd->Attachments()[0]->Index(), "the event's attachment");
  auto* cg = group_of(r.r.GetDataGroup(0), 0);
  std::vector<int64_t> want;
  if (scope & 1) want.push_back(cg->Index());
  if (scope & 2) want.push_back(cg->GetChannel("x")->Index());
  sym_check(x->Scopes().size() == want.size(), "number of event scopes");
  for (size_t i = 0; i < want.size(); i++) {
    const auto* b = static_cast<const IBlock*>(x->Scopes()[i]);
    sym_check(b != nullptr && b->Index() == want[i], "event scope");
  }
  r.expect_data();
  sym_cover("done");
}
HARNESS(h_hierarchy4) {
  sym_expect("done");
  W w;
  auto n = text("name"), cn = text("child");
  const uint8_t ty = sym<uint8_t>("type");
  auto* h = w.w->Header()->CreateChannelHierarchy();
  h->Name(n);
  h->Type((ChType)ty);
  const bool child = sym_choose(2, "child?");
  if (child) h->CreateChannelHierarchy()->Name(cn);
  const size_t links = sym_choose(3, "links");
  for (size_t i = 0; i < links; i++) {
    ElementLink l;
    l.data_group = w.dg;
    l.channel_group = w.cg;
    l.channel = i == 0 ? w.c : w.cg->GetMasterChannel();
    h->AddElementLink(l);
  }
  w.finish();
  R r(w.file);
  auto list = r.hd->ChannelHierarchies();
  sym_check(list.size() == 1 && list[0]->Name() == n && (uint8_t)list[0]->Type() == ty, "hierarchy name and type");
  auto ch = list[0]->ChannelHierarchies();
  sym_check(ch.size() == (child ? 1u : 0u) && (!child || ch[0]->Name() == cn), "hierarchy children");
  auto& el = list[0]->ElementLinks();
  sym_check(el.size() == links, "number of hierarchy elements");
  auto* dg = r.r.GetDataGroup(0);
  auto* cg = group_of(dg, 0);
  for (size_t i = 0; i < links; i++) {
    sym_check(el[i].data_group == dg && el[i].channel_group == cg, "hierarchy element groups");
    sym_check(el[i].channel == (i == 0 ? cg->GetChannel("x") : cg->GetMasterChannel()), "hierarchy element channel");
  }
  r.expect_data();
  sym_cover("done");
}
HARNESS(h_group4) {
  sym_expect("done");
  W w;
  auto n = text("name");
  uint16_t fl = sym<uint16_t>("flags");
  sym_assume((fl & (CgFlag::VlsdChannel | CgFlag::RemoteMaster)) == 0);
  const uint16_t ps = sym<uint16_t>("separator");
  w.cg->Name(n);
  w.cg->Flags(fl);
  w.cg->PathSeparator((char16_t)ps);
  const int samples = (int)sym_choose(3, "samples");
  w.finish(samples);
  R r(w.file);
  auto* cg = r.r.GetDataGroup(0)->ChannelGroups()[0];
  sym_check(cg->Name() == n && cg->Flags() == fl && (uint16_t)cg->PathSeparator() == ps, "group name, flags and separator");
  sym_check(cg->NofSamples() == (size_t)samples, "number of samples");
  sym_check(cg->Channels().size() == 2 && cg->Channels()[0]->Name() == "t" && cg->Channels()[1]->Name() == "x", "channels in order");
  if (samples) r.expect_data(samples);
  sym_cover("done");
}
HARNESS(h_channel4) {
  sym_expect("done");
  W w;
  auto* c = MdfWriter::CreateChannel(w.cg);
  auto n = text("name");
  c->Name(n);
  const uint8_t dt = (uint8_t)sym_choose(11, "data type"), sy = sym<uint8_t>("sync");
  const bool prec = sym_choose(2, "precision?"), ra = sym_choose(2, "range?"), li = sym_choose(2, "limit?"), el = sym_choose(2, "ext limit?");
  c->Type(ChannelType::FixedLength);
  c->DataType((ChannelDataType)dt);
  c->DataBytes(4);
  c->Sync((ChannelSyncType)sy);
  uint32_t fl = sym<uint32_t>("flags");
  sym_assume((fl & (CnFlag::InvalidValid | CnFlag::DefaultX | CnFlag::PrecisionValid | CnFlag::RangeValid | CnFlag::LimitValid | CnFlag::ExtendedLimitValid)) == 0);
  c->Flags(fl);
  const double v[6] = {num("r0"), num("r1"), num("l0"), num("l1"), num("e0"), num("e1")};
  const uint8_t p = sym<uint8_t>("precision");
  if (prec) c->Decimals(p);
  if (ra) c->Range(v[0], v[1]);
  if (li) c->Limit(v[2], v[3]);
  if (el) c->ExtLimit(v[4], v[5]);
  const uint32_t all = c->Flags();
  w.finish();
  R r(w.file);
  auto list = group_of(r.r.GetDataGroup(0), 0)->Channels();
  sym_check(list.size() == 3, "number of channels");
  auto* x = list[2];
  sym_check(x->Name() == n && (uint8_t)x->DataType() == dt && x->Type() == ChannelType::FixedLength && (uint8_t)x->Sync() == sy, "channel name, types and sync");
  sym_check(x->Flags() == all && (x->Flags() & fl) == fl, "channel flags");
  sym_check(x->DataBytes() == 4 && x->BitCount() == 32 && x->BitOffset() == 0 && x->ByteOffset() == 12, "channel location");
  sym_check(x->IsDecimalUsed() == prec && (!prec || x->Decimals() == p), "channel precision");
  auto a = x->Range(), b = x->Limit(), e = x->ExtLimit();
  sym_check(a.has_value() == ra && b.has_value() == li && e.has_value() == el, "presence of limits");
  if (ra) sym_check(same_bits(a->first, v[0]) && same_bits(a->second, v[1]), "range");
  if (li) sym_check(same_bits(b->first, v[2]) && same_bits(b->second, v[3]), "limits");
  if (el) sym_check(same_bits(e->first, v[4]) && same_bits(e->second, v[5]), "extended limits");
  r.expect_data();
  sym_cover("done");
}
// default X axis and composition channels
HARNESS(h_links4) {
  sym_expect("done");
  W w;
  const bool at = sym_choose(2, "attachment"), other = sym_choose(2, "other group");
  IAttachment* a = nullptr;
  if (at) { a = w.w->Header()->CreateAttachment(); a->FileName("/nowhere/a"); w.c->AddAttachmentReference(a); }
  auto* dg2 = w.dg;
  auto* cg2 = w.cg;
  if (other) { cg2 = MdfWriter::CreateChannelGroup(w.dg); add_master(cg2); }
  auto* y = add_channel(cg2, "axis", ChannelDataType::UnsignedIntegerLe, 2);
  ElementLink l;
  l.data_group = dg2;
  l.channel_group = cg2;
  l.channel = y;
  w.c->DefaultX(l);
  auto n = text("sub", 2, 1);
  auto* sub = w.c->CreateChannelComposition(n);
  sub->Type(ChannelType::FixedLength);
  sub->DataType(ChannelDataType::UnsignedIntegerLe);
  const uint16_t bo = sym_choose(8, "bit offset");
  const uint32_t bc = sym<uint32_t>("bit count"), by = sym<uint32_t>("byte offset");
  sub->ByteOffset(by);
  sub->BitOffset(bo);
  sub->BitCount(bc);
  w.finish();
  R r(w.file);
  auto* dg = r.r.GetDataGroup(0);
  auto* cg = group_of(dg, 0);
  auto* c = cg->GetChannel("x");
  auto* ry = group_of(dg, other ? 1 : 0)->GetChannel("axis");
  sym_check(c != nullptr && ry != nullptr, "channels found");
  auto dx = c->DefaultX();
  sym_check(dx.channel == ry && dx.data_group == dg && dx.channel_group == group_of(dg, other ? 1 : 0), "default X axis");
  sym_check(cg->GetXChannel(*c) == ry, "X channel");
  sym_check(c->AttachmentList().size() == (at ? 1u : 0u), "attachment reference");
  auto comp = c->ChannelCompositions();
  sym_check(comp.size() == 1 && comp[0]->Name() == n, "composition");
  sym_check(comp[0]->BitOffset() == bo && comp[0]->BitCount() == bc && comp[0]->ByteOffset() == by, "composition location");
  r.expect_data();
  sym_cover("done");
}
// every block starts on an 8 byte boundary and has the length its header declares
HARNESS(h_align4) {
  sym_expect("done");
  W w;
  const size_t len = sym_choose(9, "len");
  w.cg->Name(std::string(len, 'n'));
  w.cg->CreateSourceInformation()->Name(std::string(len / 2, 'm'));
  w.w->CompressData(sym_choose(2, "compress"));
  w.finish(2);
  const auto& d = w.file->d;
  size_t p = 64;
  int blocks = 0;
  while (p < d.size()) {
    sym_check(p + 24 <= d.size() && d[p] == '#' && d[p + 1] == '#', "a block header on every 8 byte boundary");
    uint64_t n = 0, links = 0;
    for (int i = 7; i >= 0; i--) { n = n << 8 | d[p + 8 + i]; links = links << 8 | d[p + 16 + i]; }
    n = sym_concrete(n);
    sym_check(n >= 24 + 8 * links && p + n <= d.size(), "declared block length");
    const size_t q = p + n;
    for (uint64_t l = 0; l < links; l++) {
      uint64_t t = 0;
      for (int i = 7; i >= 0; i--) t = t << 8 | d[p + 24 + 8 * l + i];
      t = sym_concrete(t);
      sym_check(t % 8 == 0 && (t == 0 || (t >= 64 && t < d.size() && d[t] == '#' && d[t + 1] == '#')), "links point at blocks");
    }
    p = (q + 7) / 8 * 8;
    blocks++;
  }
  sym_check(blocks >= 6, "blocks");
  sym_cover("done");
}
HARNESS(h_header3) {
  sym_expect("done");
  W w(MdfWriterType::Mdf3Basic);
  auto a = text("author"), d = text("department"), p = text("project"), s = text("subject"), de = text("description");
  auto* hd = w.w->Header();
  hd->Author(a); hd->Department(d); hd->Project(p); hd->Subject(s); hd->Description(de);
  w.finish();
  R r(w.file);
  sym_check(r.hd->Author() == a, "author");
  sym_check(r.hd->Department() == d, "department");
  sym_check(r.hd->Project() == p, "project");
  sym_check(r.hd->Subject() == s, "subject");
  sym_check(r.hd->Description() == de, "description");
  sym_check(r.hd->StartTime() == kStart, "start time");
  r.expect_data();
  sym_cover("done");
}
HARNESS(h_channel3) {
  sym_expect("done");
  W w(MdfWriterType::Mdf3Basic);
  static const size_t lens[] = {1, 2, 30, 31, 32, 33, 40};
  const size_t len = lens[sym_choose(7, "length")];
  std::string n(len, 'n');
  {
    auto first = sym<uint8_t>("c0"), last = sym<uint8_t>("c1");
    sym_assume(first > ' ' && first < 0x7f && last > ' ' && last < 0x7f);
    n[len - 1] = (char)last;
    n[0] = (char)first;
  }
  auto disp = text("display"), desc = text("description"), gdesc = text("group description"), unit = text("unit");
  const double rate = num("rate");
  w.c->Name(n);
  w.c->DisplayName(disp);
  w.c->Description(desc);
  w.c->SamplingRate(rate);
  w.c->Unit(unit);
  w.cg->Description(gdesc);
  w.finish();
  MdfReader rd(w.file);
  sym_check(rd.IsOk() && rd.ReadEverythingButData(), "the file can be read");
  auto* dg = rd.GetDataGroup(0);
  auto* cg = group_of(dg, 0);
  sym_check(cg && cg->Channels().size() == 2, "channels");
  IChannel* x = nullptr;
  for (auto* c : cg->Channels()) if (c->Type() != ChannelType::Master) x = c;
  sym_check(x != nullptr, "the channel");
  sym_check(x->Name() == n, "channel name");
  sym_check(x->DisplayName() == disp, "display name");
  sym_check(x->Description() == desc, "description");
  sym_check(same_bits(x->SamplingRate(), rate), "sampling rate");
  sym_check(x->Unit() == unit, "unit");
  sym_check(cg->Description() == gdesc, "group description");
  auto o = CreateChannelObserver(*dg, *cg, *x);
  uint64_t v = 0;
  sym_check(rd.ReadData(*dg) && o->NofSamples() == 1 && o->GetChannelValue(0, v) && v == 7, "the data is intact");
  sym_cover("done");
}
