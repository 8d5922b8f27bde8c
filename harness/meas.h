// Measurements through the public interface.
#pragma once
#include "fx.h"
#include "mdf/mdffactory.h"
#include "mdf/mdfreader.h"
#include "mdf/mdfwriter.h"
#include "mdf/ichannelgroup.h"
#include "mdf/idatagroup.h"
#include "mdf/iheader.h"
#include "mdf/ichannelobserver.h"
namespace {
using namespace mdf;
IChannel* add_channel(IChannelGroup* cg, const char* name, ChannelDataType t, uint64_t bytes, ChannelType ct = ChannelType::FixedLength) {
  auto* c = MdfWriter::CreateChannel(cg);
  c->Name(name);
  c->Type(ct);
  c->DataType(t);
  c->DataBytes(bytes);
  return c;
}
IChannel* add_master(IChannelGroup* cg, bool mdf3 = false) {
  auto* c = add_channel(cg, "t", ChannelDataType::FloatLe, 8, ChannelType::Master);
  if (!mdf3) c->Sync(ChannelSyncType::Time);
  return c;
}
// an observer of channel `name` of group number `g`
ChannelObserverPtr observe(IDataGroup* dg, size_t g, const char* name) {
  auto groups = dg->ChannelGroups();
  size_t n = 0;
  for (auto* cg : groups) {
    if ((cg->Flags() & CgFlag::VlsdChannel) != 0) continue;
    if (n++ != g) continue;
    for (auto* c : cg->Channels())
      if (c->Name() == name) return CreateChannelObserver(*dg, *cg, *c);
  }
  return nullptr;
}
IChannelGroup* group_of(IDataGroup* dg, size_t g) {
  size_t n = 0;
  for (auto* cg : dg->ChannelGroups())
    if ((cg->Flags() & CgFlag::VlsdChannel) == 0 && n++ == g) return cg;
  return nullptr;
}
inline bool same_bits(double a, double b) { return dbits(a) == dbits(b); }
const uint64_t kSec = 1000000000ull;
const uint64_t kStart = 1700000000ull * kSec;
}  // namespace
