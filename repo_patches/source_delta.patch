From 683d76d5f784a6092d2eb00d8b0cdb16f6058673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:16 +0000
Subject: [PATCH 01/48] fix: big-endian integer channel write past the end of
 the sample record

The bounds check used the start of the element instead of its end, so a value
that did not fit in the record was still copied past the buffer.
---
 mdflib/src/ichannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 5c055ce..d26911a 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -346,7 +346,7 @@ void IChannel::SetUnsignedValueBe(uint64_t value, bool valid, uint64_t array_ind
   }
   const auto bytes = static_cast<size_t>(DataBytes());
   const auto max_bytes = ByteOffset() +
-                         (bytes * array_index);
+                         (bytes * (array_index + 1));
   if (max_bytes > buffer.size()) {
     SetValid(false, array_index);
     return;
-- 
2.43.0


From 5b5dca617b919dbbe4c485dcc9076be958899be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:16 +0000
Subject: [PATCH 02/48] fix: invalid variable length value was marked as valid

The index write of a VLSD value reset the invalidation bit.
---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index c5d2345..98828eb 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -826,7 +826,7 @@ void Cn4Block::SetTextValue(const std::string &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
@@ -855,7 +855,7 @@ void Cn4Block::SetByteArray(const std::vector<uint8_t> &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
-- 
2.43.0


From 6596e1e6aec5f70446042d04597f9f790c54f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:16 +0000
Subject: [PATCH 03/48] fix: VLSD index close to 2^64 read outside the signal
 data

The check 'index + 4 > size' wrapped around for a huge index.
---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 98828eb..42f0b01 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -649,7 +649,7 @@ bool Cn4Block::GetTextValue(const std::vector<uint8_t> &record_buffer,
     // Index into the local data buffer
     uint64_t index = 0;
     valid = GetUnsignedValue(record_buffer, index);
-    if (index + 4 > data_list_.size()) {
+    if (data_list_.size() < 4 || index > data_list_.size() - 4) {
       return false;
     }
     const LittleBuffer<uint32_t> length(data_list_, static_cast<size_t>(index) );
@@ -774,7 +774,7 @@ bool Cn4Block::GetByteArrayValue(const std::vector<uint8_t> &record_buffer,
     // in a SD block.
     uint64_t index = 0;  // Actual offset into the data block.
     valid = GetUnsignedValue(record_buffer, index);
-    if (index + 4 > data_list_.size()) {
+    if (data_list_.size() < 4 || index > data_list_.size() - 4) {
       return false;
     }
     const LittleBuffer<uint32_t> length(data_list_, static_cast<size_t>(index) );
-- 
2.43.0


From 59a220bb1cbfc549ae60c2217b77adce150c0e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:39 +0000
Subject: [PATCH 04/48] fix: byte offsets above 512 MB wrapped in the channel
 range check

ByteOffset() * 8 was computed in 32 bits, so a channel located far outside the
record was read from its beginning and reported as valid.
---
 mdflib/src/ichannel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index d26911a..2b2a8ad 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -19,7 +19,7 @@ bool IChannel::GetUnsignedValue(const std::vector<uint8_t> &record_buffer,
                                 uint64_t &dest,
                                 uint64_t array_index) const {
 
-  const size_t bit_offset = (ByteOffset() * 8 + BitOffset())
+  const size_t bit_offset = (static_cast<size_t>(ByteOffset()) * 8 + BitOffset())
     + static_cast<size_t>( (array_index * BitCount()) );
   size_t range_check = (bit_offset + BitCount()) / 8;
   if ((bit_offset + BitCount()) % 8 != 0) {
@@ -75,7 +75,7 @@ bool IChannel::GetSignedValue(const std::vector<uint8_t> &record_buffer,
   // Copy to a temp data buffer, so we can get rid of the bit offset nonsense
   // std::vector<uint8_t> data_buffer;
   // CopyToDataBuffer(record_buffer, data_buffer, array_index);
-  const size_t bit_offset = (ByteOffset() * 8 + BitOffset())
+  const size_t bit_offset = (static_cast<size_t>(ByteOffset()) * 8 + BitOffset())
       + static_cast<size_t>( (array_index * BitCount()) );
 
   size_t range_check = (bit_offset + BitCount()) / 8;
@@ -100,7 +100,7 @@ bool IChannel::GetSignedValue(const std::vector<uint8_t> &record_buffer,
 bool IChannel::GetFloatValue(const std::vector<uint8_t> &record_buffer,
                              double &dest,
                              uint64_t array_index ) const {
-  const size_t bit_offset = (ByteOffset() * 8 + BitOffset())
+  const size_t bit_offset = (static_cast<size_t>(ByteOffset()) * 8 + BitOffset())
         + static_cast<size_t>( (array_index * BitCount()) );
 
   size_t range_check = (bit_offset + BitCount()) / 8;
-- 
2.43.0


From fb4c867fc6da8b0db302f209d48ca5795fa845d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:14 +0000
Subject: [PATCH 05/48] fix: MDF3 conversion parameters were written as 16 byte
 variants instead of 8 byte floats

---
 mdflib/src/cc3block.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index a538954..556cfbb 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -313,8 +313,9 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 9:  // Rational
       nof_values_ = static_cast<uint16_t>(value_list_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (uint16_t par = 0; par < static_cast<uint16_t>(value_list_.size());
+           ++par) {
+        bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
 
@@ -322,8 +323,9 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 2:  // Tabular
       nof_values_ = static_cast<uint16_t>(value_list_.size() / 2);
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (uint16_t par = 0; par < static_cast<uint16_t>(value_list_.size());
+           ++par) {
+        bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
 
-- 
2.43.0


From b8cc8bbfbc84918b37f347c5ddac3372519713d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:40 +0000
Subject: [PATCH 06/48] fix: MDF3 text range conversion lost its texts when
 written

---
 mdflib/src/cc3block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index 556cfbb..a8db542 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -285,7 +285,7 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
   for (auto &range : text_range_conversion_list_) {
     uint32_t link = 0;
     if (!range.text.empty()) {
-      Tx3Block temp;
+      Tx3Block temp(range.text);
       temp.Init(*this);
       temp.Write(buffer);
       link = static_cast<uint32_t>(temp.FilePosition());
-- 
2.43.0


From 68314e681e1153bcfeffd01efb88f61dd4994abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:40 +0000
Subject: [PATCH 07/48] fix: MDF3 formula conversion block size did not include
 the formula text

---
 mdflib/src/cc3block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index a8db542..aa02686 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -332,7 +332,7 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 10:  // Text formula
       nof_values_ = static_cast<uint16_t>(formula_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      WriteStr(buffer, formula_, formula_.size());
+      bytes += WriteStr(buffer, formula_, formula_.size());
       break;
 
     case 11:  // Text Table
-- 
2.43.0


From 70ad57d735160c935ac224bb8d7d2ff19cd93050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:50 +0000
Subject: [PATCH 08/48] fix: copying a conversion dropped its text and
 conversion references

---
 mdflib/src/cc4block.cpp | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/mdflib/src/cc4block.cpp b/mdflib/src/cc4block.cpp
index 99f43bf..cb673ff 100644
--- a/mdflib/src/cc4block.cpp
+++ b/mdflib/src/cc4block.cpp
@@ -564,26 +564,25 @@ void Cc4Block::CopyFrom(const IChannelConversion& source) {
     cc4->GetCcUnit(unit);
     SetCcUnit(unit);
 
+    ref_list_.clear();
     for (const auto& source_ref : cc4->ref_list_) {
-      if (!source_ref) {
-        continue;
-      }
-      if (source_ref->BlockType() != "TX") {
-        const auto* source_tx4 = dynamic_cast<const Tx4Block*>(source_ref.get());
-        if (auto tx4_block = std::make_unique<Tx4Block>();
-            tx4_block && source_tx4 != nullptr) {
-          tx4_block->Init(*this);
-          tx4_block->Text(source_tx4->Text());
-          ref_list_.emplace_back(std::move(tx4_block));
-        }
-      } else if (source_ref->BlockType() == "CC") {
-        const auto* source_cc4 = dynamic_cast<const Cc4Block*>(source_ref.get());
-        if (auto cc4_block = std::make_unique<Cc4Block>();
-            cc4_block && source_cc4 != nullptr) {
-          cc4_block->Init(*this);
-          cc4_block->CopyFrom(*source_cc4);
-          ref_list_.emplace_back(std::move(cc4_block));
-        }
+      if (const auto* source_tx4 =
+              dynamic_cast<const Tx4Block*>(source_ref.get());
+          source_tx4 != nullptr) {
+        auto tx4_block = std::make_unique<Tx4Block>();
+        tx4_block->Init(*this);
+        tx4_block->Text(source_tx4->Text());
+        ref_list_.emplace_back(std::move(tx4_block));
+      } else if (const auto* source_cc4 =
+                     dynamic_cast<const Cc4Block*>(source_ref.get());
+                 source_cc4 != nullptr) {
+        auto cc4_block = std::make_unique<Cc4Block>();
+        cc4_block->Init(*this);
+        cc4_block->CopyFrom(*source_cc4);
+        ref_list_.emplace_back(std::move(cc4_block));
+      } else {
+        // Keep the position of an unused reference
+        ref_list_.emplace_back(std::unique_ptr<MdfBlock>());
       }
     }
   }
-- 
2.43.0


From 593906a88495e941500c0a5bacf79318104deb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:42 +0000
Subject: [PATCH 09/48] fix: read the element links of a channel hierarchy from
 the index they are written at

---
 mdflib/src/ch4block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index c44ee8e..d011651 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -148,7 +148,7 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
   for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
-    const auto index = 5 + (index_n * 3);
+    const auto index = kIndexElement + (index_n * 3);
     if (index < link_list_.size()) {
       const auto *block1 = hd4.Find(Link(index));
       const auto *block2 = hd4.Find(Link(index + 1));
-- 
2.43.0


From 8114d9b2608b2d1c1e15d3f5e2feddf476592827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:42 +0000
Subject: [PATCH 10/48] fix: write channel hierarchies and events after the
 blocks they reference

---
 mdflib/src/hd4block.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index d325fea..c011c05 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -533,16 +533,17 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
   WriteMdComment(buffer, kIndexMd);
   WriteLink4List(buffer, at_list_, kIndexAt,
                  UpdateOption::DoNotUpdateWrittenBlock);
+
+  WriteLink4List(buffer, dg_list_, kIndexDg,
+       UpdateOption::DoUpdateAllBlocks);  // Always rewrite last DG block
+
+  // The CH and EV blocks reference DG, CG and CN blocks, so they need to be
+  // written after these blocks. Note that the header isn't written while
+  // samples are appended to a DT block.
   WriteLink4List(buffer, ch_list_, kIndexCh,
                  UpdateOption::DoNotUpdateWrittenBlock);
   WriteLink4List(buffer, ev_list_, kIndexEv,
                  UpdateOption::DoNotUpdateWrittenBlock);
-
-  // Always write the list of DG last as it may contain a DT block that shall
-  // be appended with data bytes. The DT block must be the last written block
-  // in these cases.
-  WriteLink4List(buffer, dg_list_, kIndexDg,
-       UpdateOption::DoUpdateAllBlocks);  // Always rewrite last DG block
   return bytes;
 }
 
-- 
2.43.0


From c34d66477a782c76c74003006ffc93b6a60cbda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:54 +0000
Subject: [PATCH 11/48] fix: resolve event scopes through the interface type
 the caller supplies

---
 mdflib/src/ev4block.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/ev4block.cpp b/mdflib/src/ev4block.cpp
index e8cd1a1..3d59dfd 100644
--- a/mdflib/src/ev4block.cpp
+++ b/mdflib/src/ev4block.cpp
@@ -192,8 +192,8 @@ uint64_t Ev4Block::Write(std::streambuf& buffer) {
   link_list_[kIndexRange] = range_event_ != nullptr ? range_event_->Index() : 0;
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
-    const auto *block = reinterpret_cast<const MdfBlock *>(scope_list_[index_m]);
-    link_list_[index] = block != nullptr ? block->FilePosition() : 0;
+    const auto *block = static_cast<const IBlock *>(scope_list_[index_m]);
+    link_list_[index] = block != nullptr ? block->Index() : 0;
   }
   for (size_t index_n = 0; index_n < length_n_; ++index_n) {
     const auto index = 5 + length_m_ + index_n;
@@ -316,7 +316,8 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
     if (index < link_list_.size()) {
-      scope_list_.push_back(hd4.Find(Link(index)));
+      scope_list_.push_back(
+          dynamic_cast<const IBlock *>(hd4.Find(Link(index))));
     }
   }
 
-- 
2.43.0


From ecea052d86ee5a63689bf75ba408c3d85c1d31f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:04 +0000
Subject: [PATCH 12/48] fix: data following an empty block in a data list was
 not read

---
 mdflib/src/readcache.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 27ed376..c74dfff 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -369,8 +369,14 @@ bool ReadCache::GetNextByte(uint8_t &input) {
     return false;
   }
 
+  // Step to the next block. Note that a list may include empty blocks.
   auto* current_block = block_list_[block_index_];
   ++block_index_;
+  while (current_block != nullptr && current_block->DataSize() == 0 &&
+         block_index_ < block_list_.size()) {
+    current_block = block_list_[block_index_];
+    ++block_index_;
+  }
   if (current_block == nullptr) {
     return false;
   }
-- 
2.43.0


From 66f10608ed5cbc3f3787db5de00616f5d756fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:12 +0000
Subject: [PATCH 13/48] fix: variable length data stored in a header list block
 could not be fetched by offset

---
 mdflib/src/dg4block.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 68ade13..c5be261 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -483,6 +483,8 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
         read_signal_data = true;
       } else if (block->BlockType() == "DL") {
         read_signal_data = true;
+      } else if (block->BlockType() == "HL") {
+        read_signal_data = true;
       }
       break;
 
-- 
2.43.0


From 79348f66d3003f2ef1103d51187e696302af0a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:41 +0000
Subject: [PATCH 14/48] fix: CAN observer never read the R0 flag

---
 mdflib/src/canbusobserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index f33b6ce..3865a5e 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -80,7 +80,7 @@ CanBusObserver::CanBusObserver(const IDataGroup& data_group,
   edl_channel_ = GetChannel("EDL");
   brs_channel_ = GetChannel("BRS");
   esi_channel_ = GetChannel("ESI");
-  r0_channel_ = GetChannel("RO");
+  r0_channel_ = GetChannel("R0");
   r1_channel_ = GetChannel("R1");
   wake_up_channel_ = GetChannel("WakeUp");
   single_wire_channel_ = GetChannel("SingleWire");
-- 
2.43.0


From b7384edb9121a4f5173a9fd2484199a83f66a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:41 +0000
Subject: [PATCH 15/48] fix: CAN observer stored the error bit position as
 frame duration

---
 mdflib/src/canbusobserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index 3865a5e..0f5d74b 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -411,7 +411,7 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
   if (bit_position_channel_ != nullptr) {
     double position = 0.0;
     GetEngValue(*bit_position_channel_, current_sample_index_, record, position);
-    msg.FrameDuration(static_cast<uint16_t>(position));
+    msg.BitPosition(static_cast<uint16_t>(position));
    }
 
    if (error_type_channel_ != nullptr) {
-- 
2.43.0


From ababd5ec03f53f9ffa8d8682f45ad07cdaddfefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:41 +0000
Subject: [PATCH 16/48] fix: CAN observer never read the error type

---
 mdflib/src/canbusobserver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index 0f5d74b..2e6a068 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -86,6 +86,7 @@ CanBusObserver::CanBusObserver(const IDataGroup& data_group,
   single_wire_channel_ = GetChannel("SingleWire");
   frame_duration_channel_ = GetChannel("FrameDuration");
   bit_position_channel_ = GetChannel("BitPosition");
+  error_type_channel_ = GetChannel("ErrorType");
 }
 
 std::string CanBusObserver::Name() const {
-- 
2.43.0


From 045536f3541414a440db902478b5aecca1fa348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:41 +0000
Subject: [PATCH 17/48] fix: CAN observer replaced the stored DLC with one
 derived from the data length

---
 mdflib/src/canbusobserver.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index 2e6a068..b6286e2 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -299,12 +299,6 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     msg.ExtendedId(extended);
   }
 
-  if (dlc_channel_ != nullptr) {
-    uint8_t dlc = 0;
-    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
-    msg.Dlc(dlc);
-  }
-
   if (length_channel_ != nullptr) {
     double length = 0.0;
     GetEngValue(*length_channel_, current_sample_index_, record, length);
@@ -341,6 +335,13 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     }
   }
 
+  // Note that setting the data length or bytes also sets the DLC.
+  if (dlc_channel_ != nullptr) {
+    uint8_t dlc = 0;
+    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
+    msg.Dlc(dlc);
+  }
+
   if (dir_channel_ != nullptr) {
     // Note that eng value is a enumerate string
     bool direction = false;
-- 
2.43.0


From 4bff045ce94c9cefbe14472891496c05d1f31d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:24 +0000
Subject: [PATCH 18/48] fix: CAN observer did not set the message type of
 messages passed to the callback

---
 mdflib/src/canbusobserver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index b6286e2..1c9ae86 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -250,6 +250,7 @@ bool CanBusObserver::FireCallback() {
   }
   const uint64_t sample = last_sample_.sample;
   CanMessage msg;
+  msg.TypeOfMessage(message_type_);
   ParseCanMessage(msg);
 
   return OnCanMessage(sample, msg);
-- 
2.43.0


From b4461f23797da67252d446267dcb3a185fb9e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:37 +0000
Subject: [PATCH 19/48] fix: LIN direction was stored in bit 6 although the
 channel describes bit 7

---
 mdflib/src/linmessage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/linmessage.cpp b/mdflib/src/linmessage.cpp
index 1f2ac0b..5e5ac63 100644
--- a/mdflib/src/linmessage.cpp
+++ b/mdflib/src/linmessage.cpp
@@ -166,7 +166,7 @@ void LinMessage::MakeDataFrame(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
@@ -228,7 +228,7 @@ void LinMessage::MakeChecksumError(SampleRecord& sample) const {
   if (mandatory) {
     return;
   }
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
-- 
2.43.0


From b83da0b44dcaeb767f417d20e5739526a4ae618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:37 +0000
Subject: [PATCH 20/48] fix: LIN checksum errors lost the direction when only
 mandatory members are stored

---
 mdflib/src/linmessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/linmessage.cpp b/mdflib/src/linmessage.cpp
index 5e5ac63..1e05e72 100644
--- a/mdflib/src/linmessage.cpp
+++ b/mdflib/src/linmessage.cpp
@@ -225,10 +225,10 @@ void LinMessage::MakeChecksumError(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   if (mandatory) {
     return;
   }
-  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
-- 
2.43.0


From f4b2d0b69cfcf35309cd92a0beb05995bd968002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:37 +0000
Subject: [PATCH 21/48] fix: LIN wake up and spike start of frame channels
 covered one of eight bytes

---
 mdflib/src/linconfigadapter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index e93ba1c..be8a93c 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -408,7 +408,7 @@ void LinConfigAdapter::CreateWakeUpChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
   }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
   }
@@ -491,7 +491,7 @@ void LinConfigAdapter::CreateSpikeChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
       }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
       }
-- 
2.43.0


From 502f5dfe23d3c7291333a3c3984e58fef7751f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:37 +0000
Subject: [PATCH 22/48] fix: LIN receive error checksum model channel pointed
 outside the stored bits

---
 mdflib/src/linconfigadapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index be8a93c..dce78a8 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -315,7 +315,7 @@ void LinConfigAdapter::CreateReceiveErrorChannels(IChannelGroup& group) const {
     frame_bytes->BitOffset(0);
   }
 
-  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel",9, 6, 2);
+  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel", 11, 4, 2);
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
-- 
2.43.0


From 7645e08c609ae08513e091992e0f7437eb9f61fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:03 +0000
Subject: [PATCH 23/48] fix: FlexRay channel and channel mask were stored as
 default values

---
 mdflib/src/flexraymessage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 29e5b42..839c535 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -52,7 +52,7 @@ void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
   record[13] = static_cast<uint8_t>(DataBytes().size());
@@ -104,7 +104,7 @@ void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount() & 0x3F);
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[12] = Length();
   record[13] = static_cast<uint8_t>(DataBytes().size());
 
@@ -153,7 +153,7 @@ void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
 
@@ -200,7 +200,7 @@ void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -247,7 +247,7 @@ void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -302,7 +302,7 @@ void FlexRaySymbol::ToRaw(SampleRecord& sample) const {
   // The time allocate the first 8 bytes (double)
   record[8] = BusChannel();
   record[9] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[9] |= (static_cast<uint8_t>(FlexRayChannelMask()) & 0x03) << 6;
+  record[9] |= (static_cast<uint8_t>(ChannelMask()) & 0x03) << 6;
   if (mandatory_members_only) {
     return;
   }
-- 
2.43.0


From b9b27bdba0c05e72a6e141e450a9a883b7b71671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:26 +0000
Subject: [PATCH 24/48] fix: FlexRay records were two bytes longer than their
 channels so data bytes could not be fetched

---
 mdflib/src/flexrayconfigadapter.cpp | 12 ++++++------
 mdflib/src/flexraymessage.cpp       | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/mdflib/src/flexrayconfigadapter.cpp b/mdflib/src/flexrayconfigadapter.cpp
index cf6cbf8..367edb2 100644
--- a/mdflib/src/flexrayconfigadapter.cpp
+++ b/mdflib/src/flexrayconfigadapter.cpp
@@ -192,9 +192,9 @@ void FlexRayConfigAdapter::CreateFrameChannel(IChannelGroup& channel_group) cons
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -245,7 +245,7 @@ void FlexRayConfigAdapter::CreatePduChannel(IChannelGroup& channel_group) const
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
     parent_frame->DataBytes(28-8);
   }
@@ -294,7 +294,7 @@ void FlexRayConfigAdapter::CreateFrameHeaderChannel(IChannelGroup& channel_group
   if (mandatory_members_only) {
     parent_frame->DataBytes(13-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -347,7 +347,7 @@ void FlexRayConfigAdapter::CreateNullFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -399,7 +399,7 @@ void FlexRayConfigAdapter::CreateErrorFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(35-8);
+    parent_frame->DataBytes(33-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 839c535..fe638f5 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -43,7 +43,7 @@ const std::vector<uint8_t>& FlexRayFrame::DataBytes() const {
 void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                      data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 34;
+  const size_t record_size = mandatory_members_only ? 22 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -95,7 +95,7 @@ const std::vector<uint8_t>& FlexRayPdu::DataBytes() const {
 void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                    data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 28;
+  const size_t record_size = mandatory_members_only ? 22 : 28;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -144,7 +144,7 @@ const std::vector<uint8_t>& FlexRayFrameHeader::FillDataBytes() const {
 void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                       data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 13 : 34;
+  const size_t record_size = mandatory_members_only ? 13 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -191,7 +191,7 @@ FlexRayNullFrame::FlexRayNullFrame()
 void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 34;
+  const size_t record_size = mandatory_members_only ? 12 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -238,7 +238,7 @@ FlexRayErrorFrame::FlexRayErrorFrame()
 void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 35;
+  const size_t record_size = mandatory_members_only ? 12 : 33;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
-- 
2.43.0


From 1724154af74206f24e677b34cb239daaaffbb266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:20 +0000
Subject: [PATCH 25/48] fix: ISO 8601 fractions were scaled wrong unless they
 had 3, 6 or 9 digits

---
 mdflib/src/timestamp.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/timestamp.cpp b/mdflib/src/timestamp.cpp
index f2b8624..c970da5 100644
--- a/mdflib/src/timestamp.cpp
+++ b/mdflib/src/timestamp.cpp
@@ -324,14 +324,11 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
 
     utc_timestamp_ = utc_time;
     utc_timestamp_ *= 1'000'000'000;  // Now ns
-    if (millisecond.str().empty()) {
-      return;
-    } else if (millisecond.str().size() <= 3) {
-      utc_timestamp_ += std::stoull(millisecond.str()) * 1'000'000;
-    } else if (millisecond.str().size() <= 6) {
-      utc_timestamp_ += std::stoull(millisecond.str()) * 1'000;
-    } else {
-      utc_timestamp_ += std::stoull(millisecond.str());
+    std::string fraction = millisecond.str();
+    if (!fraction.empty()) {
+      // The fraction may have any number of digits. Scale it to ns.
+      fraction.resize(9, '0');
+      utc_timestamp_ += std::stoull(fraction);
     }
   } catch (const std::exception& err) {
     MDF_ERROR() << "Invalid cast: " << err.what();
-- 
2.43.0


From e49c3b7a9a874039624d6ad5bb97ea8ec81897b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:20 +0000
Subject: [PATCH 26/48] fix: minutes of a negative ISO 8601 time zone offset
 were applied with the wrong sign

---
 mdflib/src/timestamp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/timestamp.cpp b/mdflib/src/timestamp.cpp
index c970da5..2fa98ea 100644
--- a/mdflib/src/timestamp.cpp
+++ b/mdflib/src/timestamp.cpp
@@ -296,7 +296,10 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
     tz_offset = tz_hour.str().empty() ? 0 : std::stoi(tz_hour.str());
     // MDF_TRACE() << tz_hour.str() << "/" << tz_offset << std::endl;
     tz_offset *= 60;  // Now minutes
-    tz_offset += tz_minute.str().empty() ? 0 : std::stoi(tz_minute.str());
+    if (!tz_minute.str().empty()) {
+      const int tz_min = std::stoi(tz_minute.str());
+      tz_offset += tz_hour.str()[0] == '-' ? -tz_min : tz_min;
+    }
     tz_offset *= 60;  // Now in seconds
 
     // 0..59 as normal
-- 
2.43.0


From 8ba6dc2cf40050965813dd813a6cdb81fb2700ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:20 +0000
Subject: [PATCH 27/48] fix: ISO 8601 time zone offset without a colon was
 parsed as hours

---
 mdflib/src/timestamp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/timestamp.cpp b/mdflib/src/timestamp.cpp
index 2fa98ea..4ca7f19 100644
--- a/mdflib/src/timestamp.cpp
+++ b/mdflib/src/timestamp.cpp
@@ -233,8 +233,11 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
         case DateState::TzHour:
           if (input == ':') {
             state = DateState::TzMinute;
-          } else if (std::isdigit(input) ) {
+          } else if (std::isdigit(input) && tz_hour.str().size() < 3) {
             tz_hour << input;
+          } else if (std::isdigit(input)) {
+            tz_minute << input;
+            state = DateState::TzMinute;
           }
           break;
 
-- 
2.43.0


From fa0c75dea4563dd0cd48acc333358d385900a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:02 +0000
Subject: [PATCH 28/48] fix: UTF-16 surrogate pairs became invalid UTF-8 where
 wchar_t has 32 bits

---
 mdflib/src/cutf.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/cutf.cpp b/mdflib/src/cutf.cpp
index b915711..68ceac8 100644
--- a/mdflib/src/cutf.cpp
+++ b/mdflib/src/cutf.cpp
@@ -341,7 +341,13 @@ size_t cutf_32to8(uint32_t* start, uint32_t* end, uint8_t* out, size_t outsize)
     uint8_t* it = out;
     for(; start != end; ++start)
     {
-        it = cutf_append(*start, it, &outsize);
+        uint32_t cp = *start;
+        // UTF-16 text may be stored in 32-bit characters, so take care of surrogate pairs
+        if(CUTF_IS_LEAD_SURROGATE(cp) && start + 1 != end && CUTF_IS_TRAIL_SURROGATE(start[1])) {
+            ++start;
+            cp = (cp << 10) + *start + CUTF_SURROGATE_OFFSET;
+        }
+        it = cutf_append(cp, it, &outsize);
     }
     
     if( outsize != 0)
-- 
2.43.0


From 19d35875637e7bcdfd549b0f1bea081b1d579fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:49 +0000
Subject: [PATCH 29/48] fix: big endian buffer values were read from a buffer
 that was out of scope

---
 mdflib/src/bigbuffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/bigbuffer.h b/mdflib/src/bigbuffer.h
index 4b1fdef..3070977 100644
--- a/mdflib/src/bigbuffer.h
+++ b/mdflib/src/bigbuffer.h
@@ -67,15 +67,15 @@ size_t BigBuffer<T>::size() const {
 
 template <typename T>
 T BigBuffer<T>::value() const {
-  const T* val = reinterpret_cast<const T*>(buffer_.data());
+  std::array<uint8_t, sizeof(T)> temp = buffer_;
   if (IsLittleEndian()) { // Computer uses little endian
-    std::array<uint8_t, sizeof(T)> temp = {0};
     for (size_t index = sizeof(T); index > 0; --index) {
       temp[sizeof(T) - index] = buffer_[index - 1];
     }
-    val = reinterpret_cast<const T*>(temp.data());
   }
-  return *val;
+  T val = {};
+  memcpy(&val, temp.data(), sizeof(T));
+  return val;
 }
 
 }  // namespace mdf
-- 
2.43.0


From ebb9b39a5ab2a9f3531c3623e3950c4fc132e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 30/48] fix: a stored attribute that is set again after reading
 takes the new value

SetAttribute() ignored a second value for a key, and the standard attributes
of properties, lists, names, syntaxes and variables were also kept as custom
attributes after reading, so an attribute changed after reading was lost.
---
 mdflib/src/hdcomment.cpp         | 1 +
 mdflib/src/ixmlnode.cpp          | 2 +-
 mdflib/src/ixmlnode.h            | 2 +-
 mdflib/src/mdalternativename.cpp | 1 +
 mdflib/src/mdlist.cpp            | 4 ++++
 mdflib/src/mdproperty.cpp        | 3 +++
 mdflib/src/mdsyntax.cpp          | 2 ++
 mdflib/src/mdvariable.cpp        | 3 +++
 8 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/hdcomment.cpp b/mdflib/src/hdcomment.cpp
index 135c385..8efb960 100644
--- a/mdflib/src/hdcomment.cpp
+++ b/mdflib/src/hdcomment.cpp
@@ -224,6 +224,7 @@ void HdComment::FromXml(const std::string& xml_snippet) {
           std::string name = const_node->Attribute<std::string>("name", "");
           MdString temp;
           temp.FromXml(*const_node);
+          temp.CustomAttributes().erase("name");
           temp.Text(name);
           AddConstant(temp, expression);
         }
diff --git a/mdflib/src/ixmlnode.cpp b/mdflib/src/ixmlnode.cpp
index d7a39ba..721c519 100644
--- a/mdflib/src/ixmlnode.cpp
+++ b/mdflib/src/ixmlnode.cpp
@@ -214,7 +214,7 @@ void IXmlNode::Value(const std::string &value) {
 
 template <>
 void IXmlNode::SetAttribute(const std::string &key, const bool &value) {
-  attribute_list_.insert({key, value ? "true" : "false"});
+  attribute_list_.insert_or_assign(key, value ? "true" : "false");
 }
 
 }  // namespace mdf
diff --git a/mdflib/src/ixmlnode.h b/mdflib/src/ixmlnode.h
index 93fcb3c..25ce949 100644
--- a/mdflib/src/ixmlnode.h
+++ b/mdflib/src/ixmlnode.h
@@ -271,7 +271,7 @@ template <typename T>
 void IXmlNode::SetAttribute(const std::string &key, const T &value) {
   std::ostringstream temp;
   temp << value;
-  attribute_list_.insert({key, temp.str()});
+  attribute_list_.insert_or_assign(key, temp.str());
 }
 
 template <typename T>
diff --git a/mdflib/src/mdalternativename.cpp b/mdflib/src/mdalternativename.cpp
index a46bcec..d3c5648 100644
--- a/mdflib/src/mdalternativename.cpp
+++ b/mdflib/src/mdalternativename.cpp
@@ -119,6 +119,7 @@ void MdAlternativeName::ToXml(IXmlNode& names_node) const {
 
 void MdAlternativeName::FromXml(const IXmlNode& names_node) {
   MdStandardAttribute::FromXml(names_node);
+  custom_attribute_list_.erase("name");
   default_name_ = names_node.Attribute<std::string>("name", "");
 
   IXmlNode::ChildList node_list;
diff --git a/mdflib/src/mdlist.cpp b/mdflib/src/mdlist.cpp
index ec479ca..e539825 100644
--- a/mdflib/src/mdlist.cpp
+++ b/mdflib/src/mdlist.cpp
@@ -266,6 +266,8 @@ void MdList::FromXml(const IXmlNode& root_node) {
   const std::string tag_name = root_node.TagName();
   if (tag_name != "common_properties" && tag_name != "li") {
     MdStandardAttribute::FromXml(root_node);
+    custom_attribute_list_.erase("name");
+    custom_attribute_list_.erase("desc");
     name_ = root_node.Attribute<std::string>("name", "");
     desc_ = root_node.Attribute<std::string>("desc", "");
   }
@@ -286,6 +288,8 @@ void MdList::FromXml(const IXmlNode& root_node) {
     } else if (node->IsTagName("list")) {
       MdList list;
       list.MdStandardAttribute::FromXml(*node);
+      list.CustomAttributes().erase("name");
+      list.CustomAttributes().erase("desc");
       list.Name(node->Attribute<std::string>("name", "") );
       list.Description( node->Attribute<std::string>("desc", ""));
 
diff --git a/mdflib/src/mdproperty.cpp b/mdflib/src/mdproperty.cpp
index 60dcc30..e17ef11 100644
--- a/mdflib/src/mdproperty.cpp
+++ b/mdflib/src/mdproperty.cpp
@@ -141,6 +141,9 @@ void MdProperty::Name(std::string name) {
 
   void MdProperty::FromXml(const IXmlNode& prop_node) {
     MdStandardAttribute::FromXml(prop_node);
+    for (const char* key : {"name", "desc", "type", "ro", "unit", "unit_ref"}) {
+      custom_attribute_list_.erase(key);
+    }
     name_ = prop_node.Attribute<std::string>("name", "");
     desc_ = prop_node.Attribute<std::string>("desc", "");
     const std::string type = prop_node.Attribute<std::string>("type", "");
diff --git a/mdflib/src/mdsyntax.cpp b/mdflib/src/mdsyntax.cpp
index dfb6f57..0551237 100644
--- a/mdflib/src/mdsyntax.cpp
+++ b/mdflib/src/mdsyntax.cpp
@@ -53,6 +53,8 @@ void MdSyntax::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
 
 void MdSyntax::FromXml(const IXmlNode& syntax_node) {
   MdString::FromXml(syntax_node);
+  custom_attribute_list_.erase("version");
+  custom_attribute_list_.erase("source");
   version_ = syntax_node.Attribute<std::string>("version", "");
   source_ = syntax_node.Attribute<std::string>("source", "");
 
diff --git a/mdflib/src/mdvariable.cpp b/mdflib/src/mdvariable.cpp
index 7494731..f515812 100644
--- a/mdflib/src/mdvariable.cpp
+++ b/mdflib/src/mdvariable.cpp
@@ -133,6 +133,9 @@ void MdVariable::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
 
 void MdVariable::FromXml(const IXmlNode& var_node) {
   MdString::FromXml(var_node);
+  for (const char* key : {"cn", "cs", "cp", "gn", "gs", "gp", "idx", "raw"}) {
+    custom_attribute_list_.erase(key);
+  }
   cn_ = var_node.Attribute<std::string>("cn", "");
   cs_ = var_node.Attribute<std::string>("cs", "");
   cp_ = var_node.Attribute<std::string>("cp", "");
-- 
2.43.0


From 38d1812371a6083c6b6bc2ceb67db714755071f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 31/48] fix: write floating point metadata with all its digits

Attributes, properties and numbers were written with six digits.
---
 include/mdf/etag.h       |  2 ++
 include/mdf/mdnumber.h   | 11 ++++++++++-
 include/mdf/mdproperty.h | 11 ++++++++++-
 mdflib/src/ixmlnode.h    |  3 +++
 mdflib/src/mdnumber.cpp  |  2 +-
 5 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/mdf/etag.h b/include/mdf/etag.h
index 349742a..74ee573 100644
--- a/include/mdf/etag.h
+++ b/include/mdf/etag.h
@@ -14,6 +14,7 @@
 #pragma once
 
 #include <cstdint>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -206,6 +207,7 @@ class ETag {
 template <typename T>
 void ETag::Value(const T& value) {
   std::ostringstream temp;
+  temp.precision(std::numeric_limits<double>::max_digits10);
   temp << value;
   value_ = temp.str();
 }
diff --git a/include/mdf/mdnumber.h b/include/mdf/mdnumber.h
index f09c298..d382824 100644
--- a/include/mdf/mdnumber.h
+++ b/include/mdf/mdnumber.h
@@ -6,8 +6,10 @@
 #pragma once
 
 #include <cstdint>
+#include <limits>
 #include <string>
 #include <sstream>
+#include <type_traits>
 #include <optional>
 
 #include "mdf/mdstandardattribute.h"
@@ -95,7 +97,14 @@ class MdNumber : public MdStandardAttribute {
 template <typename T>
 void MdNumber::Number(T value) {
   try {
-    number_ = std::to_string(value);
+    if constexpr (std::is_floating_point_v<T>) {
+      std::ostringstream temp;
+      temp.precision(std::numeric_limits<T>::max_digits10);
+      temp << value;
+      number_ = temp.str();
+    } else {
+      number_ = std::to_string(value);
+    }
   } catch (const std::exception&) {
     number_.clear();
     number_.shrink_to_fit();
diff --git a/include/mdf/mdproperty.h b/include/mdf/mdproperty.h
index c58d95d..c09bcf8 100644
--- a/include/mdf/mdproperty.h
+++ b/include/mdf/mdproperty.h
@@ -5,10 +5,12 @@
 #pragma once
 
 #include <cstdint>
+#include <limits>
 #include <string_view>
 #include <string>
 #include <map>
 #include <sstream>
+#include <type_traits>
 
 #include "mdf/mdstandardattribute.h"
 
@@ -80,7 +82,14 @@ class MdProperty : public MdStandardAttribute {
 
 template <typename T>
 void MdProperty::Value(T value) {
-  value_ = std::to_string(value);
+  if constexpr (std::is_floating_point_v<T>) {
+    std::ostringstream temp;
+    temp.precision(std::numeric_limits<T>::max_digits10);
+    temp << value;
+    value_ = temp.str();
+  } else {
+    value_ = std::to_string(value);
+  }
 }
 
 template <>
diff --git a/mdflib/src/ixmlnode.h b/mdflib/src/ixmlnode.h
index 25ce949..6126c51 100644
--- a/mdflib/src/ixmlnode.h
+++ b/mdflib/src/ixmlnode.h
@@ -7,6 +7,7 @@
  */
 #pragma once
 
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <string>
@@ -206,6 +207,7 @@ template <typename T>
 void IXmlNode::Value(const T &value) {
   //  value_ = std::to_string(value);
   std::ostringstream temp;
+  temp.precision(std::numeric_limits<double>::max_digits10);
   temp << value;
   value_ = temp.str();
 }
@@ -270,6 +272,7 @@ inline std::string IXmlNode::Attribute(const std::string& key,
 template <typename T>
 void IXmlNode::SetAttribute(const std::string &key, const T &value) {
   std::ostringstream temp;
+  temp.precision(std::numeric_limits<double>::max_digits10);
   temp << value;
   attribute_list_.insert_or_assign(key, temp.str());
 }
diff --git a/mdflib/src/mdnumber.cpp b/mdflib/src/mdnumber.cpp
index bbb59f1..71dbe29 100644
--- a/mdflib/src/mdnumber.cpp
+++ b/mdflib/src/mdnumber.cpp
@@ -13,8 +13,8 @@ namespace mdf {
 
 MdNumber::MdNumber(double number)
 : MdStandardAttribute(),
-  number_(std::to_string(number)),
   data_type_(MdDataType::MdFloat) {
+  Number(number);
 }
 
 MdNumber::MdNumber(uint64_t number, MdDataType data_type)
-- 
2.43.0


From b0d802f2d8720603f601b6fbdcfa28407a5d198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 32/48] fix: store and read the array indexes of a formula
 variable

The indexes were written to another attribute than the one read, and the
reader never collected any digit.
---
 mdflib/src/mdvariable.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/mdflib/src/mdvariable.cpp b/mdflib/src/mdvariable.cpp
index f515812..2c0eba7 100644
--- a/mdflib/src/mdvariable.cpp
+++ b/mdflib/src/mdvariable.cpp
@@ -119,7 +119,7 @@ void MdVariable::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
       }
       idx << index;
     }
-    node.SetAttribute("idx_list_pattern", idx.str());
+    node.SetAttribute("idx", idx.str());
   }
 
   if (raw_) {
@@ -144,18 +144,9 @@ void MdVariable::FromXml(const IXmlNode& var_node) {
   gp_ = var_node.Attribute<std::string>("gp", "");
   const std::string idx_list = var_node.Attribute<std::string>("idx", "");
   try {
-    std::ostringstream temp;
-    for (const char input : idx_list) {
-      if (iswspace(input)) {
-        const uint64_t idx = std::stoull(temp.str());
-        AddArrayIndex(idx);
-        temp.clear();
-        temp.str("");
-      }
-    }
-    if (!temp.str().empty()) {
-      const uint64_t idx = std::stoull(temp.str());
-      AddArrayIndex(idx);
+    std::istringstream temp(idx_list);
+    for (std::string index; temp >> index;) {
+      AddArrayIndex(std::stoull(index));
     }
   } catch (const std::exception& ) {}
   raw_ = var_node.Attribute<bool>("raw", false);
-- 
2.43.0


From 5a058e18ff1ca740d5e7587e1ea0cd65408f8e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 33/48] fix: a name block with only a default name is stored

---
 mdflib/src/mdalternativename.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/mdalternativename.cpp b/mdflib/src/mdalternativename.cpp
index d3c5648..a7f083e 100644
--- a/mdflib/src/mdalternativename.cpp
+++ b/mdflib/src/mdalternativename.cpp
@@ -13,7 +13,7 @@
 namespace mdf {
 
 bool MdAlternativeName::IsActive() const {
-  return !name_list_.empty() || !display_list_.empty() ||
+  return !default_name_.empty() || !name_list_.empty() || !display_list_.empty() ||
       !vendor_list_.empty() || !description_list_.empty();
 }
 
-- 
2.43.0


From bc50b101482655ad529c8b345bc293300b522fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 34/48] fix: read the value of a hexadecimal property

---
 mdflib/src/mdproperty.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/mdproperty.cpp b/mdflib/src/mdproperty.cpp
index e17ef11..c1aa69f 100644
--- a/mdflib/src/mdproperty.cpp
+++ b/mdflib/src/mdproperty.cpp
@@ -216,6 +216,7 @@ void MdProperty::Name(std::string name) {
     try {
       switch (DataType()) {
         case MdDataType::MdInteger:
+        case MdDataType::MdHex:
           if (value_.size() > 2 && value_.substr(0,2) == "0x" ) {
             // HEX decode
             const auto hex_value = value_.substr(2);
-- 
2.43.0


From ebd40d42183e1575ae63529973f1023492c641ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:26 +0000
Subject: [PATCH 35/48] fix: set the started state after the start time is in
 place

The working thread saves the queue as soon as it sees the started state. When
that happened before the start time was set and the queued samples were
recalculated, the samples were stored with absolute times, and the header did
not get its start time.
---
 mdflib/src/mdfwriter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index affbad4..5a50f8f 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -277,7 +277,6 @@ bool MdfWriter::InitMeasurement() {
 }
 
 void MdfWriter::StartMeasurement(uint64_t start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time;
   stop_time_ = 0;  // Zero indicate not stopped
 
@@ -285,8 +284,6 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
-  NotifySample();
-
   // Set the time in the header if this is the first DG block in the file.
   // This gives a better start time than when the file was created.
   if ( auto* header = Header();
@@ -294,11 +291,13 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
     header->StartTime(start_time);
   }
 
+  // The working thread may save the queue as soon as the state is set, so the
+  // times above must be in place first.
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 }
 
 void MdfWriter::StartMeasurement(ITimestamp &start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time.GetUtcTimeNs();
   stop_time_ = 0;  // Zero indicate not stopped
                    
@@ -306,8 +305,6 @@ void MdfWriter::StartMeasurement(ITimestamp &start_time) {
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
-  NotifySample();
-
   // Set the time in the header if this is the first DG block in the file.
   // This gives a better start time than when the file was created.
   if ( auto* header = Header();
@@ -315,6 +312,9 @@ void MdfWriter::StartMeasurement(ITimestamp &start_time) {
     header->StartTime(start_time);
   }
 
+  // The working thread may save the queue as soon as the state is set, so the
+  // times above must be in place first.
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 }
 
-- 
2.43.0


From 1c7a94c8c90a0900e72008c22d6cc8b567ed50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:23 +0000
Subject: [PATCH 36/48] fix: do not read a sample after it is removed from the
 queue

SampleQueue::PopSample used a reference to the record that pop_front() destroys.
---
 mdflib/src/samplequeue.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 867db6f..f4d502c 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -44,10 +44,8 @@ SampleRecord SampleQueue::GetSample() {
 }
 
 void SampleQueue::PopSample() {
-  const SampleRecord& record = queue_.front();
+  size_ -= queue_.front().SampleSize();
   queue_.pop_front();
-  size_ -= record.SampleSize();
-
 }
 void SampleQueue::Reset() {
   queue_.clear();
-- 
2.43.0


From 243c79f2b2eb5ce4525584b81a1cadcf73441c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:24 +0000
Subject: [PATCH 37/48] fix: keep the pre-trigger samples when the start time
 is less than the pre-trigger time

The difference of the unsigned times wrapped around, so all samples but the
last were removed from the queue.
---
 mdflib/src/samplequeue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index f4d502c..1a2b7f8 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -68,8 +68,8 @@ void SampleQueue::TrimQueue() {
     const auto next_time = queue_[1].timestamp;
     const auto last_time = queue_.back().timestamp;
     if (start_time > 0) {
-      // Measurement started
-      if (next_time >= start_time - pre_trig_time) {
+      // Measurement started. Note that the times are unsigned.
+      if (next_time + pre_trig_time >= start_time) {
         break;
       }
     } else {
-- 
2.43.0


From c7217e1942229fcc7d4e0c11ec62f3646d44cf8c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:10:25 +0000
Subject: [PATCH 38/48] fix: stop reading when a link leads back to a block
 already read

---
 mdflib/src/cc4block.cpp      |  4 ++--
 mdflib/src/cn4block.cpp      |  7 ++++++-
 mdflib/src/datalistblock.cpp | 16 ++++++++++++----
 mdflib/src/mdfblock.cpp      | 10 ++++++++++
 mdflib/src/mdfblock.h        | 15 ++++++++++++++-
 5 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/cc4block.cpp b/mdflib/src/cc4block.cpp
index cb673ff..c0b4742 100644
--- a/mdflib/src/cc4block.cpp
+++ b/mdflib/src/cc4block.cpp
@@ -242,7 +242,7 @@ uint64_t Cc4Block::Read(std::streambuf& buffer) {  // NOLINT
   }
   ReadMdComment(buffer, kIndexMd);
 
-  if (Link(kIndexInverse) > 0) {
+  if (Link(kIndexInverse) > 0 && !IsCircular(Link(kIndexInverse))) {
     SetFilePosition(buffer, Link(kIndexInverse));
     cc_block_ = std::make_unique<Cc4Block>();
     cc_block_->Init(*this);
@@ -250,7 +250,7 @@ uint64_t Cc4Block::Read(std::streambuf& buffer) {  // NOLINT
   }
   if (ref_list_.empty() && nof_references_ > 0) {
     for (uint16_t ii = 0; ii < nof_references_; ++ii) {
-      if (Link(kIndexRef + ii) <= 0) {
+      if (Link(kIndexRef + ii) <= 0 || IsCircular(Link(kIndexRef + ii))) {
         ref_list_.emplace_back(std::unique_ptr<MdfBlock>());
         continue;
       }
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 42f0b01..5b0b86a 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -417,7 +417,10 @@ uint64_t Cn4Block::Read(std::streambuf& buffer) {
     auto block_type = ReadBlockType(buffer);
 
     if (cx_list_.empty() && (Link(kIndexCx) > 0)) {
-      for (auto link = Link(kIndexCx); link > 0; /* No ++ here*/) {
+      std::set<int64_t> visited; // Detects circular links in a corrupt file
+      for (auto link = Link(kIndexCx);
+           link > 0 && !IsCircular(link) && visited.insert(link).second;
+           /* No ++ here*/) {
         if (block_type == "CA") {
           auto ca_block = std::make_unique<Ca4Block>();
           ca_block->Init(*this);
@@ -433,6 +436,8 @@ uint64_t Cn4Block::Read(std::streambuf& buffer) {
           cn_block->Read(buffer);
           link = cn_block->Link(0);
           cx_list_.emplace_back(std::move(cn_block));
+        } else {
+          break; // Not a composition block
         }
       }
     }
diff --git a/mdflib/src/datalistblock.cpp b/mdflib/src/datalistblock.cpp
index 8dfd3f6..623a06a 100644
--- a/mdflib/src/datalistblock.cpp
+++ b/mdflib/src/datalistblock.cpp
@@ -26,7 +26,9 @@ constexpr size_t kIndexNext = 0;
 namespace mdf::detail {
 
 void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
-  if (block_list_.empty() && Link(data_index) > 0) {
+  std::set<int64_t> visited; // Detects circular links in a corrupt file
+  if (block_list_.empty() && Link(data_index) > 0 &&
+      !IsCircular(Link(data_index))) {
     SetFilePosition(buffer, Link(data_index));
     std::string block_type = ReadBlockType(buffer);
 
@@ -52,7 +54,9 @@ void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
       di_block->Read(buffer);
       block_list_.emplace_back(std::move(di_block));
     } else if (block_type == "DL") {
-      for (auto link = Link(data_index); link > 0; /* no increment here*/) {
+      for (auto link = Link(data_index);
+           link > 0 && !IsCircular(link) && visited.insert(link).second;
+           /* no increment here*/) {
         SetFilePosition(buffer, link);
         auto dl = std::make_unique<Dl4Block>();
         dl->Init(*this);
@@ -61,7 +65,9 @@ void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
         block_list_.emplace_back(std::move(dl));
       }
     } else if (block_type == "LD") {
-      for (auto link = Link(data_index); link > 0; /* no increment here*/) {
+      for (auto link = Link(data_index);
+           link > 0 && !IsCircular(link) && visited.insert(link).second;
+           /* no increment here*/) {
         SetFilePosition(buffer, link);
         auto ld_block = std::make_unique<Ld4Block>();
         ld_block->Init(*this);
@@ -75,7 +81,9 @@ void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
       hl->Read(buffer);
       block_list_.emplace_back(std::move(hl));
     } else if (block_type == "SR") {
-      for (auto link = Link(data_index); link > 0; /* no increment here*/) {
+      for (auto link = Link(data_index);
+           link > 0 && !IsCircular(link) && visited.insert(link).second;
+           /* no increment here*/) {
         SetFilePosition(buffer, link);
         auto sr = std::make_unique<Sr4Block>();
         sr->Init(*this);
diff --git a/mdflib/src/mdfblock.cpp b/mdflib/src/mdfblock.cpp
index b4f086f..8591637 100644
--- a/mdflib/src/mdfblock.cpp
+++ b/mdflib/src/mdfblock.cpp
@@ -460,6 +460,16 @@ void MdfBlock::Init(const MdfBlock &id_block) {
   parent_ = &id_block;
 }
 
+bool MdfBlock::IsCircular(int64_t link) const {
+  for (const MdfBlock* block = this; block != nullptr;
+       block = block->parent_) {
+    if (block->file_position_ == link) {
+      return true;
+    }
+  }
+  return false;
+}
+
 const MdfBlock* MdfBlock::HeaderBlock() const {
   if (BlockType() == "HD") {
     return this;
diff --git a/mdflib/src/mdfblock.h b/mdflib/src/mdfblock.h
index 17f0ebc..1843b52 100644
--- a/mdflib/src/mdfblock.h
+++ b/mdflib/src/mdfblock.h
@@ -7,6 +7,7 @@
 #include <cstdio>
 #include <iomanip>
 #include <memory>
+#include <set>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -241,6 +242,15 @@ class MdfBlock {
   //                   std::vector<std::unique_ptr<T>> &block_list,
   //                   size_t link_index);
 
+  /** \brief Checks if a link points to this block or to any of its parents.
+   *
+   * A valid file never links back to the block that is being read. This is
+   * used to stop endless reading of a corrupt file.
+   * @param link File position of the linked block.
+   * @return True if the link is circular.
+   */
+  [[nodiscard]] bool IsCircular(int64_t link) const;
+
   /** \brief Writes a list of blocks to the file.
    *
    * Helper function that writes a list of MDF4 blocks onto a file.
@@ -424,8 +434,11 @@ template <typename T>
 void MdfBlock::ReadLink4List(std::streambuf& buffer,
                                    std::vector<std::unique_ptr<T>> &block_list,
                                    size_t link_index) {
+  std::set<int64_t> visited; // Detects circular links in a corrupt file
   if (block_list.empty() && (Link(link_index) > 0))
-    for (int64_t link = Link(link_index); link > 0; /* No ++ here*/) {
+    for (int64_t link = Link(link_index);
+         link > 0 && !IsCircular(link) && visited.insert(link).second;
+         /* No ++ here*/) {
       auto block = std::make_unique<T>();
       block->Init(*this);
       SetFilePosition(buffer, link);
-- 
2.43.0


From 79e186f54147c192c9e8f50ae76f9ac5fbfd9e98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:10:25 +0000
Subject: [PATCH 39/48] fix: a file too short for an ID block is no MDF file

---
 mdflib/src/mdfreader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/mdfreader.cpp b/mdflib/src/mdfreader.cpp
index 0a6cd1c..eadca88 100644
--- a/mdflib/src/mdfreader.cpp
+++ b/mdflib/src/mdfreader.cpp
@@ -302,7 +302,14 @@ void MdfReader::VerifyMdfFile() {
   }
 
   auto id_block = std::make_unique<detail::IdBlock>();
-  id_block->Read(*file_);
+  try {
+    id_block->Read(*file_);
+  } catch (const std::exception &error) {
+    MDF_ERROR() << "The ID block couldn't be read. File: " << Filename()
+                << ", Error: " << error.what();
+    Close();
+    return;
+  }
 
   if (Platform::strnicmp(id_block->FileId().c_str(), "MDF", 3) == 0 ||
       Platform::strnicmp(id_block->FileId().c_str(), "UnFinMF", 7) == 0) {
-- 
2.43.0


From 2cfd248b7c07fb30d9fda8433a6fdfea76872b8e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:10:25 +0000
Subject: [PATCH 40/48] fix: a text ends at the end of the file

---
 mdflib/src/mdfblock.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdflib/src/mdfblock.cpp b/mdflib/src/mdfblock.cpp
index 8591637..1fa6330 100644
--- a/mdflib/src/mdfblock.cpp
+++ b/mdflib/src/mdfblock.cpp
@@ -232,6 +232,9 @@ uint64_t ReadStr(std::streambuf& buffer, std::string &dest, uint64_t size) {
   uint64_t ii;
   for (ii = 0; ii < size; ++ii) {
     const int input = buffer.sbumpc();
+    if (input == std::streambuf::traits_type::eof()) {
+      break;
+    }
     if (input == '\0') {
       ++ii;
       break;
-- 
2.43.0


From 9b4907c3aa255c8e116dbdec7f927709ffc2de4a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:10:25 +0000
Subject: [PATCH 41/48] fix: no text is read from a block that is too short for
 one

---
 mdflib/src/tx4block.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/tx4block.cpp b/mdflib/src/tx4block.cpp
index c1b1a8d..8ddf5d2 100644
--- a/mdflib/src/tx4block.cpp
+++ b/mdflib/src/tx4block.cpp
@@ -76,7 +76,9 @@ size_t Tx4Block::Write(std::FILE *file) {
 
 uint64_t Tx4Block::Read(std::streambuf& buffer) {
   uint64_t bytes = ReadHeader4(buffer);
-  bytes += ReadStr(buffer, text_, block_length_ - bytes);
+  if (block_length_ > bytes) {
+    bytes += ReadStr(buffer, text_, block_length_ - bytes);
+  }
   return bytes;
 }
 
-- 
2.43.0


From a6c7cf868b8e2f956a80a27eac755f2f591be514 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:10:25 +0000
Subject: [PATCH 42/48] fix: only stored references of an event or a channel
 hierarchy are searched for

---
 mdflib/src/ch4block.cpp | 6 ++++--
 mdflib/src/ev4block.cpp | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index d011651..4a8e44b 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -147,9 +147,11 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
-  for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
+  for (size_t index_n = 0; index_n < nof_elements_; ++index_n) {
     const auto index = kIndexElement + (index_n * 3);
-    if (index < link_list_.size()) {
+    if (index >= link_list_.size()) {
+      break;
+    } else {
       const auto *block1 = hd4.Find(Link(index));
       const auto *block2 = hd4.Find(Link(index + 1));
       const auto *block3 = hd4.Find(Link(index + 2));
diff --git a/mdflib/src/ev4block.cpp b/mdflib/src/ev4block.cpp
index 3d59dfd..b3b799c 100644
--- a/mdflib/src/ev4block.cpp
+++ b/mdflib/src/ev4block.cpp
@@ -315,7 +315,9 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   scope_list_.clear();
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
-    if (index < link_list_.size()) {
+    if (index >= link_list_.size()) {
+      break;
+    } else {
       scope_list_.push_back(
           dynamic_cast<const IBlock *>(hd4.Find(Link(index))));
     }
-- 
2.43.0


From 26513e1bb02f69011c0f36a39e54cb9536cab2db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 43/48] fix: reading data stops at the end of the file

---
 mdflib/src/readcache.cpp | 43 ++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index c74dfff..11ac4f8 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -4,6 +4,7 @@
  */
 
 #include "readcache.h"
+#include <algorithm>
 #include <iostream>
 
 #include "mdf/mdflogstream.h"
@@ -30,18 +31,26 @@ ReadCache::ReadCache( MdfBlock* block, std::streambuf& buffer)
     }
   }
 
-  if (data_list_ != nullptr) {
-    max_data_count_ = data_list_->DataSize();
-  } else if (data_block_ != nullptr) {
-    max_data_count_ = data_block_->DataSize();
-  }
-
   // Make a list of data blocks that simplify the stepping of data blocks.
   if (data_list_ != nullptr)  {
     data_list_->GetDataBlockList(block_list_);
   } else if (data_block_ != nullptr) {
     block_list_.push_back(data_block_);
   }
+
+  // Number of data bytes. Note that a block in a truncated file may end after
+  // the end of the file.
+  const auto file_size =
+      block_list_.empty() ? 0 : GetLastFilePosition(buffer_);
+  for (const auto* data_block : block_list_) {
+    uint64_t data_size = data_block->DataSize();
+    if (data_block->BlockType() != "DZ") {
+      const auto left = file_size - data_block->DataPosition();
+      data_size = std::min(data_size, static_cast<uint64_t>(
+          std::max(left, static_cast<int64_t>(0))));
+    }
+    max_data_count_ += data_size;
+  }
 }
 
 bool ReadCache::ParseRecord() {
@@ -355,7 +364,11 @@ bool ReadCache::GetNextByte(uint8_t &input) {
   if ( file_index_ < data_size_) {
     if (file_buffer_.empty()) {
       // Read direct from the file
-     input = buffer_.sbumpc();
+     const auto next = buffer_.sbumpc();
+     if (next == std::streambuf::traits_type::eof()) {
+       return false;
+     }
+     input = static_cast<uint8_t>(next);
     } else {
       // Read from buffer in case of DZ block
       input = file_buffer_[file_index_];
@@ -402,7 +415,11 @@ bool ReadCache::GetNextByte(uint8_t &input) {
     return false;
   }
   if (file_buffer_.empty()) {
-    input = buffer_.sbumpc();
+    const auto next = buffer_.sbumpc();
+    if (next == std::streambuf::traits_type::eof()) {
+      return false;
+    }
+    input = static_cast<uint8_t>(next);
   } else {
     input = file_buffer_[file_index_];
   }
@@ -515,13 +532,9 @@ void ReadCache::SkipBytes(size_t nof_skip) {
     }
     // In right block. Set up the file buffer.
     if (current_block->BlockType() == "DZ") {
-      try {
-        file_buffer_.resize(static_cast<size_t>(data_size_) );
-        uint64_t temp_index = 0;
-        current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
-      } catch (const std::exception&) {
-        break;;
-      }
+      file_buffer_.resize(static_cast<size_t>(data_size_) );
+      uint64_t temp_index = 0;
+      current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
     } else {
       file_buffer_.clear();
       SetFilePosition(buffer_, current_block->DataPosition());
-- 
2.43.0


From 55265ea888006b771dfcb0d1144ea9c8d83f59c5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 44/48] fix: do not read empty records forever

---
 mdflib/src/readcache.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 11ac4f8..2b765e6 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -99,6 +99,9 @@ bool ReadCache::ParseRecord() {
     } else {
       const size_t record_size = channel_group->NofDataBytes()
                                  + channel_group->NofInvalidBytes();
+      if (record_size == 0 && dg4_block_->RecordIdSize() == 0) {
+        throw std::runtime_error("Empty records cannot be read.");
+      }
       // Normal fixed length records
       if (record_id_list_.find(record_id) == record_id_list_.cend()) {
         SkipBytes(record_size);
@@ -184,6 +187,9 @@ bool ReadCache::ParseRangeRecord(DgRange& range) {
     } else {
       const size_t record_size = channel_group->NofDataBytes()
                                  + channel_group->NofInvalidBytes();
+      if (record_size == 0 && dg4_block_->RecordIdSize() == 0) {
+        throw std::runtime_error("Empty records cannot be read.");
+      }
       // Normal fixed length records
       if (!cg_range->IsUsed() ||
           next_sample < range.MinSample() ||
@@ -346,6 +352,9 @@ bool ReadCache::ParseVlsdCgData() {
       } else {
         const size_t record_size = channel_group->NofDataBytes()
                                    + channel_group->NofInvalidBytes();
+        if (record_size == 0 && dg4_block_->RecordIdSize() == 0) {
+          throw std::runtime_error("Empty records cannot be read.");
+        }
         SkipBytes(record_size);
         skip = true;
       }
-- 
2.43.0


From 78aa3facfafd0f3ad26181ca155663f888ed8825 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 45/48] fix: do not copy more than a compressed block holds

---
 mdflib/src/dz4block.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdflib/src/dz4block.cpp b/mdflib/src/dz4block.cpp
index 19a87af..d0c6577 100644
--- a/mdflib/src/dz4block.cpp
+++ b/mdflib/src/dz4block.cpp
@@ -119,6 +119,11 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
     return 0;
   }
 
+  if (dest.size() < buffer_index ||
+      dest.size() - buffer_index < orig_data_length_) {
+    throw std::runtime_error("Buffer overflow detected.");
+  }
+
   SetFilePosition(from_file, data_position_);
 
   uint64_t count = 0;
@@ -129,6 +134,7 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
                               static_cast<std::streamsize>(temp.size()) );
       ByteArray out(static_cast<size_t>(orig_data_length_), 0);
       Inflate(temp, out);
+      out.resize(static_cast<size_t>(orig_data_length_), 0);
       count = orig_data_length_;
       memcpy(dest.data() + buffer_index, out.data(), static_cast<size_t>(count) );
       buffer_index += count;
@@ -141,6 +147,7 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
                       static_cast<std::streamsize>(temp.size()) );
       ByteArray out(static_cast<size_t>( orig_data_length_ ), 0);
       Inflate(temp, out);
+      out.resize(static_cast<size_t>(orig_data_length_), 0);
       InvTranspose(out, parameter_);
 
       count = orig_data_length_;
-- 
2.43.0


From 7b64a2228f00e31d38d680532842f0857ca0bc98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:21:41 +0000
Subject: [PATCH 46/48] fix: stop reading when a link of an MDF 3 file leads
 back to a block already read

---
 mdflib/src/cg3block.cpp | 8 ++++++--
 mdflib/src/dg3block.cpp | 4 +++-
 mdflib/src/hd3block.cpp | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/cg3block.cpp b/mdflib/src/cg3block.cpp
index 90dcaac..f89d04c 100644
--- a/mdflib/src/cg3block.cpp
+++ b/mdflib/src/cg3block.cpp
@@ -185,7 +185,9 @@ uint64_t Cg3Block::Write(std::streambuf& buffer) {
 
 void Cg3Block::ReadCnList(std::streambuf& buffer) {
   if (cn_list_.empty() && Link(kIndexCn) > 0) {
-    for (auto link = Link(kIndexCn); link > 0; /* No ++ here*/) {
+    std::set<int64_t> visited; // Detects circular links in a corrupt file
+    for (auto link = Link(kIndexCn);
+         link > 0 && visited.insert(link).second; /* No ++ here*/) {
       auto cn = std::make_unique<Cn3Block>();
       cn->Init(*this);
       SetFilePosition(buffer, link);
@@ -198,7 +200,9 @@ void Cg3Block::ReadCnList(std::streambuf& buffer) {
 
 void Cg3Block::ReadSrList(std::streambuf& buffer) {
   if (sr_list_.empty() && Link(kIndexSr) > 0) {
-    for (auto link = Link(kIndexSr); link > 0; /* No ++ here*/) {
+    std::set<int64_t> visited; // Detects circular links in a corrupt file
+    for (auto link = Link(kIndexSr);
+         link > 0 && visited.insert(link).second; /* No ++ here*/) {
       auto sr = std::make_unique<Sr3Block>();
       sr->Init(*this);
       SetFilePosition(buffer, link);
diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 24f0b2d..335b7d5 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -75,7 +75,9 @@ uint64_t Dg3Block::Read(std::streambuf& buffer) {
   }
 
   cg_list_.clear();
-  for (auto link = Link(kIndexCg); link > 0; /* No ++ here*/) {
+  std::set<int64_t> visited; // Detects circular links in a corrupt file
+  for (auto link = Link(kIndexCg);
+       link > 0 && visited.insert(link).second; /* No ++ here*/) {
     auto cg3 = std::make_unique<Cg3Block>();
     cg3->Init(*this);
     SetFilePosition(buffer, link);
diff --git a/mdflib/src/hd3block.cpp b/mdflib/src/hd3block.cpp
index fee5c39..5837964 100644
--- a/mdflib/src/hd3block.cpp
+++ b/mdflib/src/hd3block.cpp
@@ -221,7 +221,9 @@ uint64_t Hd3Block::Write(std::streambuf& buffer) {
 
 void Hd3Block::ReadMeasurementInfo(std::streambuf& buffer) {
   dg_list_.clear();
-  for (auto link = Link(kIndexDg); link > 0; /* No ++ here*/) {
+  std::set<int64_t> visited; // Detects circular links in a corrupt file
+  for (auto link = Link(kIndexDg);
+       link > 0 && visited.insert(link).second; /* No ++ here*/) {
     auto dg = std::make_unique<Dg3Block>();
     dg->Init(*this);
     SetFilePosition(buffer, link);
-- 
2.43.0


From 2ba80b18572ce7bd06180e9f545c9c017a39d9b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:22:26 +0000
Subject: [PATCH 47/48] fix: no text is read from an MDF 3 block that is too
 short for one

---
 mdflib/src/pr3block.cpp | 4 +++-
 mdflib/src/tx3block.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/pr3block.cpp b/mdflib/src/pr3block.cpp
index ce1520a..143136a 100644
--- a/mdflib/src/pr3block.cpp
+++ b/mdflib/src/pr3block.cpp
@@ -14,7 +14,9 @@ Pr3Block::Pr3Block(std::string meta_data) : text_(std::move(meta_data)) {}
 
 uint64_t Pr3Block::Read(std::streambuf& buffer) {
   uint64_t bytes = ReadHeader3(buffer);
-  bytes += ReadStr(buffer, text_, block_size_ - bytes);
+  if (block_size_ > bytes) {
+    bytes += ReadStr(buffer, text_, block_size_ - bytes);
+  }
   return bytes;
 }
 
diff --git a/mdflib/src/tx3block.cpp b/mdflib/src/tx3block.cpp
index 6d1032e..1d12ee0 100644
--- a/mdflib/src/tx3block.cpp
+++ b/mdflib/src/tx3block.cpp
@@ -16,7 +16,9 @@ Tx3Block::Tx3Block(std::string text) : text_(std::move(text)) {}
 
 uint64_t Tx3Block::Read(std::streambuf& buffer) {
   uint64_t bytes = ReadHeader3(buffer);
-  bytes += ReadStr(buffer, text_, block_length_ - bytes);
+  if (block_length_ > bytes) {
+    bytes += ReadStr(buffer, text_, block_length_ - bytes);
+  }
   return bytes;
 }
 
-- 
2.43.0


From a1817522384b384a8bc8fd008c2e9d6ebaae0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 48/48] fix: reading a range of MDF 3 data stops at the end of
 the file

---
 mdflib/src/dg3block.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 335b7d5..f62d058 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -197,6 +197,10 @@ void Dg3Block::ReadRangeData(std::streambuf& buffer, DgRange& range) {
   InitFastObserverList();
 
   uint64_t data_size = DataSize();
+  // Note that the data in a truncated file may end after the end of the file.
+  const int64_t left = GetLastFilePosition(buffer) - Link(kIndexData);
+  data_size = std::min(data_size,
+      static_cast<uint64_t>(std::max(left, static_cast<int64_t>(0))));
   SetFilePosition(buffer, Link(kIndexData));
 
   // Read in all SR block data
-- 
2.43.0

