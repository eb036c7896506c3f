From a2e6f2e8334280950e3afda5084d8d52cd29e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 01/25] fix: dynamic_bitset keeps the unused bits of the last
 block zero

set(), flip() and operator~ left ones beyond num_bits, so equal bitsets compared unequal
---
 src/DRAMPower/DRAMPower/util/dynamic_bitset.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
index cc0eb2b..c41c405 100644
--- a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
+++ b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
@@ -25,6 +25,13 @@ private:
     std::size_t num_bits = 0;
     std::bitset<blocksize> lastelementmask;
     buffer_t buffer;
+private:
+    // The bits of the last block beyond num_bits are always zero; comparisons rely on it
+    void clearUnusedBits() {
+        if (0 != num_bits % blocksize) {
+            buffer.back() &= lastelementmask;
+        }
+    }
 public:
     explicit dynamic_bitset(std::size_t num_bits)
     : num_bits(num_bits)
@@ -92,6 +99,7 @@ public: // element manipulation
         for (auto &element : buffer) {
             element.set();
         }
+        clearUnusedBits();
     }
     void reset() {
         for (auto &element : buffer) {
@@ -102,6 +110,7 @@ public: // element manipulation
         for (auto &element : buffer) {
             element.flip();
         }
+        clearUnusedBits();
     }
     void flip(std::size_t n) {
         buffer.at(n / blocksize).flip(n % blocksize);
@@ -162,6 +171,7 @@ public: // bitset operations
         for (std::size_t i = 0; i < this->buffer.size(); ++i) {
             bitset.buffer.at(i) = ~buffer.at(i);
         };
+        bitset.clearUnusedBits();
     
         return bitset;
     }
-- 
2.43.0


From 17d691edd71bfac4a48528961854247e54de6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 02/25] fix: CmdTypeUtil::from_string accepts the name
 to_string gives END_OF_SIMULATION

---
 src/DRAMPower/DRAMPower/command/CmdType.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/command/CmdType.h b/src/DRAMPower/DRAMPower/command/CmdType.h
index 67a4a07..2a1b764 100644
--- a/src/DRAMPower/DRAMPower/command/CmdType.h
+++ b/src/DRAMPower/DRAMPower/command/CmdType.h
@@ -102,7 +102,7 @@ namespace CmdTypeUtil
 			return CmdType::DSMEN;
 		if (str == "DSMEX")
 			return CmdType::DSMEX;
-		if (str == "END")
+		if (str == "END" || str == "END_OF_SIMULATION")
 			return CmdType::END_OF_SIMULATION;
 		return CmdType::NOP;
 	};
-- 
2.43.0


From 6eceeb590b67a36b1aa5dccd3d5d94ccac60fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 03/25] fix: a default constructed Command has a defined type
 and size

---
 src/DRAMPower/DRAMPower/command/Command.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/command/Command.h b/src/DRAMPower/DRAMPower/command/Command.h
index a0d65a4..66ef22e 100644
--- a/src/DRAMPower/DRAMPower/command/Command.h
+++ b/src/DRAMPower/DRAMPower/command/Command.h
@@ -28,12 +28,12 @@ public:
 
 public:
     timestamp_t timestamp = 0;
-    CmdType type;
+    CmdType type = CmdType::NOP;
     TargetCoordinate targetCoordinate;
 
 
     const uint8_t * data = 0x00;
-	std::size_t sz_bits;
+	std::size_t sz_bits = 0;
     //uint64_t burstLength;
 public:
 };
-- 
2.43.0


From 57b65def427e509d2fb3caecfd8f1ecdce9d0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 04/25] fix: PatternHandler saves and restores the last
 transmitted pattern

---
 src/DRAMPower/DRAMPower/util/PatternHandler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/PatternHandler.h b/src/DRAMPower/DRAMPower/util/PatternHandler.h
index a08cea0..cf6e48c 100644
--- a/src/DRAMPower/DRAMPower/util/PatternHandler.h
+++ b/src/DRAMPower/DRAMPower/util/PatternHandler.h
@@ -102,9 +102,11 @@ public:
 public:
     void serialize(std::ostream& stream) const override {
         m_encoder.serialize(stream);
+        stream.write(reinterpret_cast<const char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
     void deserialize(std::istream& stream) override {
         m_encoder.deserialize(stream);
+        stream.read(reinterpret_cast<char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
 
 // Private member variables
-- 
2.43.0


From 71d2faf86c935f67245ffc7859f8cb62a4e4ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 05/25] fix: DBI reads its saved data back with the element
 type it was written with

---
 src/DRAMPower/DRAMPower/util/dbi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0f0a24f..c6e68b4 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -137,7 +137,7 @@ private:
             m_lastbeat.clear();
             m_lastbeat.reserve(m_lastbeatSize);
             for (std::size_t i = 0; i < m_lastbeatSize; ++i) {
-                bool entry;
+                DataType_t entry;
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_lastbeat.push_back(entry);
             }
@@ -341,7 +341,7 @@ public:
         m_invertedData.clear();
         m_invertedData.reserve(invertedDataSize);
         for (std::size_t i = 0; i < invertedDataSize; ++i) {
-            uint8_t byte;
+            DataType_t byte;
             stream.read(reinterpret_cast<char*>(&byte), sizeof(byte));
             m_invertedData.push_back(byte);
         }
-- 
2.43.0


From 02ce35716c5b5c644c53ce444822e4421c372611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 06/25] fix: DBI inversion state covers every chunk of a burst
 longer than all before

---
 src/DRAMPower/DRAMPower/util/dbi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index c6e68b4..cc72bfc 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -270,7 +270,7 @@ public:
         std::size_t n_chunks = n_bits / ChunkSize;
         
         // Resize lastInvert vector if needed
-        if (lastInvert.capacity() < n_chunks) {
+        if (lastInvert.size() < n_chunks) {
             lastInvert.resize(n_chunks, false);
         }
         
-- 
2.43.0


From 833af5109a9d37f1d7f93872b5057abaacb00bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 07/25] fix: LPDDR4/5/6 interfaces save and restore their data
 bus inversion state

---
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr6/LPDDR6Interface.cpp |  6 ++++++
 3 files changed, 34 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index c2cace5..aa27061 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -274,6 +274,13 @@ void LPDDR4Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_writeDQS.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto& pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR4Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -283,6 +290,13 @@ void LPDDR4Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_writeDQS.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto& pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 05044bf..5825ca0 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -400,6 +400,13 @@ void LPDDR5Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto& pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR5Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -409,6 +416,13 @@ void LPDDR5Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto& pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 } // namespace DRAMPower
\ No newline at end of file
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 77d7e90..593d998 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -378,6 +378,9 @@ void LPDDR6Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    stream.write(reinterpret_cast<const char*>(m_formatter.m_metaData.data()), sizeof(m_formatter.m_metaData));
+    stream.write(reinterpret_cast<const char*>(&m_enabled), sizeof(m_enabled));
 }
 
 void LPDDR6Interface::deserialize(std::istream& stream) {
@@ -388,6 +391,9 @@ void LPDDR6Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    stream.read(reinterpret_cast<char*>(m_formatter.m_metaData.data()), sizeof(m_formatter.m_metaData));
+    stream.read(reinterpret_cast<char*>(&m_enabled), sizeof(m_enabled));
 }
 
 std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatData(
-- 
2.43.0


From 221d52178a787e8d325542526642a89cdc816ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 08/25] fix: active power-down exit resumes exactly the active
 banks

A bank whose refresh ended at the power-down entry was taken for an
active bank and counted as active from the power-down exit on.
---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index 2d27b3f..fe70f9e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -257,7 +257,7 @@ void DDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timestam
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index f55157b..9acf224 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -193,7 +193,7 @@ void LPDDR4Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index ba15dc9..263740b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -254,7 +254,7 @@ void LPDDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index 4b67fd8..e0aabda 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -248,7 +248,7 @@ void LPDDR6Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         rank.cycles.powerDownAct.close_interval(exitTime);
         rank.cycles.act.start_interval(exitTime);
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 bank.cycles.act.start_interval(exitTime);
             }
         }
-- 
2.43.0


From 1f15f3494e0f94ec6888505aa1255d4a2a36e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 09/25] fix: DDR4 rank statistics count the commands of the
 rank

The DQS pre- and postamble energy subtracts the seamless accesses from the
accesses counted per rank, which nobody filled in: one seamless access made
the difference wrap around.
---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 9a45d31..9dfbdef 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -301,8 +301,10 @@ void DDR4Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
     for (size_t i = 0; i < m_memSpec.numberOfRanks; ++i) {
         const Rank &rank = m_ranks[i];
         size_t bank_offset = i * m_memSpec.numberOfBanks;
+        stats.rank_total[i].counter = {};
         for (size_t j = 0; j < m_memSpec.numberOfBanks; ++j) {
             stats.bank[bank_offset + j].counter = rank.banks[j].counter;
+            stats.rank_total[i].counter += rank.banks[j].counter;
             stats.bank[bank_offset + j].cycles.act =
                 rank.banks[j].cycles.act.get_count_at(timestamp);
             stats.bank[bank_offset + j].cycles.selfRefresh =
-- 
2.43.0


From 5c0b95fd0fc854b067511c8a988fadadd58de3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 10/25] fix: DDR5 toggling rate energy honours the DQ
 termination setting

---
 .../DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
index c6cd8d4..c231ed8 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
@@ -73,13 +73,13 @@ interface_energy_info_t InterfaceCalculation_DDR5::calcDQEnergyTogglingRate(cons
 
     // Read
     result.dram.staticEnergy +=
-        calcStaticTermination(impedances_.rdq_R_eq, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.rdq_termination, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.dram.dynamicEnergy +=
         calc_dynamic_energy(stats.read.zeroes_to_ones, impedances_.rdq_dyn_E);
 
     // Write
     result.controller.staticEnergy +=
-        calcStaticTermination(impedances_.wdq_R_eq, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.wdq_termination, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.controller.dynamicEnergy +=
         calc_dynamic_energy(stats.write.zeroes_to_ones, impedances_.wdq_dyn_E);
 
-- 
2.43.0


From 2aab4460779649ed1267cf7db1959a720f43b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 11/25] fix: LPDDR5 specification without bank groups does not
 divide by zero

---
 src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
index 5eb179a..08f196a 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
@@ -8,7 +8,6 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
 {
     numberOfBankGroups      = memspec.memarchitecturespec.nbrOfBankGroups;
     numberOfRanks           = memspec.memarchitecturespec.nbrOfRanks;
-    banksPerGroup           = numberOfBanks / numberOfBankGroups;
 
     memTimingSpec.tCK       = memspec.memtimingspec.tCK;
     memTimingSpec.WCKtoCK   = memspec.memtimingspec.WCK2CK;
@@ -114,6 +113,9 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
         BankArchError();
     }
 
+    // no bank groups (0) are accepted as one bank group
+    banksPerGroup = numberOfBankGroups == 0 ? numberOfBanks : numberOfBanks / numberOfBankGroups;
+
     // Source: LPDDR5 standard; table 312
     memTimingSpec.tBurst = burstLength/(dataRate * memTimingSpec.WCKtoCK);
 
-- 
2.43.0


From 975dabcae136112f11146ee2b7e2fa0a85b00cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 12/25] fix: a bus enabled again counts from the time it is
 enabled

---
 src/DRAMPower/DRAMPower/util/bus.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/bus.h b/src/DRAMPower/DRAMPower/util/bus.h
index 14e1ec3..84e1300 100644
--- a/src/DRAMPower/DRAMPower/util/bus.h
+++ b/src/DRAMPower/DRAMPower/util/bus.h
@@ -98,7 +98,7 @@ private:
 			stats += diff(this->at(t), this->at(t + 1)); // Last: (virtual_timestamp - 2, virtual_timestamp - 1)
 		}
 		// Burst to idle
-		if (virtual_timestamp > burstStorageEndTime && burstStorageEndTime > 0) {
+		if (virtual_timestamp > burstStorageEndTime && this->burst_storage.size() > 0) {
 			// Burst to idle
 			stats += diff(this->at(burstStorageEndTime - 1), this->at(burstStorageEndTime));
 		}
@@ -201,6 +201,7 @@ public:
 
 		add_previous_stats(this->virtual_disable_timestamp);
 		// Clear pending stats
+		this->pending_stats.clear();
 		this->burst_storage.clear();
 
 		this->last_load = this->virtual_disable_timestamp;
@@ -215,6 +216,7 @@ public:
 		assert(timestamp * datarate > this->virtual_disable_timestamp);
 		// Shift the counters to the enabled timestamp
 		this->last_load = timestamp * this->datarate;
+		this->burst_storage.setLoadTime(this->last_load);
 		// Add pending stats at enable timestamp
 		this->pending_stats.setPendingStats(this->last_load, idle_stats);
 		this->enableflag = true;
-- 
2.43.0


From 2ce41ddc6d6131b0adbf8a069bcebd1a94060427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 13/25] fix: DBI lines return to idle when the burst ends, not
 at the next burst

---
 src/DRAMPower/DRAMPower/util/dbi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index cc72bfc..a96f9b0 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -429,7 +429,7 @@ private:
                     std::size_t chunk_idx = chunk % getChunksPerWidth().value(); // Pin index
                     if (lastInvert[chunk]) {
                         // Reset the inversion state
-                        m_changeCallback(timestamp, t, chunk_idx, false, read);
+                        m_changeCallback(t, t, chunk_idx, false, read);
                     }
                     // Reset the inversion state for next pin updates
                     lastInvert[chunk] = false;
@@ -441,7 +441,7 @@ private:
                 // Looping over all chunks of the lastBurst
                 for (std::size_t chunk = 0; chunk < m_lastBurst.chunks(); chunk++) {
                     if (lastInvert[chunk]) {
-                        m_changeCallback(timestamp, t, chunk, false, read);
+                        m_changeCallback(t, t, chunk, false, read);
                     }
                     // Reset the inversion state for next updates
                     lastInvert[chunk] = false;
-- 
2.43.0


From 6d33f15a1f85b1c264d5f5fc8b4f169432709d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 14/25] fix: Pin::set scales the load time by the data rate
 once

---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 1a94e23..35c417e 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -143,7 +143,7 @@ public:
         timestamp_t virtual_load_time  = load_time * dataRate;
 
         // Count stats to virtual_load_time
-        set_internal(virtual_load_time, dataRate, m_pending_stats, m_stats);
+        set_internal(load_time, dataRate, m_pending_stats, m_stats);
         if (m_pending_stats.isPending() && m_pending_stats.getTimestamp() < virtual_load_time) {
             m_pending_stats.clear();
         }
-- 
2.43.0


From 556a64099959f9325c83087a2e5ca19b5a8fc752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 15/25] fix: DBI line statistics use the configured data rate

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp     | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 6845467..c7a455f 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -364,10 +364,10 @@ namespace DRAMPower {
         stats.writeDQSStats = NumDQsPairs * 2u * m_writeDQS.get_stats_at(timestamp);
 
         for (const auto &dbi_pin : m_dbiread) {
-            stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
         for (const auto &dbi_pin : m_dbiwrite) {
-            stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index aa27061..ccc2703 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -254,10 +254,10 @@ void LPDDR4Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.writeDQSStats = 2 * m_writeDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 
     if (m_memSpec.bitWidth == 16) {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 5825ca0..03f4ce4 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -385,10 +385,10 @@ void LPDDR5Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.readDQSStats = 2.0 * m_readDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 }
 
-- 
2.43.0


From 05dcf512d6efd71bd8a638197a9a58397199f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 16/25] fix: a DBI chunk of several sub chunks is decided on
 all of them

---
 src/DRAMPower/DRAMPower/util/dbihelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbihelpers.h b/src/DRAMPower/DRAMPower/util/dbihelpers.h
index 404ecb4..7c5b2f2 100644
--- a/src/DRAMPower/DRAMPower/util/dbihelpers.h
+++ b/src/DRAMPower/DRAMPower/util/dbihelpers.h
@@ -119,7 +119,7 @@ public:
     }
 
     inline bool last() const {
-        return 0 == (m_current_data_idx % COUNT_DATA);
+        return COUNT_DATA - 1 == m_current_data_idx;
     }
 
     inline static constexpr std::size_t getDataTotal() {
-- 
2.43.0


From 42f7f895aaed293e9dedbab2b454b29f7c490880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 17/25] fix: DDR5 interface knows the self refresh exit command

---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
index 777c51b..a8953b7 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
@@ -97,6 +97,10 @@ void DDR5Interface::registerPatterns() {
     m_patternHandler.registerPattern<CmdType::SREFEN>({
         H, H, H, L, H, V, V, V, V, H, L, V, V, V
     });
+    // SREFEX
+    m_patternHandler.registerPattern<CmdType::SREFEX>({
+        H, H, H, H, H, V, V, V, V, V, V, V, V, V
+    });
     // PDEA
     m_patternHandler.registerPattern<CmdType::PDEA>({
         H, H, H, L, H, V, V, V, V, V, H, L, V, V
-- 
2.43.0


From 6be322521e2f04f1aa777a965e45977d24496e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 18/25] fix: extensions supporting hooks beyond bit 30 are
 called for their own hooks only

---
 src/DRAMPower/DRAMPower/util/extension_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/extension_manager.h b/src/DRAMPower/DRAMPower/util/extension_manager.h
index 6f4eb42..f3731e7 100644
--- a/src/DRAMPower/DRAMPower/util/extension_manager.h
+++ b/src/DRAMPower/DRAMPower/util/extension_manager.h
@@ -179,7 +179,7 @@ private:
 
         const HookValue_t supportedHooks = static_cast<HookValue_t>(hookExt->getSupportedHooks());
         for (std::size_t i = 0; i < m_hookCache.size(); ++i) {
-            if ((supportedHooks & (1 << i)) != 0) {
+            if ((supportedHooks & (static_cast<HookValue_t>(1) << i)) != 0) {
                 m_hookCache[i].push_back(extension);
             }
         }
-- 
2.43.0


From dcc684da5db57750616a457c1b16b857aeb3e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 19/25] fix: report a malformed trace field as a parse error
 instead of terminating

---
 src/cli/lib/DRAMPower/cli/run.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 47253fb..09e4153 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -97,6 +97,7 @@ std::unique_ptr<dram_base<CmdType>> getMemory(const std::string_view &data, cons
 }
 
 bool parse_command_list(std::string_view csv_file, std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>> &commandList)
+try
 {
 	// Read csv file
 	csv::CSVFormat format;
@@ -160,7 +161,12 @@ bool parse_command_list(std::string_view csv_file, std::vector<std::pair<Command
 	}
 
 	return true;
-};
+}
+catch (const std::exception &)
+{
+	// e.g. the file cannot be read or a field is not a number
+	return false;
+}
 
 bool jsonFileResult(const std::string &jsonfile, const std::unique_ptr<dram_base<CmdType>> &ddr, const energy_t &core_energy, const interface_energy_info_t &interface_energy)
 {
-- 
2.43.0


From 229173829677ea57ef370df70815161bde5695d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 20/25] fix: reject trace data with non-hexadecimal characters

---
 src/cli/lib/DRAMPower/cli/util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/lib/DRAMPower/cli/util.cpp b/src/cli/lib/DRAMPower/cli/util.cpp
index 290b477..3172755 100644
--- a/src/cli/lib/DRAMPower/cli/util.cpp
+++ b/src/cli/lib/DRAMPower/cli/util.cpp
@@ -24,6 +24,12 @@ std::unique_ptr<uint8_t[]> util::hexStringToUint8Array(const csv::string_view da
 	{
 		hexString = data;
 	}
+
+	// Check if the string contains hexadecimal digits only
+	if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+	{
+		throw std::invalid_argument("Invalid hex string digit");
+	}
 	
 	// Allocate memory for the array and fill it
 	auto content = std::make_unique<uint8_t[]>(size);
-- 
2.43.0


From 52e00366662b4e803920385e2690aaecde75fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 21/25] fix: print the REF_DB energy of a bank

---
 src/cli/lib/DRAMPower/cli/util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/lib/DRAMPower/cli/util.hpp b/src/cli/lib/DRAMPower/cli/util.hpp
index 96e56f7..b622a7f 100644
--- a/src/cli/lib/DRAMPower/cli/util.hpp
+++ b/src/cli/lib/DRAMPower/cli/util.hpp
@@ -81,7 +81,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               "REF_AB: {} "
                               "REF_PB: {} "
                               "REF_SB: {} "
-                              "REF_2B: {}",
+                              "REF_2B: {} "
+                              "REF_DB: {}",
                               ei.E_act,
                               ei.E_pre,
                               ei.E_bg_act,
@@ -95,7 +96,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               ei.E_ref_AB,
                               ei.E_ref_PB,
                               ei.E_ref_SB,
-                              ei.E_ref_2B);
+                              ei.E_ref_2B,
+                              ei.E_ref_DB);
     }
 };
 
-- 
2.43.0


From 2e8b21b8f88d2bd25b3fc0cd55011f0bb1fe7486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 22/25] fix: --help ends the application with the exit code of
 the parser

---
 src/cli/main/main.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cli/main/main.cpp b/src/cli/main/main.cpp
index a756f18..0ac5043 100644
--- a/src/cli/main/main.cpp
+++ b/src/cli/main/main.cpp
@@ -18,7 +18,8 @@
 namespace cli11 = ::CLI; 
 using namespace DRAMPower;
 
-int parseArgs(int argc, char *argv[], std::string &configfile, std::string &tracefile, std::string &memspec, std::optional<std::string> &jsonfile)
+// Returns the exit code if the application must not continue
+std::optional<int> parseArgs(int argc, char *argv[], std::string &configfile, std::string &tracefile, std::string &memspec, std::optional<std::string> &jsonfile)
 {
 	// Application description
 	cli11::App app{"DRAMPower v" DRAMPOWER_VERSION_STRING};
@@ -46,7 +47,7 @@ int parseArgs(int argc, char *argv[], std::string &configfile, std::string &trac
 	} catch(const cli11::ParseError &e) {
 		return app.exit(e);
 	}
-	return 0;
+	return std::nullopt;
 }
 
 int main(int argc, char *argv[])
@@ -56,10 +57,10 @@ int main(int argc, char *argv[])
 	std::string tracefile;
 	std::string memspec;
 	std::optional<std::string> jsonfile = std::nullopt;
-	int res = parseArgs(argc, argv, configfile, tracefile, memspec, jsonfile);
-	if(res != 0)
+	std::optional<int> res = parseArgs(argc, argv, configfile, tracefile, memspec, jsonfile);
+	if(res)
 	{
-		return res;
+		return *res;
 	}
 
 	// Set spdlog pattern
-- 
2.43.0


From d11b9273771f913191b35c49e6fc2034766d490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 23/25] fix: resolve a relative symlink target against the
 directory of the link

---
 src/cli/main/validators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index 9ad3bb4..bb6414d 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -28,7 +28,8 @@ std::optional<ResolveSymlinkResult> resolve_symlink(const std::string &filepath,
     // The path exists and is a symlink -> resolve the symlink chain
     std::filesystem::path resolved = filepath;
     for (uint_fast8_t iter = 0; iter < max_iter; ++iter) {
-        resolved = std::filesystem::read_symlink(resolved);
+        // A relative link target is relative to the directory of the link
+        resolved = resolved.parent_path() / std::filesystem::read_symlink(resolved);
         // Check if the provided path exists
         if (!std::filesystem::exists(resolved)) {
             // symlink resolved to a non-existing path
-- 
2.43.0


From 7a972784e629e8cd824cfac3fae9f14778c6f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 24/25] fix: refuse an output path the filesystem cannot
 resolve instead of terminating

---
 src/cli/main/validators.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index bb6414d..1566a88 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -109,6 +109,7 @@ EnsureFileExists_t::EnsureFileExists_t() {
     name_ = "EnsureFileExists";
     non_modifying_ = false; // The validator modifies the input for a symlink
     func_ = [](std::string &filepath) {
+    try { // Catch filesystem errors, e.g. a symlink cycle or a missing permission
 // Check if file exists
         if (std::filesystem::is_symlink(filepath)) {
 // resolve symlink chain for at most MAX_SYMLINK_RESOLVE_ITERATIONS iterations
@@ -139,6 +140,9 @@ EnsureFileExists_t::EnsureFileExists_t() {
         // The filepath does not exist
 // Try to create the file in the parent directory
         return createFileInParentDirectory(filepath);
+    } catch (const std::filesystem::filesystem_error&) {
+        return std::string{"Could not access the path"};
+    }
     };
 }
 
-- 
2.43.0


From 88db931caf1a138913475243763c18f3ff7fd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:18 +0000
Subject: [PATCH 25/25] fix: report a result file that could not be written
 completely

---
 src/cli/lib/DRAMPower/cli/run.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 09e4153..617a74d 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -213,7 +213,7 @@ bool jsonFileResult(const std::string &jsonfile, const std::unique_ptr<dram_base
 	
 	out << j.dump(4) << std::endl;
 	out.close();
-	return true;
+	return out.good();
 }
 
 bool stdoutResult(const std::unique_ptr<dram_base<CmdType>> &ddr, const energy_t &core_energy, const interface_energy_info_t &interface_energy)
-- 
2.43.0

