From 1f65d222465446abdb421f79f22fec0ebfc58334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:00 +0000
Subject: [PATCH 1/6] fix: TransceiverMessage::written_size counts every field
 it writes

---
 solana/modules/ntt-messages/src/transceiver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solana/modules/ntt-messages/src/transceiver.rs b/solana/modules/ntt-messages/src/transceiver.rs
index 798fc1b..80331cd 100644
--- a/solana/modules/ntt-messages/src/transceiver.rs
+++ b/solana/modules/ntt-messages/src/transceiver.rs
@@ -177,8 +177,11 @@ where
     fn written_size(&self) -> usize {
         4 // prefix
         + self.source_ntt_manager.len()
+        + self.recipient_ntt_manager.len()
         + u16::SIZE.unwrap() // length prefix
         + self.ntt_manager_payload.written_size()
+        + u16::SIZE.unwrap() // length prefix
+        + self.transceiver_payload.len()
     }
 
     fn write<W>(&self, writer: &mut W) -> io::Result<()>
-- 
2.43.0


From bb456915147f9ff7284fc81bcccaf7e1b01ad38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:00 +0000
Subject: [PATCH 2/6] fix: SIZE of transceiver info and registration includes
 the prefix

---
 solana/modules/ntt-messages/src/transceivers/wormhole.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solana/modules/ntt-messages/src/transceivers/wormhole.rs b/solana/modules/ntt-messages/src/transceivers/wormhole.rs
index a96feff..48db6b8 100644
--- a/solana/modules/ntt-messages/src/transceivers/wormhole.rs
+++ b/solana/modules/ntt-messages/src/transceivers/wormhole.rs
@@ -46,7 +46,7 @@ impl AnchorSerialize for WormholeTransceiverInfo {
 }
 
 impl Readable for WormholeTransceiverInfo {
-    const SIZE: Option<usize> = Some(32 + 1 + 32 + 1);
+    const SIZE: Option<usize> = Some(4 + 32 + 1 + 32 + 1);
 
     fn read<R>(reader: &mut R) -> std::io::Result<Self>
     where
@@ -119,7 +119,7 @@ impl AnchorSerialize for WormholeTransceiverRegistration {
 }
 
 impl Readable for WormholeTransceiverRegistration {
-    const SIZE: Option<usize> = Some(2 + 32);
+    const SIZE: Option<usize> = Some(4 + 2 + 32);
 
     fn read<R>(reader: &mut R) -> std::io::Result<Self>
     where
-- 
2.43.0


From 4741cb913b632caf2273f4d17e19a0c66670d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:00 +0000
Subject: [PATCH 3/6] fix: GovernanceMessage::written_size counts
 governance_program_id

---
 .../programs/wormhole-governance/src/instructions/governance.rs  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solana/programs/wormhole-governance/src/instructions/governance.rs b/solana/programs/wormhole-governance/src/instructions/governance.rs
index 1c92eb2..2b98ee0 100644
--- a/solana/programs/wormhole-governance/src/instructions/governance.rs
+++ b/solana/programs/wormhole-governance/src/instructions/governance.rs
@@ -229,6 +229,7 @@ impl Writeable for GovernanceMessage {
         Self::MODULE.len()
         + GovernanceAction::SIZE.unwrap() // action
         + u16::SIZE.unwrap() // chain
+        + <[u8; 32]>::SIZE.unwrap() // governance_program_id
         + <[u8; 32]>::SIZE.unwrap() // program_id
         + u16::SIZE.unwrap() // accounts_len
         + self.accounts.iter()  // accounts
-- 
2.43.0


From b8ff965142e17d7cfba1721dcdfed774b409dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:18 +0000
Subject: [PATCH 4/6] fix: GovernanceAction::Undefined writes its action byte

---
 .../programs/wormhole-governance/src/instructions/governance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solana/programs/wormhole-governance/src/instructions/governance.rs b/solana/programs/wormhole-governance/src/instructions/governance.rs
index 2b98ee0..df82fe3 100644
--- a/solana/programs/wormhole-governance/src/instructions/governance.rs
+++ b/solana/programs/wormhole-governance/src/instructions/governance.rs
@@ -371,7 +371,7 @@ impl Writeable for GovernanceAction {
         W: io::Write,
     {
         match self {
-            GovernanceAction::Undefined => Ok(()),
+            GovernanceAction::Undefined => 0u8.write(writer),
             GovernanceAction::EvmCall => 1u8.write(writer),
             GovernanceAction::SolanaCall => 2u8.write(writer),
         }
-- 
2.43.0


From bb1aa54cf36946e1b2ac83e04526228c1f928b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:48 +0000
Subject: [PATCH 5/6] fix: payload length fields and sizes count a payload's
 type byte

---
 solana/modules/ntt-messages/src/ntt.rs         | 5 +++--
 solana/modules/ntt-messages/src/ntt_manager.rs | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/solana/modules/ntt-messages/src/ntt.rs b/solana/modules/ntt-messages/src/ntt.rs
index acebbad..b4f294e 100644
--- a/solana/modules/ntt-messages/src/ntt.rs
+++ b/solana/modules/ntt-messages/src/ntt.rs
@@ -77,7 +77,7 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NativeTokenTransfer<A> {
             + self.to.len()
             + ChainId::SIZE.unwrap()
             + if A::SIZE != Some(0) {
-                u16::SIZE.unwrap() + self.additional_payload.written_size()
+                u16::SIZE.unwrap() + self.additional_payload.payload_written_size()
             } else {
                 0
             }
@@ -102,7 +102,8 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NativeTokenTransfer<A> {
         to_chain.write(writer)?;
 
         if A::SIZE != Some(0) {
-            let len: u16 = u16::try_from(additional_payload.written_size()).expect("u16 overflow");
+            let len: u16 = u16::try_from(additional_payload.payload_written_size())
+                .expect("u16 overflow");
             len.write(writer)?;
             // TODO: ditto todo in transceiver.rs
             A::write_payload(additional_payload, writer)
diff --git a/solana/modules/ntt-messages/src/ntt_manager.rs b/solana/modules/ntt-messages/src/ntt_manager.rs
index 9107c88..ea1c53c 100644
--- a/solana/modules/ntt-messages/src/ntt_manager.rs
+++ b/solana/modules/ntt-messages/src/ntt_manager.rs
@@ -62,7 +62,7 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NttManagerMessage<A> {
         self.id.len()
             + self.sender.len()
             + u16::SIZE.unwrap() // payload length
-            + self.payload.written_size()
+            + self.payload.payload_written_size()
     }
 
     fn write<W>(&self, writer: &mut W) -> io::Result<()>
@@ -77,7 +77,7 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NttManagerMessage<A> {
 
         id.write(writer)?;
         writer.write_all(sender)?;
-        let len: u16 = u16::try_from(payload.written_size()).expect("u16 overflow");
+        let len: u16 = u16::try_from(payload.payload_written_size()).expect("u16 overflow");
         len.write(writer)?;
         // TODO: ditto todo in transceiver.rs
         A::write_payload(payload, writer)
-- 
2.43.0


From 25069c558c0c2f55fceeae4e4f1a13338717b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:48 +0000
Subject: [PATCH 6/6] fix: quote delivery price with instructions indexed by
 registered transceivers

quoteDeliveryPrice sized the instruction array by the enabled transceivers, but the
instructions are indexed by registration index. Once a transceiver had been removed the
quote panicked (index out of bounds), although a transfer with the same instructions
succeeds.
---
 evm/src/NttManager/ManagerBase.sol | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evm/src/NttManager/ManagerBase.sol b/evm/src/NttManager/ManagerBase.sol
index 8a336fc..3a692d4 100644
--- a/evm/src/NttManager/ManagerBase.sol
+++ b/evm/src/NttManager/ManagerBase.sol
@@ -102,8 +102,11 @@ abstract contract ManagerBase is
     ) public view returns (uint256[] memory, uint256) {
         address[] memory enabledTransceivers = _getEnabledTransceiversStorage();
 
+        // instructions are indexed by registered (not just enabled) transceivers
+        uint256 numRegisteredTransceivers = _getRegisteredTransceiversStorage().length;
+
         TransceiverStructs.TransceiverInstruction[] memory instructions = TransceiverStructs
-            .parseTransceiverInstructions(transceiverInstructions, enabledTransceivers.length);
+            .parseTransceiverInstructions(transceiverInstructions, numRegisteredTransceivers);
 
         return _quoteDeliveryPrice(recipientChain, instructions, enabledTransceivers);
     }
-- 
2.43.0

