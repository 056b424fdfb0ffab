From 7f19e7d294413c698d1c1049eb094b1c3a3f5d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 001/116] fix: decode instructions at their architectural
 encodings

---
 lib/libloong/la64.cpp | 173 ++++++++++++++++++------------------------
 1 file changed, 75 insertions(+), 98 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 291f6fa..05003d0 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -537,8 +537,8 @@ namespace loongarch
 				if (op16 == 0x0045) return DECODED_INSTR(SRLI_D);
 				if (op16 == 0x0048) return DECODED_INSTR(SRAI_W);
 				if (op16 == 0x0049) return DECODED_INSTR(SRAI_D);
-				// ROTRI.D uses bits[31:16] for opcode (16-bit opcode = 0x0024)
-				if (op16 == 0x0024) return DECODED_INSTR(ROTRI_D);
+				// ROTRI.D uses bits[31:16] for opcode (16-bit opcode = 0x004D)
+				if (op16 == 0x004D) return DECODED_INSTR(ROTRI_D);
 			}
 
 			// ROTRI.W: bits[31:15] = 0x00099 (format DJUk5)
@@ -548,9 +548,9 @@ namespace loongarch
 				if (op15 == 0x00099) return DECODED_INSTR(ROTRI_W);
 			}
 
-			// ALSL.W and ALSL.D use bits [31:18] with sa2 in bits [16:15]
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
+			// ALSL.W and ALSL.D use bits [31:17] with sa2 in bits [16:15]
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
 
 			// Immediate instructions (op22 match)
 			if (op22 == (Opcode::ADDI_W & 0xFFC00000)) return DECODED_INSTR(ADDI_W);
@@ -916,14 +916,11 @@ namespace loongarch
 						return is_64bit ? DECODED_INSTR(AMAND_D) : DECODED_INSTR(AMAND_W);
 					case 3: case 12: // AMOR (guessed)
 						return is_64bit ? DECODED_INSTR(AMOR_D) : DECODED_INSTR(AMOR_W);
-					// TODO: Verify AMXOR, AMMAX, AMMIN encodings when encountered
+					case 4: case 13: // AMXOR
+						return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
+					// TODO: AMMAX, AMMIN
 				}
 			}
-			// AMXOR: bits [31:20] = 0x387
-			if ((instr.whole & 0xFFF00000) == 0x38700000) {
-				bool is_64bit = ((instr.whole >> 15) & 1);
-				return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
-			}
 			break;
 		case 0x0B: // VLD / VST / XVLD / XVST instructions (op6 = 0x0B for 0x2Cxxxxxx)
 			// Example VLD: 2c0041a2
@@ -953,24 +950,23 @@ namespace loongarch
 				// VORI.B: Vector OR immediate (byte) - bits[31:18] = 0x1CF5
 				if ((instr.whole >> 18) == 0x1CF5) return DECODED_INSTR(VORI_B);
 				// VSLLI: Vector Shift Left Logical Immediate - bits[31:15] identify size
-				// VBITREVI.D: Vector Bit Reverse Immediate (double) - bits[31:15] = 0xE660
-				// VPCNT: Vector Population Count - bits[31:15] = 0xE538, bits[14:10] select size
+				// VBITREVI.D: Vector Bit Reverse Immediate (double) - bits[31:16] = 0x7319
+				// VPCNT: Vector Population Count - bits[31:15] = 0xE538, bits[14:10] = 8..11 select size
 				uint32_t bits15 = instr.whole >> 15;
 				if (bits15 == 0xE658) {
-					// vslli.b and vslli.h both have bits[31:15] = 0xe658, differentiate by bit 14
-					uint32_t bit14 = (instr.whole >> 14) & 1;
-					if (bit14 == 0) return DECODED_INSTR(VSLLI_B);
-					else return DECODED_INSTR(VSLLI_H);
+					// vslli.b and vslli.h both have bits[31:15] = 0xe658, differentiate by bits 14 and 13
+					if (((instr.whole >> 14) & 1) == 1) return DECODED_INSTR(VSLLI_H);
+					if (((instr.whole >> 13) & 1) == 1) return DECODED_INSTR(VSLLI_B);
 				}
 				if (bits15 == 0xE659) return DECODED_INSTR(VSLLI_W);
-				if (bits15 == 0xE65A) return DECODED_INSTR(VSLLI_D);
-				if (bits15 == 0xE660) return DECODED_INSTR(VBITREVI_D);
+				if (top16 == 0x732D) return DECODED_INSTR(VSLLI_D);
+				if (top16 == 0x7319) return DECODED_INSTR(VBITREVI_D);
 				if (bits15 == 0xE538) {
-					uint32_t size = (instr.whole >> 10) & 0x3;
-					if (size == 0) return DECODED_INSTR(VPCNT_B);
-					if (size == 1) return DECODED_INSTR(VPCNT_H);
-					if (size == 2) return DECODED_INSTR(VPCNT_W);
-					if (size == 3) return DECODED_INSTR(VPCNT_D);
+					uint32_t size = (instr.whole >> 10) & 0x1F;
+					if (size == 8) return DECODED_INSTR(VPCNT_B);
+					if (size == 9) return DECODED_INSTR(VPCNT_H);
+					if (size == 10) return DECODED_INSTR(VPCNT_W);
+					if (size == 11) return DECODED_INSTR(VPCNT_D);
 				}
 				// VMAX/VMIN instructions - bits[31:15] identify variants
 				// Signed: 0xE0E0-E0E3 (b/h/w/d), Unsigned: 0xE0E8-E0EB (bu/hu/wu/du)
@@ -1018,8 +1014,8 @@ namespace loongarch
 					return DECODED_INSTR(VILVL_D);
 				}
 				// VILVH.D: Vector Interleave High Double-word
-				// bits[31:15] = 0xE23F
-				if ((instr.whole >> 15) == 0xE23F) {
+				// bits[31:15] = 0xE23B
+				if ((instr.whole >> 15) == 0xE23B) {
 					return DECODED_INSTR(VILVH_D);
 				}
 				// VPICKEV.W: Vector Pick Even Word
@@ -1028,33 +1024,24 @@ namespace loongarch
 					return DECODED_INSTR(VPICKEV_W);
 				}
 				// VPICKVE2GR instructions: signed (0x72EF) and unsigned (0x72F3)
-				// bits[15:12] determine size: 0x8=B, 0xC=H, 0xE=W, 0xF=D
-				if (top16 == 0x72EF) {
-					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_B);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_H);
-					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_W);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_D);
-				}
-				if (top16 == 0x72F3) {
-					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_BU);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_HU);
-					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_WU);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_DU);
+				// The index shares bits[15:10] with the size prefix: 10xxxx=B, 110xxx=H, 1110xx=W, 11110x=D
+				if (top16 == 0x72EF || top16 == 0x72F3) {
+					const bool is_unsigned = (top16 == 0x72F3);
+					const uint32_t subop = (instr.whole >> 10) & 0x3F;
+					if ((subop >> 4) == 0x2) return is_unsigned ? DECODED_INSTR(VPICKVE2GR_BU) : DECODED_INSTR(VPICKVE2GR_B);
+					if ((subop >> 3) == 0x6) return is_unsigned ? DECODED_INSTR(VPICKVE2GR_HU) : DECODED_INSTR(VPICKVE2GR_H);
+					if ((subop >> 2) == 0xE) return is_unsigned ? DECODED_INSTR(VPICKVE2GR_WU) : DECODED_INSTR(VPICKVE2GR_W);
+					if ((subop >> 1) == 0x1E) return is_unsigned ? DECODED_INSTR(VPICKVE2GR_DU) : DECODED_INSTR(VPICKVE2GR_D);
 				}
 				// VREPLVEI.D: 0x72F7xxxx (Vector Replicate Vector Element Immediate - double)
-				if (top16 == 0x72F7) {
+				if (top16 == 0x72F7 && ((instr.whole >> 11) & 0x1F) == 0x1E) {
 					return DECODED_INSTR(VREPLVEI_D);
 				}
 				if (top16 == 0x729C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x28) return DECODED_INSTR(VSETANYEQZ_B);
 					if (subop == 0x18) return DECODED_INSTR(VMSKNZ_B);
-				}
-				if (top16 == 0x729D) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x18) return DECODED_INSTR(VSETALLNEZ_B);
+					if (subop == 0x2C) return DECODED_INSTR(VSETALLNEZ_B);
 				}
 				// VREPLGR2VR: 0x729F0xxx
 				// .B (subop=0x00), .H (subop=0x01), .W (subop=0x02), .D (subop=0x03)
@@ -1198,15 +1185,9 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE534) {
 					return DECODED_INSTR(VFRSTPI_B);
 				}
-				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:15] = 0xE53C
-				if ((instr.whole >> 15) == 0xE53C) {
-					// Differentiate by bit 10
-					if ((instr.whole >> 10) & 1) {
-						return DECODED_INSTR(VFTINTRZ_L_D);
-					} else {
-						return DECODED_INSTR(VFTINTRZ_W_S);
-					}
-				}
+				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:15] = 0xE53C, bits[14:10] = 0x12 / 0x13
+				if ((instr.whole >> 10) == 0x1CA792) return DECODED_INSTR(VFTINTRZ_W_S);
+				if ((instr.whole >> 10) == 0x1CA793) return DECODED_INSTR(VFTINTRZ_L_D);
 				// VXOR.V: bits[31:15] = 0xE24E
 				if ((instr.whole >> 15) == 0xE24E) {
 					return DECODED_INSTR(VXOR_V);
@@ -1236,25 +1217,22 @@ namespace loongarch
 
 				// XVMSKNZ.B: 0x769C6xxx (bits[31:16] = 0x769C, bits[15:10] = 0x18)
 				// XVSETANYEQZ.B: 0x769CAxx (bits[31:16] = 0x769C, bits[15:10] = 0x28)
-				// XVSETEQZ.V: 0x769CBxxx (bits[31:16] = 0x769C, bits[15:10] = 0x2C)
+				// XVSETEQZ.V: 0x769C98xx (bits[31:16] = 0x769C, bits[15:10] = 0x26)
 				if (top16 == 0x769C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x18) return DECODED_INSTR(XVMSKNZ_B);
 					if (subop == 0x28) return DECODED_INSTR(XVSETANYEQZ_B);
-					if (subop == 0x2C) return DECODED_INSTR(XVSETEQZ_V);
+					if (subop == 0x26) return DECODED_INSTR(XVSETEQZ_V);
 				}
 				// XVREPLGR2VR.B: 0x769F0xxx (bits[31:16] = 0x769F, bits[15:10] = 0x00)
 				if (top16 == 0x769F) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x00) return DECODED_INSTR(XVREPLGR2VR_B);
 				}
-				// XVPICKVE.W: 0x7703Dxxx (bits[31:16] = 0x7703, bits[15:10] = 0x34)
-				if (top16 == 0x7703) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x34) return DECODED_INSTR(XVPICKVE_W);
-				}
-				// XVSEQ.B: bits[31:15] = 0xEE00
-				if ((instr.whole >> 15) == 0xEE00) {
+				// XVPICKVE.W: 0x7703C000 (bits[31:13], 3-bit index in bits[12:10])
+				if ((instr.whole & 0xFFFFE000) == 0x7703C000) return DECODED_INSTR(XVPICKVE_W);
+				// XVSEQ.B: bits[31:15] = 0xE800
+				if ((instr.whole >> 15) == 0xE800) {
 					return DECODED_INSTR(XVSEQ_B);
 				}
 				// XVXOR.V: bits[31:15] = 0xEA4E
@@ -1285,13 +1263,13 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE8EC) {
 					return DECODED_INSTR(XVMIN_BU);
 				}
-				// XVMAX.BU: bits[31:15] = 0xE8ED
-				if ((instr.whole >> 15) == 0xE8ED) {
+				// XVMAX.BU: bits[31:15] = 0xE8E8
+				if ((instr.whole >> 15) == 0xE8E8) {
 					return DECODED_INSTR(XVMAX_BU);
 				}
-				// XVPICKVE2GR.W: bits[31:18] = 0x1DBB (0x76EFxxxx)
+				// XVPICKVE2GR.W: bits[31:13], 3-bit index in bits[12:10] (0x76EFC000)
 				// Pick word element from LASX vector to general register
-				if ((instr.whole >> 18) == 0x1DBB) {
+				if ((instr.whole & 0xFFFFE000) == 0x76EFC000) {
 					return DECODED_INSTR(XVPICKVE2GR_W);
 				}
 				// XVPERMI.Q: LASX permute quadword - bits[31:18] = 0x1DFB
@@ -1311,46 +1289,45 @@ namespace loongarch
 				// XVFSUB.D: LASX vector floating-point subtract (double) - bits[31:15] = 0xEA66
 				// Opcode: 0x75330000 >> 15 = 0xEA66
 				if ((instr.whole >> 15) == 0xEA66) return DECODED_INSTR(XVFSUB_D);
-				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:15] = 0xEE32
-				// Opcode: 0x77190000 >> 15 = 0xEE32
-				if ((instr.whole >> 15) == 0xEE32) return DECODED_INSTR(XVBITREVI_D);
+				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:16] = 0x7719
+				// Opcode: 0x77190000 >> 16 = 0x7719 (6-bit immediate)
+				if (top16 == 0x7719) return DECODED_INSTR(XVBITREVI_D);
 				// XVREPLVE.D: LASX vector replicate element (double) - bits[31:15] = 0xEA47
 				// Opcode: 0x75238000 >> 15 = 0xEA47
 				if ((instr.whole >> 15) == 0xEA47) return DECODED_INSTR(XVREPLVE_D);
-				// XVORI.B: LASX vector OR immediate byte - bits[31:15] = 0xEFA8
-				// Opcode: 0x77d40000 >> 15 = 0xEFA8
-				if ((instr.whole >> 15) == 0xEFA8) return DECODED_INSTR(XVORI_B);
-				// XVXORI.B: LASX vector XOR immediate byte - bits[31:15] = 0xEFB0
-				// Opcode: 0x77d80000 >> 15 = 0xEFB0
-				if ((instr.whole >> 15) == 0xEFB0) return DECODED_INSTR(XVXORI_B);
+				// XVORI.B: LASX vector OR immediate byte - bits[31:18] = 0x1DF5
+				// Opcode: 0x77d40000 >> 18 = 0x1DF5 (8-bit immediate)
+				if ((instr.whole >> 18) == 0x1DF5) return DECODED_INSTR(XVORI_B);
+				// XVXORI.B: LASX vector XOR immediate byte - bits[31:18] = 0x1DF6
+				// Opcode: 0x77d80000 >> 18 = 0x1DF6 (8-bit immediate)
+				if ((instr.whole >> 18) == 0x1DF6) return DECODED_INSTR(XVXORI_B);
 				// XVILVL.D: LASX vector interleave low double-word - bits[31:15] = 0xEA37
 				// Opcode: 0x751b8000 >> 15 = 0xEA37
 				if ((instr.whole >> 15) == 0xEA37) return DECODED_INSTR(XVILVL_D);
-				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3F
-				// Opcode: 0x751f8000 >> 15 = 0xEA3F
-				if ((instr.whole >> 15) == 0xEA3F) return DECODED_INSTR(XVILVH_D);
-				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dc1
-				// Opcode: 0x7707e000 >> 18 = 0x1dc1
-				if ((instr.whole >> 18) == 0x1dc1) return DECODED_INSTR(XVPERMI_D);
-				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea66
-				// Opcode: 0x75330000 >> 15 = 0xea66
-				if ((instr.whole >> 15) == 0xea66) return DECODED_INSTR(XVPACKEV_D);
-				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xee33
-				// Opcode: 0x77198000 >> 15 = 0xee33
-				if ((instr.whole >> 15) == 0xee33) return DECODED_INSTR(XVPACKOD_D);
-				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xee07
-				// Opcode: 0x7703c000 >> 15 = 0xee07
-				if ((instr.whole >> 15) == 0xee07) return DECODED_INSTR(XVPICKEV_D);
+				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3B
+				// Opcode: 0x751d8000 >> 15 = 0xEA3B
+				if ((instr.whole >> 15) == 0xEA3B) return DECODED_INSTR(XVILVH_D);
+				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dfa
+				// Opcode: 0x77e80000 >> 18 = 0x1dfa
+				if ((instr.whole >> 18) == 0x1dfa) return DECODED_INSTR(XVPERMI_D);
+				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea2f
+				// Opcode: 0x75178000 >> 15 = 0xea2f
+				if ((instr.whole >> 15) == 0xea2f) return DECODED_INSTR(XVPACKEV_D);
+				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xea33
+				// Opcode: 0x75198000 >> 15 = 0xea33
+				if ((instr.whole >> 15) == 0xea33) return DECODED_INSTR(XVPACKOD_D);
+				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xea3f
+				// Opcode: 0x751f8000 >> 15 = 0xea3f
+				if ((instr.whole >> 15) == 0xea3f) return DECODED_INSTR(XVPICKEV_D);
 				// XVPICKEV.W: LASX vector pick even word - bits[31:15] = 0xea3e
 				// Opcode: 0x751f0000 >> 15 = 0xea3e
 				if ((instr.whole >> 15) == 0xea3e) return DECODED_INSTR(XVPICKEV_W);
-				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xee0f
-				// Opcode: 0x77078000 >> 15 = 0xee0f
-				if ((instr.whole >> 15) == 0xee0f) return DECODED_INSTR(XVPICKOD_D);
-				// XVLDI: LASX load immediate - bits[31:23] = 0xEF
-				// Opcode: 0x77e00000 >> 23 = 0xEF (format: XdSj13 with 13-bit immediate)
-				// Note: Checked last as catch-all for 0x77exxxxx / 0x77fxxxxx after specific instructions
-				if ((instr.whole >> 23) == 0xEF) {
+				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xea43
+				// Opcode: 0x75218000 >> 15 = 0xea43
+				if ((instr.whole >> 15) == 0xea43) return DECODED_INSTR(XVPICKOD_D);
+				// XVLDI: LASX load immediate - bits[31:18] = 0x1DF8
+				// Opcode: 0x77e00000 >> 18 = 0x1DF8 (format: XdSj13 with 13-bit immediate)
+				if ((instr.whole >> 18) == 0x1DF8) {
 					return DECODED_INSTR(XVLDI);
 				}
 			}
-- 
2.43.0


From d16992d8f1018906c1406313dd2360b6b8a622c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 002/116] fix: STOP leaves PC after the STOP instruction, not
 after its block

---
 lib/libloong/tailcall_dispatch.cpp            | 3 +--
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 3 +--
 lib/libloong/threaded_dispatch.cpp            | 2 +-
 lib/libloong/threaded_inaccurate_dispatch.cpp | 2 +-
 4 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 15af969..0ef6a11 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -123,8 +123,7 @@ namespace loongarch
 	// Special bytecode handlers
 	INSTRUCTION(LA64_BC_STOP, la64_stop)
 	{
-		(void) d;
-		pc += 4; // Complete STOP instruction
+		pc = RECONSTRUCT_PC() + 4; // Complete STOP instruction
 		counter.stop();
 		return RETURN_VALUES();
 	}
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 0cfa43c..ec829ae 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -110,8 +110,7 @@ namespace loongarch
 	// Special bytecode handlers
 	INSTRUCTION(LA64_BC_STOP, la64_stop)
 	{
-		(void) d;
-		pc += 4; // Complete STOP instruction
+		pc = RECONSTRUCT_PC() + 4; // Complete STOP instruction
 		return RETURN_VALUES();
 	}
 
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index e073e5f..c38b771 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -132,7 +132,7 @@ INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 
 INSTRUCTION(LA64_BC_STOP, la64_stop)
 {
-	REGISTERS().pc = pc + 4;
+	REGISTERS().pc = RECONSTRUCT_PC() + 4;
 	machine().set_instruction_counter(counter);
 	return true;
 }
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index c7a7772..9f02a40 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -118,7 +118,7 @@ INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 
 INSTRUCTION(LA64_BC_STOP, la64_stop)
 {
-	REGISTERS().pc = pc + 4;
+	REGISTERS().pc = RECONSTRUCT_PC() + 4;
 	return;
 }
 
-- 
2.43.0


From e83c3a0fcb823ac449bd2754be2fdabd17fad012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 003/116] fix: discard writes to the zero register

---
 lib/libloong/bytecode_impl.cpp     | 2 ++
 lib/libloong/cpu.cpp               | 2 ++
 lib/libloong/threaded_rewriter.cpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index bf048c0..3751615 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1029,6 +1029,7 @@ INSTRUCTION(LA64_BC_FUNCTION, execute_decoded_function)
 	const auto handler = DECODER().get_handler();
 	//printf("Slow-path pc=0x%lx for instr %08X\n", RECONSTRUCT_PC(), DECODER().instr);
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(REG_ZERO) = 0; // Writes to the zero register are discarded
 	NEXT_INSTR();
 }
 INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
@@ -1036,6 +1037,7 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	// Call the cached handler for this instruction
 	const auto handler = DECODER().get_extended_handler();
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(REG_ZERO) = 0; // Writes to the zero register are discarded
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index 83f6398..b701b33 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -70,6 +70,8 @@ namespace loongarch
 	{
 		const auto& handler = decode(instr);
 		handler.handler(*this, instr);
+		// Writes to the zero register are discarded
+		m_regs.get(REG_ZERO) = 0;
 	}
 
 	bool CPU::is_executable(address_t addr) const noexcept
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 5ce172a..8f11b8b 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -226,6 +226,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_PCADDI:
 		case LA64_BC_PCALAU12I:
 		case LA64_BC_LU12I_W:
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			// No optimization needed - use original instruction bits
 			return instruction_bits;
 		case LA64_BC_LDPTR_D: {
@@ -675,9 +676,11 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			return fi.whole;
 		} break;
 		case LA64_BC_PCADDU12I:
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			// PCADDU12I uses PC, handled as diverging instruction
 			return instruction_bits;
 		case LA64_BC_PCADDU18I:
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			// PCADDU18I uses PC, handled as diverging instruction
 			return instruction_bits;
 		case LA64_BC_ANDN: {
-- 
2.43.0


From 2a103fd20a97a8c36d13bfcc8bd8630e506c9984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 004/116] fix: ORI with an immediate of zero low bits is not a
 MOVE

---
 lib/libloong/decoder_cache.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 6f0b101..0e487f2 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -64,14 +64,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				return LA64_BC_OR;
 			}
 		case InstrId::ORI:
-			// MOVE is ORI with imm==0
-			{
-				const uint32_t imm = instr & 0xFFF;
-				if (imm == 0) {
-					return LA64_BC_MOVE;
-				}
-				return LA64_BC_ORI;
-			}
+			return LA64_BC_ORI;
 
 		case InstrId::LD_D: return LA64_BC_LD_D;
 		case InstrId::ST_D: return LA64_BC_ST_D;
-- 
2.43.0


From 48c5ed0f363c64e64a8f0bc151f91067a634d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 005/116] fix: BYTEPICK.D result

---
 lib/libloong/bytecode_impl.cpp | 4 ++--
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 3751615..163abd7 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -752,9 +752,9 @@ INSTRUCTION(LA64_BC_BYTEPICK_D, la64_bytepick_d)
 	uint32_t shift = fi.sa3 * 8;
 	uint64_t result;
 	if (shift == 0) {
-		result = rj_val;
+		result = rk_val;
 	} else {
-		result = (rk_val << (64 - shift)) | (rj_val >> shift);
+		result = (rk_val << shift) | (rj_val >> (64 - shift));
 	}
 	REG(fi.rd) = result;
 	NEXT_INSTR();
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index f170aff..787d5e0 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -164,7 +164,7 @@ struct InstrImpl {
 	static void BYTEPICK_D(cpu_t& cpu, la_instruction instr) {
 		// BYTEPICK.D rd, rj, rk, sa3
 		// Concatenates rk and rj as a 128-bit value [rk:rj]
-		// Then extracts 64 bits starting at byte offset sa3
+		// Then extracts 64 bits starting at byte offset 8 - sa3
 		uint32_t sa3 = (instr.whole >> 15) & 0x7;
 		uint64_t rj_val = cpu.reg(instr.r3.rj);
 		uint64_t rk_val = cpu.reg(instr.r3.rk);
@@ -172,12 +172,12 @@ struct InstrImpl {
 		// Shift amount in bits = sa3 * 8
 		uint32_t shift = sa3 * 8;
 
-		// Result is (rk << (64 - shift)) | (rj >> shift)
+		// Result is (rk << shift) | (rj >> (64 - shift))
 		uint64_t result;
 		if (shift == 0) {
-			result = rj_val;
+			result = rk_val;
 		} else {
-			result = (rk_val << (64 - shift)) | (rj_val >> shift);
+			result = (rk_val << shift) | (rj_val >> (64 - shift));
 		}
 		cpu.reg(instr.r3.rd) = result;
 	}
-- 
2.43.0


From 29d88e2118b59bad65233e2c1837f5c412098993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 006/116] fix: SLTUI immediate is sign-extended in the threaded
 dispatch

---
 lib/libloong/threaded_rewriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 8f11b8b..5db6541 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -639,12 +639,12 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			return fi.whole;
 		} break;
 		case LA64_BC_SLTUI: {
-			// SLTUI rd, rj, imm12 - uses RI12 format with zero-extended immediate
+			// SLTUI rd, rj, imm12 - uses RI12 format with sign-extended immediate
 			auto fi = *(FasterLA64_RI12 *)&instruction_bits;
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
-			// SLTUI uses zero-extended immediate for unsigned comparison
-			fi.imm = original.ri12.imm & 0xFFF;
+			// SLTUI compares against the sign-extended immediate as unsigned
+			fi.set_imm(original.ri12.imm);
 			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
-- 
2.43.0


From 0c148bae12286b6c3d2dd0a32ad07a0f41ecabc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 007/116] fix: STX.B of the zero register is a store, not a NOP

---
 lib/libloong/threaded_rewriter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 5db6541..c064b70 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -698,7 +698,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_EXT_W_H: {
-- 
2.43.0


From c71bd7e6ca144392ffda36c9c8af3bffb86ceebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 008/116] fix: PCADDU18I offset is 64-bit

---
 lib/libloong/la_instr_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 787d5e0..47c697b 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -570,7 +570,7 @@ struct InstrImpl {
 
 	static void PCADDU18I(cpu_t& cpu, la_instruction instr) {
 		int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-		int64_t offset = (int64_t)(si20 << 18);
+		int64_t offset = (int64_t)si20 << 18;
 		cpu.reg(instr.ri20.rd) = cpu.pc() + offset;
 	}
 
-- 
2.43.0


From e12a6d3f903f1ba3abd7d6e657fb8b1941df76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 009/116] fix: full-width BSTRPICK and BSTRINS

---
 lib/libloong/bytecode_impl.cpp | 10 +++++-----
 lib/libloong/la_instr_impl.hpp |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 163abd7..93e7243 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -194,7 +194,7 @@ INSTRUCTION(LA64_BC_BSTRPICK_D, la64_bstrpick_d)
 	auto fi = *(FasterLA64_BitField *)&DECODER().instr;
 	const address_t src = REG(fi.rj);
 	const uint32_t width = fi.msbd - fi.lsbd + 1;
-	const address_t mask = (1ULL << width) - 1;
+	const address_t mask = ~0ULL >> ((64 - width) & 63);
 	REG(fi.rd) = (src >> fi.lsbd) & mask;
 	NEXT_INSTR();
 }
@@ -302,14 +302,14 @@ INSTRUCTION(LA64_BC_STX_D, la64_stx_d)
 	NEXT_INSTR();
 }
 
-// LA64_BC_BSTRPICK_W: Bit string pick word (rd = extract bits[msbw:lsbw] from rj, zero-extend)
+// LA64_BC_BSTRPICK_W: Bit string pick word (rd = extract bits[msbw:lsbw] from rj, sign-extended as a word)
 INSTRUCTION(LA64_BC_BSTRPICK_W, la64_bstrpick_w)
 {
 	auto fi = *(FasterLA64_BitFieldW *)&DECODER().instr;
 	const uint32_t src = (uint32_t)REG(fi.rj);
 	const uint32_t width = fi.msbw - fi.lsbw + 1;
-	const uint32_t mask = (1U << width) - 1;
-	REG(fi.rd) = (src >> fi.lsbw) & mask;
+	const uint32_t mask = ~0U >> ((32 - width) & 31);
+	REG(fi.rd) = (saddress_t)(int32_t)((src >> fi.lsbw) & mask);
 	NEXT_INSTR();
 }
 
@@ -419,7 +419,7 @@ INSTRUCTION(LA64_BC_BSTRINS_D, la64_bstrins_d)
 	// Valid when msbd >= lsbd
 	if (fi.msbd >= fi.lsbd) {
 		uint32_t width = fi.msbd - fi.lsbd + 1;
-		uint64_t mask = ((1ULL << width) - 1) << fi.lsbd;
+		uint64_t mask = (~0ULL >> (64 - width)) << fi.lsbd;
 		uint64_t bits = (src << fi.lsbd) & mask;
 		REG(fi.rd) = (dst & ~mask) | bits;
 	}
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 47c697b..6a482be 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -592,7 +592,7 @@ struct InstrImpl {
 		// Valid when msbd >= lsbd
 		if (msbd >= lsbd) {
 			uint32_t width = msbd - lsbd + 1;
-			uint64_t mask = ((1ULL << width) - 1) << lsbd;
+			uint64_t mask = (~0ULL >> (64 - width)) << lsbd;
 			uint64_t bits = (src << lsbd) & mask;
 			cpu.reg(instr.ri16.rd) = (dst & ~mask) | bits;
 		}
@@ -606,7 +606,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbd - lsbd + 1;
-		uint64_t mask = (1ULL << width) - 1;
+		uint64_t mask = ~0ULL >> ((64 - width) & 63);
 		uint64_t result = (src >> lsbd) & mask;
 		cpu.reg(instr.ri16.rd) = result;
 	}
@@ -622,7 +622,7 @@ struct InstrImpl {
 		// Valid when msbw >= lsbw
 		if (msbw >= lsbw) {
 			uint32_t width = msbw - lsbw + 1;
-			uint32_t mask = ((1U << width) - 1) << lsbw;
+			uint32_t mask = (~0U >> (32 - width)) << lsbw;
 			uint32_t bits = (src << lsbw) & mask;
 			uint32_t result = (dst & ~mask) | bits;
 			// Sign-extend to 64 bits
@@ -639,7 +639,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbw - lsbw + 1;
-		uint32_t mask = (1U << width) - 1;
+		uint32_t mask = ~0U >> ((32 - width) & 31);
 		uint32_t result = (src >> lsbw) & mask;
 		cpu.reg(instr.ri16.rd) = (int32_t)result;
 	}
-- 
2.43.0


From 2c657d017805a89cfc7443759e652bc785cd7b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 010/116] fix: fused multiply-add rounds once, and
 FNMADD/FNMSUB vector signs

---
 lib/libloong/bytecode_impl.cpp                |  6 +-
 lib/libloong/la_instr_impl.hpp                | 84 +++++++++----------
 lib/libloong/tailcall_dispatch.cpp            |  1 +
 lib/libloong/tailcall_inaccurate_dispatch.cpp |  1 +
 lib/libloong/threaded_dispatch.cpp            |  1 +
 lib/libloong/threaded_inaccurate_dispatch.cpp |  1 +
 6 files changed, 49 insertions(+), 45 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 93e7243..32acbac 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -615,8 +615,8 @@ INSTRUCTION(LA64_BC_VFMADD_D, la64_vfmadd_d)
 	const auto& src_k = REGISTERS().getvr(fi.rk);
 	const auto& src_a = REGISTERS().getvr(fi.ra);
 
-	dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-	dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+	dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+	dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 	NEXT_INSTR();
 }
 
@@ -689,7 +689,7 @@ INSTRUCTION(LA64_BC_FMADD_D, la64_fmadd_d)
 	const auto& vr_a = REGISTERS().getvr(fi.ra);
 	auto& vr_d = REGISTERS().getvr(fi.rd);
 
-	vr_d.df[0] = vr_a.df[0] + vr_j.df[0] * vr_k.df[0];
+	vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 6a482be..1757998 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1400,7 +1400,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] + vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = std::fma(vr_j.f[0], vr_k.f[0], vr_a.f[0]);
 	}
 
 	static void FMSUB_S(cpu_t& cpu, la_instruction instr) {
@@ -1410,7 +1410,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_k.f[0] * vr_j.f[0] - vr_a.f[0];
+		vr_d.f[0] = std::fma(vr_j.f[0], vr_k.f[0], -vr_a.f[0]);
 	}
 
 	static void FLDX_S(cpu_t& cpu, la_instruction instr) {
@@ -1451,7 +1451,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_k.df[0] * vr_j.df[0] - vr_a.df[0];
+		vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], -vr_a.df[0]);
 	}
 
 	static void FMADD_D(cpu_t& cpu, la_instruction instr) {
@@ -1461,7 +1461,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] + vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	}
 
 	static void FNMADD_S(cpu_t& cpu, la_instruction instr) {
@@ -1471,7 +1471,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = -(vr_a.f[0] + vr_j.f[0] * vr_k.f[0]);
+		vr_d.f[0] = -std::fma(vr_j.f[0], vr_k.f[0], vr_a.f[0]);
 	}
 
 	static void FNMADD_D(cpu_t& cpu, la_instruction instr) {
@@ -1481,7 +1481,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = -(vr_a.df[0] + vr_j.df[0] * vr_k.df[0]);
+		vr_d.df[0] = -std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	}
 
 	static void FNMSUB_S(cpu_t& cpu, la_instruction instr) {
@@ -1491,7 +1491,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] - vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = -std::fma(vr_j.f[0], vr_k.f[0], -vr_a.f[0]);
 	}
 
 	static void FNMSUB_D(cpu_t& cpu, la_instruction instr) {
@@ -1501,7 +1501,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] - vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = -std::fma(vr_j.df[0], vr_k.df[0], -vr_a.df[0]);
 	}
 
 	static void CLO_W(cpu_t& cpu, la_instruction instr) {
@@ -2867,14 +2867,14 @@ struct InstrImpl {
 
 	static void VFMADD_D(cpu_t& cpu, la_instruction instr) {
 		// VFMADD.D: Vector fused multiply-add (double precision, 2x64-bit)
-		// 4R-type format: vd = va + vj * vk
+		// 4R-type format: vd = vj * vk + va
 		const auto& src_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& src_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2882,14 +2882,14 @@ struct InstrImpl {
 
 	static void VFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// VFNMADD.D: Vector fused negative multiply-add (double precision, 2x64-bit)
-		// 4R-type format: vd = -(vj * vk) + va = va - vj * vk
+		// 4R-type format: vd = -(vj * vk + va)
 		const auto& src_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& src_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -3869,7 +3869,7 @@ struct InstrImpl {
 
 	static void XVFMADD_S(cpu_t& cpu, la_instruction instr) {
 		// XVFMADD.S: LASX vector fused multiply-add (single precision, 8x32-bit)
-		// 4R-type format: xd = xa + xj * xk
+		// 4R-type format: xd = xj * xk + xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3881,13 +3881,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] + src_j.f[i] * src_k.f[i];
+			dst.f[i] = std::fma(src_j.f[i], src_k.f[i], src_a.f[i]);
 		}
 	}
 
 	static void XVFMADD_D(cpu_t& cpu, la_instruction instr) {
 		// XVFMADD.D: LASX vector fused multiply-add (double precision, 4x64-bit)
-		// 4R-type format: xd = xa + xj * xk
+		// 4R-type format: xd = xj * xk + xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3898,15 +3898,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] + src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] + src_j.df[3] * src_k.df[3];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+		dst.df[2] = std::fma(src_j.df[2], src_k.df[2], src_a.df[2]);
+		dst.df[3] = std::fma(src_j.df[3], src_k.df[3], src_a.df[3]);
 	}
 
 	static void XVFMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.S: LASX vector fused multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3918,13 +3918,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = std::fma(src_j.f[i], src_k.f[i], -src_a.f[i]);
 		}
 	}
 
 	static void XVFMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.D: LASX vector fused multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3935,15 +3935,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], -src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], -src_a.df[1]);
+		dst.df[2] = std::fma(src_j.df[2], src_k.df[2], -src_a.df[2]);
+		dst.df[3] = std::fma(src_j.df[3], src_k.df[3], -src_a.df[3]);
 	}
 
 	static void XVFNMADD_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.S: LASX vector fused negative multiply-add (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3955,13 +3955,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = -std::fma(src_j.f[i], src_k.f[i], src_a.f[i]);
 		}
 	}
 
 	static void XVFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.D: LASX vector fused negative multiply-add (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3972,15 +3972,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+		dst.df[2] = -std::fma(src_j.df[2], src_k.df[2], src_a.df[2]);
+		dst.df[3] = -std::fma(src_j.df[3], src_k.df[3], src_a.df[3]);
 	}
 
 	static void XVFNMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.S: LASX vector fused negative multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3992,13 +3992,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = -(src_a.f[i] + src_j.f[i] * src_k.f[i]);
+			dst.f[i] = -std::fma(src_j.f[i], src_k.f[i], -src_a.f[i]);
 		}
 	}
 
 	static void XVFNMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.D: LASX vector fused negative multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4009,10 +4009,10 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = -(src_a.df[0] + src_j.df[0] * src_k.df[0]);
-		dst.df[1] = -(src_a.df[1] + src_j.df[1] * src_k.df[1]);
-		dst.df[2] = -(src_a.df[2] + src_j.df[2] * src_k.df[2]);
-		dst.df[3] = -(src_a.df[3] + src_j.df[3] * src_k.df[3]);
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], -src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], -src_a.df[1]);
+		dst.df[2] = -std::fma(src_j.df[2], src_k.df[2], -src_a.df[2]);
+		dst.df[3] = -std::fma(src_j.df[3], src_k.df[3], -src_a.df[3]);
 	}
 
 	static void XVORI_B(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 0ef6a11..3fde6c0 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 #include "instruction_counter.hpp"
 
 #define MUSTTAIL __attribute__((musttail))
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index ec829ae..fcb4aea 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 
 #define MUSTTAIL __attribute__((musttail))
 #define MUNUSED  [[maybe_unused]]
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index c38b771..2dd4dd8 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 
 #define DECODER()   (*decoder)
 #define CPU()       (*this)
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index 9f02a40..d80e550 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 
 #define DECODER()   (*decoder)
 #define CPU()       (*this)
-- 
2.43.0


From ab6ce9286f526d86bf130f896004d0ffcfa62846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 011/116] fix: VHADDW/XVHADDW add odd elements of vj to even
 elements of vk

---
 lib/libloong/bytecode_impl.cpp |  6 +++---
 lib/libloong/la_instr_impl.hpp | 36 +++++++++++++++-------------------
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 32acbac..e09fabb 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -628,9 +628,9 @@ INSTRUCTION(LA64_BC_VHADDW_D_W, la64_vhaddw_d_w)
 	const auto& src1 = REGISTERS().getvr(fi.rj);
 	const auto& src2 = REGISTERS().getvr(fi.rk);
 
-	// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-	const int64_t res1 = (int64_t)(int32_t)src1.w[0] + (int64_t)(int32_t)src1.w[1];
-	const int64_t res2 = (int64_t)(int32_t)src2.w[0] + (int64_t)(int32_t)src2.w[1];
+	// Add odd elements of vj to even elements of vk: vj[1]+vk[0], vj[3]+vk[2]
+	const int64_t res1 = (int64_t)(int32_t)src1.w[1] + (int64_t)(int32_t)src2.w[0];
+	const int64_t res2 = (int64_t)(int32_t)src1.w[3] + (int64_t)(int32_t)src2.w[2];
 	dst.d[0] = res1;
 	dst.d[1] = res2;
 	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 1757998..a9904f5 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2064,14 +2064,14 @@ struct InstrImpl {
 
 	static void VHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// VHADDW.D.W: Vector horizontal add with widening (word to doubleword)
-		// Adds adjacent pairs of 32-bit signed words and produces 64-bit results
+		// Adds odd signed words of vj to even signed words of vk, producing 64-bit results
 		const auto& src1 = cpu.registers().getvr(instr.r3.rj);
 		const auto& src2 = cpu.registers().getvr(instr.r3.rk);
 		auto& dst = cpu.registers().getvr(instr.r3.rd);
 
-		// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-		const int64_t res1 = (int64_t)src1.w[0] + (int64_t)src1.w[1];
-		const int64_t res2 = (int64_t)src2.w[0] + (int64_t)src2.w[1];
+		// Add odd elements of vj to even elements of vk: vj[1]+vk[0], vj[3]+vk[2]
+		const int64_t res1 = (int64_t)src1.w[1] + (int64_t)src2.w[0];
+		const int64_t res2 = (int64_t)src1.w[3] + (int64_t)src2.w[2];
 		dst.d[0] = res1;
 		dst.d[1] = res2;
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
@@ -2081,22 +2081,19 @@ struct InstrImpl {
 
 	static void XVHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.D.W: LASX vector horizontal add with widening (word to doubleword, 256-bit)
-		// Adds adjacent pairs of 32-bit signed words from xj and produces 64-bit results
-		// Takes all 8 words from xj, produces 4 doublewords
+		// Adds odd signed words of xj to even signed words of xk, producing 4 doublewords
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src_j = cpu.registers().getvr(xj);
-		//const auto& src_k = cpu.registers().getvr(xk);
+		const auto& src_k = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 8 words from xj: pairs (0,1), (2,3), (4,5), (6,7) → 4 doublewords
-		// xk is unused (or maybe used for other operand in 3-register form)
-		int64_t r0 = (int64_t)src_j.w[0] + (int64_t)src_j.w[1];
-		int64_t r1 = (int64_t)src_j.w[2] + (int64_t)src_j.w[3];
-		int64_t r2 = (int64_t)src_j.w[4] + (int64_t)src_j.w[5];
-		int64_t r3 = (int64_t)src_j.w[6] + (int64_t)src_j.w[7];
+		int64_t r0 = (int64_t)src_j.w[1] + (int64_t)src_k.w[0];
+		int64_t r1 = (int64_t)src_j.w[3] + (int64_t)src_k.w[2];
+		int64_t r2 = (int64_t)src_j.w[5] + (int64_t)src_k.w[4];
+		int64_t r3 = (int64_t)src_j.w[7] + (int64_t)src_k.w[6];
 
 		auto& dst = cpu.registers().getvr(xd);
 		dst.d[0] = r0;
@@ -2239,18 +2236,17 @@ struct InstrImpl {
 
 	static void XVHADDW_Q_D(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.Q.D: LASX vector horizontal add with widening (doubleword to quadword, 256-bit)
-		// Adds adjacent pairs of 64-bit signed doublewords and produces 128-bit results
+		// Adds odd signed doublewords of xj to even signed doublewords of xk, producing 2 quadwords
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src1 = cpu.registers().getvr(xj);
-		//const auto& src2 = cpu.registers().getvr(xk);
+		const auto& src2 = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 4 doublewords from xj: pairs (0,1), (2,3) → 2 quadwords
-		__int128 q0 = (__int128)src1.d[0] + (__int128)src1.d[1];
-		__int128 q1 = (__int128)src1.d[2] + (__int128)src1.d[3];
+		__int128 q0 = (__int128)src1.d[1] + (__int128)src2.d[0];
+		__int128 q1 = (__int128)src1.d[3] + (__int128)src2.d[2];
 
 		// Store quadwords as pairs of doublewords
 		auto& dst = cpu.registers().getvr(xd);
-- 
2.43.0


From 335caf9636e3f1474c2c938a85856db85440c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 012/116] fix: conditional branches further than 32KB away

---
 lib/libloong/bytecode_impl.cpp      | 20 ++++++++++----------
 lib/libloong/threaded_bytecodes.hpp | 19 ++++++++++++-------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index e09fabb..e3f4e43 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -460,7 +460,7 @@ INSTRUCTION(LA64_BC_BEQZ, la64_beqz)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REG(fi.rj) == 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -470,7 +470,7 @@ INSTRUCTION(LA64_BC_BNEZ, la64_bnez)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REG(fi.rj) != 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -480,7 +480,7 @@ INSTRUCTION(LA64_BC_BEQ, la64_beq)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) == REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -490,7 +490,7 @@ INSTRUCTION(LA64_BC_BNE, la64_bne)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) != REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -500,7 +500,7 @@ INSTRUCTION(LA64_BC_BLT, la64_blt)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) < (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -510,7 +510,7 @@ INSTRUCTION(LA64_BC_BGE, la64_bge)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) >= (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -520,7 +520,7 @@ INSTRUCTION(LA64_BC_BLTU, la64_bltu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) < REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -530,7 +530,7 @@ INSTRUCTION(LA64_BC_BGEU, la64_bgeu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) >= REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -718,7 +718,7 @@ INSTRUCTION(LA64_BC_BCEQZ, la64_bceqz)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REGISTERS().cf(fi.rj) == 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -728,7 +728,7 @@ INSTRUCTION(LA64_BC_BCNEZ, la64_bcnez)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REGISTERS().cf(fi.rj) != 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index 7d1e6da..a634360 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -411,13 +411,15 @@ namespace loongarch
 		uint32_t whole;
 		struct {
 			uint8_t rj;      // bits [4:0] - register to test (or condition flag for BC*)
-			uint8_t padding; // bits [12:5] - unused, available for future use
-			int16_t offset;  // bits [28:13] - pre-computed offset (sign-extended, already << 2)
+			uint8_t offs[3]; // bits [31:8] - instruction offset (see below)
 		};
 		void set_offset(int32_t offs) {
 			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			// Store it as a 24-bit instruction offset, as it can be up to +/- 4MB
+			this->whole = (uint32_t(offs >> 2) << 8) | this->rj;
+		}
+		int32_t get_offset() const {
+			return (int32_t(this->whole) >> 8) * 4;
 		}
 	};
 
@@ -427,12 +429,15 @@ namespace loongarch
 		struct {
 			uint8_t rd;      // bits [4:0] - first register
 			uint8_t rj;      // bits [9:5] - second register
-			int16_t offset;  // bits [25:10] - pre-computed offset (sign-extended, already << 2)
+			int16_t offset;  // bits [25:10] - instruction offset (sign-extended)
 		};
 		void set_offset(int32_t offs) {
 			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			// Store it as a 16-bit instruction offset, as it can be up to +/- 128KB
+			this->offset = (int16_t)(offs >> 2);
+		}
+		int32_t get_offset() const {
+			return int32_t(this->offset) * 4;
 		}
 	};
 
-- 
2.43.0


From dcdc398e290eb10a2371587bc9e4e13086e5e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 013/116] fix: unaligned guest vector accesses crash the host

---
 lib/libloong/memory_inline.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index b147ff9..be398ef 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -20,7 +20,10 @@ inline T Memory::read(address_t addr) const
 		}
 	}
 
-	return *reinterpret_cast<const T*>(&m_arena[addr]);
+	// Guest addresses have no alignment guarantees
+	T value;
+	std::memcpy(&value, &m_arena[addr], sizeof(T));
+	return value;
 }
 
 template <typename T, bool EnableSegReg>
@@ -38,7 +41,8 @@ inline void Memory::write(address_t addr, T value)
 		}
 	}
 
-	*reinterpret_cast<T*>(&m_arena[addr]) = value;
+	// Guest addresses have no alignment guarantees
+	std::memcpy(&m_arena[addr], &value, sizeof(T));
 }
 
 template <typename T>
-- 
2.43.0


From 7803d387a507f01a39d7b228c2f779297841d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 014/116] fix: implement the missing floating-point compare
 conditions

---
 lib/libloong/la_instr_impl.hpp | 68 ++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index a9904f5..c3c2e4a 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -930,7 +930,20 @@ struct InstrImpl {
 			case 0x0F: // SULE - Signaling Unordered or Less or Equal
 				result = is_unordered || (fj_val <= fk_val);
 				break;
+			case 0x00: // CAF - (Quiet) Always false
+			case 0x01: // SAF - Signaling Always false
+				result = false;
+				break;
+			case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+			case 0x0D: // SUEQ - Signaling Unordered or Equal
+				result = is_unordered || (fj_val == fk_val);
+				break;
+			case 0x10: // CNE - (Quiet) Not Equal (ordered)
+			case 0x11: // SNE - Signaling Not Equal (ordered)
+				result = !is_unordered && (fj_val != fk_val);
+				break;
 			case 0x14: // COR - (Quiet) Ordered
+			case 0x15: // SOR - Signaling Ordered
 				result = !is_unordered;
 				break;
 			case 0x18: // CUNE - (Quiet) Unordered or Not Equal
@@ -987,7 +1000,20 @@ struct InstrImpl {
 			case 0x0F: // SULE - Signaling Unordered or Less or Equal
 				result = is_unordered || (fj_val <= fk_val);
 				break;
+			case 0x00: // CAF - (Quiet) Always false
+			case 0x01: // SAF - Signaling Always false
+				result = false;
+				break;
+			case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+			case 0x0D: // SUEQ - Signaling Unordered or Equal
+				result = is_unordered || (fj_val == fk_val);
+				break;
+			case 0x10: // CNE - (Quiet) Not Equal (ordered)
+			case 0x11: // SNE - Signaling Not Equal (ordered)
+				result = !is_unordered && (fj_val != fk_val);
+				break;
 			case 0x14: // COR - (Quiet) Ordered
+			case 0x15: // SOR - Signaling Ordered
 				result = !is_unordered;
 				break;
 			case 0x18: // CUNE - (Quiet) Unordered or Not Equal
@@ -1056,7 +1082,28 @@ struct InstrImpl {
 						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
 					}
 					break;
+				case 0x00: // CAF - (Quiet) Always false
+				case 0x01: // SAF - Signaling Always false
+					dst.du[i] = 0;
+					break;
+				case 0x08: // CUN - (Quiet) Incomparable
+				case 0x09: // SUN - Signaling Incomparable
+					dst.du[i] = (std::isnan(val1) || std::isnan(val2)) ? UINT64_MAX : 0;
+					break;
+				case 0x0A: // CULT - (Quiet) Unordered or Less Than
+				case 0x0B: // SULT - Signaling Unordered or Less Than
+					dst.du[i] = !(val1 >= val2) ? UINT64_MAX : 0;
+					break;
+				case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+				case 0x0D: // SUEQ - Signaling Unordered or Equal
+					dst.du[i] = !(val1 < val2 || val1 > val2) ? UINT64_MAX : 0;
+					break;
+				case 0x10: // CNE - (Quiet) Not Equal (ordered)
+				case 0x11: // SNE - Signaling Not Equal (ordered)
+					dst.du[i] = (val1 < val2 || val1 > val2) ? UINT64_MAX : 0;
+					break;
 				case 0x14: // COR - (Quiet) Ordered
+				case 0x15: // SOR - Signaling Ordered
 					if (std::isnan(val1) || std::isnan(val2)) {
 						dst.du[i] = 0;
 					} else {
@@ -2212,7 +2259,28 @@ struct InstrImpl {
 						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
 					}
 					break;
+				case 0x00: // CAF - (Quiet) Always false
+				case 0x01: // SAF - Signaling Always false
+					dst.du[i] = 0;
+					break;
+				case 0x08: // CUN - (Quiet) Incomparable
+				case 0x09: // SUN - Signaling Incomparable
+					dst.du[i] = (std::isnan(val1) || std::isnan(val2)) ? UINT64_MAX : 0;
+					break;
+				case 0x0A: // CULT - (Quiet) Unordered or Less Than
+				case 0x0B: // SULT - Signaling Unordered or Less Than
+					dst.du[i] = !(val1 >= val2) ? UINT64_MAX : 0;
+					break;
+				case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+				case 0x0D: // SUEQ - Signaling Unordered or Equal
+					dst.du[i] = !(val1 < val2 || val1 > val2) ? UINT64_MAX : 0;
+					break;
+				case 0x10: // CNE - (Quiet) Not Equal (ordered)
+				case 0x11: // SNE - Signaling Not Equal (ordered)
+					dst.du[i] = (val1 < val2 || val1 > val2) ? UINT64_MAX : 0;
+					break;
 				case 0x14: // COR - (Quiet) Ordered
+				case 0x15: // SOR - Signaling Ordered
 					if (std::isnan(val1) || std::isnan(val2)) {
 						dst.du[i] = 0;
 					} else {
-- 
2.43.0


From 96c98901a0eed8f88deecf2f96222498f4954ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 015/116] fix: FCLASS result bits

---
 lib/libloong/la_instr_impl.hpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index c3c2e4a..87d9717 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1190,15 +1190,16 @@ struct InstrImpl {
 		// FCLASS returns a 10-bit mask indicating the class
 		uint32_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			const bool is_quiet = vr_j.wu[0] & 0x00400000;
+			result = is_quiet ? 0x002 : 0x001; // qNaN or sNaN
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
-		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
-		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
+		} else if (fpclass == FP_SUBNORMAL) {
+			result = is_neg ? 0x010 : 0x100;
+		} else if (fpclass == FP_ZERO) {
+			result = is_neg ? 0x020 : 0x200;
 		}
 		vr_d.wu[0] = result;
 	}
@@ -1218,15 +1219,16 @@ struct InstrImpl {
 		// FCLASS returns a 10-bit mask indicating the class
 		uint64_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			const bool is_quiet = vr_j.du[0] & 0x0008000000000000;
+			result = is_quiet ? 0x002 : 0x001; // qNaN or sNaN
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
-		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
-		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
+		} else if (fpclass == FP_SUBNORMAL) {
+			result = is_neg ? 0x010 : 0x100;
+		} else if (fpclass == FP_ZERO) {
+			result = is_neg ? 0x020 : 0x200;
 		}
 		vr_d.du[0] = result;
 	}
-- 
2.43.0


From d826039b99b61e77a18b53b40d419dae3ac15c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 016/116] fix: FTINTRZ saturates out-of-range values and
 converts NaN to zero

---
 lib/libloong/la_instr_impl.hpp | 35 ++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 87d9717..eaf2e1e 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2,6 +2,7 @@
 #include "cpu.hpp"
 #include "la_instr.hpp"
 #include <cmath>
+#include <limits>
 
 namespace loongarch {
 
@@ -1297,6 +1298,20 @@ struct InstrImpl {
 		vr_d.df[0] = static_cast<double>(vr_j.f[0]);
 	}
 
+	// Convert to integer, rounding towards zero. Out-of-range values
+	// saturate and NaN converts to zero.
+	template <typename I, typename F>
+	static I fp_to_int_trunc(F value) {
+		constexpr F limit = F(uint64_t(1) << (sizeof(I) * 8 - 1));
+		if (std::isnan(value))
+			return 0;
+		if (value >= limit)
+			return std::numeric_limits<I>::max();
+		if (value < -limit)
+			return std::numeric_limits<I>::min();
+		return static_cast<I>(value);
+	}
+
 	static void FTINTRZ_W_S(cpu_t& cpu, la_instruction instr) {
 		// Convert single to 32-bit integer with truncation (round towards zero)
 		uint32_t fd = instr.whole & 0x1F;
@@ -1305,7 +1320,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int32_t int_val = static_cast<int32_t>(std::trunc(vr_j.f[0]));
+		int32_t int_val = fp_to_int_trunc<int32_t>(vr_j.f[0]);
 		vr_d.w[0] = int_val;
 	}
 
@@ -1317,7 +1332,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int32_t int_val = static_cast<int32_t>(std::trunc(vr_j.df[0]));
+		int32_t int_val = fp_to_int_trunc<int32_t>(vr_j.df[0]);
 		vr_d.w[0] = int_val;
 	}
 
@@ -1329,7 +1344,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int64_t int_val = static_cast<int64_t>(std::trunc(vr_j.f[0]));
+		int64_t int_val = fp_to_int_trunc<int64_t>(vr_j.f[0]);
 		vr_d.d[0] = int_val;
 	}
 
@@ -1341,7 +1356,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int64_t int_val = static_cast<int64_t>(std::trunc(vr_j.df[0]));
+		int64_t int_val = fp_to_int_trunc<int64_t>(vr_j.df[0]);
 		vr_d.d[0] = int_val;
 	}
 
@@ -2906,10 +2921,10 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Convert each single-precision float to int32 with truncation towards zero
-		dst.w[0] = (int32_t)src.f[0];
-		dst.w[1] = (int32_t)src.f[1];
-		dst.w[2] = (int32_t)src.f[2];
-		dst.w[3] = (int32_t)src.f[3];
+		dst.w[0] = fp_to_int_trunc<int32_t>(src.f[0]);
+		dst.w[1] = fp_to_int_trunc<int32_t>(src.f[1]);
+		dst.w[2] = fp_to_int_trunc<int32_t>(src.f[2]);
+		dst.w[3] = fp_to_int_trunc<int32_t>(src.f[3]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2924,8 +2939,8 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Convert each double-precision float to int64 with truncation towards zero
-		dst.d[0] = (int64_t)src.df[0];
-		dst.d[1] = (int64_t)src.df[1];
+		dst.d[0] = fp_to_int_trunc<int64_t>(src.df[0]);
+		dst.d[1] = fp_to_int_trunc<int64_t>(src.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
-- 
2.43.0


From f9c361d378e26db91525f0cf0daece3e9dcd8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 017/116] fix: LASX pack, pick, interleave, replicate and mask
 work on each 128-bit lane

---
 lib/libloong/la_instr_impl.hpp | 172 ++++++++++++++++++---------------
 1 file changed, 96 insertions(+), 76 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index eaf2e1e..2b407e5 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3686,26 +3686,24 @@ struct InstrImpl {
 
 	static void XVMSKNZ_B(cpu_t& cpu, la_instruction instr) {
 		// XVMSKNZ.B xd, xj
-		// Create a 32-bit mask where each bit indicates if corresponding byte is non-zero
+		// Create a 16-bit mask in each 128-bit lane, where each bit
+		// indicates if the corresponding byte is non-zero
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 
 		const auto& src = cpu.registers().getvr(xj);
 		auto& dst = cpu.registers().getvr(xd);
 
-		uint32_t mask = 0;
-		for (int i = 0; i < 4; i++) {
-			for (int j = 0; j < 8; j++) {
-				uint8_t byte = (src.du[i] >> (j * 8)) & 0xFF;
-				if (byte != 0) {
-					mask |= (1u << (i * 8 + j));
-				}
+		uint64_t mask[2] = {0, 0};
+		for (int i = 0; i < 32; i++) {
+			if (src.bu[i] != 0) {
+				mask[i / 16] |= 1u << (i % 16);
 			}
 		}
 
-		dst.du[0] = mask;
+		dst.du[0] = mask[0];
 		dst.du[1] = 0;
-		dst.du[2] = 0;
+		dst.du[2] = mask[1];
 		dst.du[3] = 0;
 	}
 
@@ -3928,24 +3926,22 @@ struct InstrImpl {
 
 	static void XVREPLVE_D(cpu_t& cpu, la_instruction instr) {
 		// XVREPLVE.D: LASX vector replicate element from register (double precision)
-		// Replicates element selected by rj to all elements in xd from vector xk
-		// Format: xd[i] = xk[rj % 4] for all i
+		// Replicates element selected by rk to both elements, separately in each 128-bit lane
+		// Format: xvreplve.d xd, xj, rk
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t rk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src = cpu.registers().getvr(xk);
+		const auto& src = cpu.registers().getvr(xj);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Get the element index from register rj (modulo 4 for double elements)
-		uint32_t idx = cpu.reg(xj) & 0x3;
-
-		// Replicate the selected element to all 4 positions
-		uint64_t value = src.du[idx];
-		dst.du[0] = value;
-		dst.du[1] = value;
-		dst.du[2] = value;
-		dst.du[3] = value;
+		const uint32_t idx = cpu.reg(rk) & 0x1;
+		const uint64_t low = src.du[idx];
+		const uint64_t high = src.du[2 + idx];
+		dst.du[0] = low;
+		dst.du[1] = low;
+		dst.du[2] = high;
+		dst.du[3] = high;
 	}
 
 	static void XVFMADD_S(cpu_t& cpu, la_instruction instr) {
@@ -4134,7 +4130,7 @@ struct InstrImpl {
 
 	static void XVILVL_D(cpu_t& cpu, la_instruction instr) {
 		// XVILVL.D: LASX vector interleave low double-word (256-bit)
-		// Interleaves the low 128-bit double-words from two 256-bit vectors
+		// Low elements: dst = [xk[0], xj[0], xk[2], xj[2]]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4143,17 +4139,21 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[0], dst[1] = src_j[0], dst[2] = src_k[1], dst[3] = src_j[1]
-		// For LASX (256-bit), we interleave the low 2 double-words (128-bit) from each source
-		dst.du[0] = src_k.du[0];
-		dst.du[1] = src_j.du[0];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_j.du[1];
+		// Each 128-bit lane is handled separately
+		// Read all inputs first to handle register aliasing
+		const uint64_t d0 = src_k.du[0];
+		const uint64_t d1 = src_j.du[0];
+		const uint64_t d2 = src_k.du[2];
+		const uint64_t d3 = src_j.du[2];
+		dst.du[0] = d0;
+		dst.du[1] = d1;
+		dst.du[2] = d2;
+		dst.du[3] = d3;
 	}
 
 	static void XVILVH_D(cpu_t& cpu, la_instruction instr) {
 		// XVILVH.D: LASX vector interleave high double-word (256-bit)
-		// Interleaves the high 128-bit double-words from two 256-bit vectors
+		// High elements: dst = [xk[1], xj[1], xk[3], xj[3]]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4162,12 +4162,16 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[2], dst[1] = src_j[2], dst[2] = src_k[3], dst[3] = src_j[3]
-		// For LASX (256-bit), we interleave the high 2 double-words (128-bit) from each source
-		dst.du[0] = src_k.du[2];
-		dst.du[1] = src_j.du[2];
-		dst.du[2] = src_k.du[3];
-		dst.du[3] = src_j.du[3];
+		// Each 128-bit lane is handled separately
+		// Read all inputs first to handle register aliasing
+		const uint64_t d0 = src_k.du[1];
+		const uint64_t d1 = src_j.du[1];
+		const uint64_t d2 = src_k.du[3];
+		const uint64_t d3 = src_j.du[3];
+		dst.du[0] = d0;
+		dst.du[1] = d1;
+		dst.du[2] = d2;
+		dst.du[3] = d3;
 	}
 
 	static void XVPERMI_D(cpu_t& cpu, la_instruction instr) {
@@ -4199,8 +4203,7 @@ struct InstrImpl {
 
 	static void XVPACKEV_D(cpu_t& cpu, la_instruction instr) {
 		// XVPACKEV.D: LASX vector pack even double-word (256-bit)
-		// Packs even-numbered elements (0, 2) from each source
-		// dst[0] = xj[0], dst[1] = xk[0], dst[2] = xj[2], dst[3] = xk[2]
+		// Even elements: dst = [xk[0], xj[0], xk[2], xj[2]]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4209,17 +4212,21 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_k.du[0];
-		dst.du[2] = src_j.du[2];
-		dst.du[3] = src_k.du[2];
+		// Each 128-bit lane is handled separately
+		// Read all inputs first to handle register aliasing
+		const uint64_t d0 = src_k.du[0];
+		const uint64_t d1 = src_j.du[0];
+		const uint64_t d2 = src_k.du[2];
+		const uint64_t d3 = src_j.du[2];
+		dst.du[0] = d0;
+		dst.du[1] = d1;
+		dst.du[2] = d2;
+		dst.du[3] = d3;
 	}
 
 	static void XVPACKOD_D(cpu_t& cpu, la_instruction instr) {
 		// XVPACKOD.D: LASX vector pack odd double-word (256-bit)
-		// Packs odd-numbered elements (1, 3) from each source
-		// dst[0] = xj[1], dst[1] = xk[1], dst[2] = xj[3], dst[3] = xk[3]
+		// Odd elements: dst = [xk[1], xj[1], xk[3], xj[3]]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4228,17 +4235,21 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_k.du[1];
-		dst.du[2] = src_j.du[3];
-		dst.du[3] = src_k.du[3];
+		// Each 128-bit lane is handled separately
+		// Read all inputs first to handle register aliasing
+		const uint64_t d0 = src_k.du[1];
+		const uint64_t d1 = src_j.du[1];
+		const uint64_t d2 = src_k.du[3];
+		const uint64_t d3 = src_j.du[3];
+		dst.du[0] = d0;
+		dst.du[1] = d1;
+		dst.du[2] = d2;
+		dst.du[3] = d3;
 	}
 
 	static void XVPICKEV_D(cpu_t& cpu, la_instruction instr) {
 		// XVPICKEV.D: LASX vector pick even double-word (256-bit)
-		// Picks even elements from both sources in a different pattern than PACKEV
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xk[0], dst[3] = xk[2]
+		// Even elements: dst = [xk[0], xj[0], xk[2], xj[2]]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4247,18 +4258,21 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_j.du[2];
-		dst.du[2] = src_k.du[0];
-		dst.du[3] = src_k.du[2];
+		// Each 128-bit lane is handled separately
+		// Read all inputs first to handle register aliasing
+		const uint64_t d0 = src_k.du[0];
+		const uint64_t d1 = src_j.du[0];
+		const uint64_t d2 = src_k.du[2];
+		const uint64_t d3 = src_j.du[2];
+		dst.du[0] = d0;
+		dst.du[1] = d1;
+		dst.du[2] = d2;
+		dst.du[3] = d3;
 	}
 
 	static void XVPICKEV_W(cpu_t& cpu, la_instruction instr) {
 		// XVPICKEV.W: LASX vector pick even word (256-bit)
 		// Picks even-indexed words from both sources
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xj[4], dst[3] = xj[6]
-		// dst[4] = xk[0], dst[5] = xk[2], dst[6] = xk[4], dst[7] = xk[6]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4267,21 +4281,22 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even words (indices 0, 2, 4, 6) from both sources
-		dst.w[0] = src_j.w[0];
-		dst.w[1] = src_j.w[2];
-		dst.w[2] = src_j.w[4];
-		dst.w[3] = src_j.w[6];
-		dst.w[4] = src_k.w[0];
-		dst.w[5] = src_k.w[2];
-		dst.w[6] = src_k.w[4];
-		dst.w[7] = src_k.w[6];
+		// Pick even words of both sources, separately in each 128-bit lane
+		// Read all inputs first to handle register aliasing
+		int32_t tmp[8];
+		for (int lane = 0; lane < 8; lane += 4) {
+			tmp[lane + 0] = src_k.w[lane + 0];
+			tmp[lane + 1] = src_k.w[lane + 2];
+			tmp[lane + 2] = src_j.w[lane + 0];
+			tmp[lane + 3] = src_j.w[lane + 2];
+		}
+		for (int i = 0; i < 8; i++)
+			dst.w[i] = tmp[i];
 	}
 
 	static void XVPICKOD_D(cpu_t& cpu, la_instruction instr) {
 		// XVPICKOD.D: LASX vector pick odd double-word (256-bit)
-		// Picks odd elements from both sources
-		// dst[0] = xj[1], dst[1] = xj[3], dst[2] = xk[1], dst[3] = xk[3]
+		// Odd elements: dst = [xk[1], xj[1], xk[3], xj[3]]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4290,11 +4305,16 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_j.du[3];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_k.du[3];
+		// Each 128-bit lane is handled separately
+		// Read all inputs first to handle register aliasing
+		const uint64_t d0 = src_k.du[1];
+		const uint64_t d1 = src_j.du[1];
+		const uint64_t d2 = src_k.du[3];
+		const uint64_t d3 = src_j.du[3];
+		dst.du[0] = d0;
+		dst.du[1] = d1;
+		dst.du[2] = d2;
+		dst.du[3] = d3;
 	}
 
 	static void XVLDI(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 45bf2591f8294857fef56aabc4fd2416221c07cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 018/116] fix: VPICKEV.W when the destination is also a source

---
 lib/libloong/la_instr_impl.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 2b407e5..cab4fc9 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2531,10 +2531,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Pick even words: dst = [vk[0], vk[2], vj[0], vj[2]]
-		dst.wu[0] = src_k.wu[0];
-		dst.wu[1] = src_k.wu[2];
-		dst.wu[2] = src_j.wu[0];
-		dst.wu[3] = src_j.wu[2];
+		// Read all inputs first to handle register aliasing
+		const uint32_t k0 = src_k.wu[0], k2 = src_k.wu[2];
+		const uint32_t j0 = src_j.wu[0], j2 = src_j.wu[2];
+		dst.wu[0] = k0;
+		dst.wu[1] = k2;
+		dst.wu[2] = j0;
+		dst.wu[3] = j2;
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.wu[4] = 0;
 		dst.wu[5] = 0;
-- 
2.43.0


From fc097725ef1a1e83e5bb7c54a05873d5a8336547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 019/116] fix: VFRSTPI.B searches for a negative byte and
 writes one byte

---
 lib/libloong/la_instr_impl.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index cab4fc9..e23ae2e 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3085,8 +3085,8 @@ struct InstrImpl {
 
 	static void VFRSTPI_B(cpu_t& cpu, la_instruction instr) {
 		// VFRSTPI.B vd, vj, ui5
-		// Find first set position in vector (starting from ui5)
-		// Sets vd[0] to the position of first non-zero byte starting from position ui5
+		// Find the first negative byte in vj, and write its position
+		// (or 16 if there is none) to byte ui5 of vd
 		uint32_t vd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t ui5 = (instr.whole >> 10) & 0x1F;
@@ -3094,19 +3094,15 @@ struct InstrImpl {
 		const auto& src = cpu.registers().getvr(vj);
 		auto& dst = cpu.registers().getvr(vd);
 
-		// Find first non-zero byte starting from ui5
 		uint8_t pos = 16; // Default: not found
-		for (int i = ui5; i < 16; i++) {
-			uint8_t byte = src.bu[i];
-			if (byte != 0) {
+		for (int i = 0; i < 16; i++) {
+			if (src.b[i] < 0) {
 				pos = i;
 				break;
 			}
 		}
 
-		// Store result in first byte of vd, clear rest
-		dst.du[0] = pos;
-		dst.du[1] = 0;
+		dst.bu[ui5 & 15] = pos;
 	}
 
 	static void BCNEZ(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 6a5753452c2b32244304ff6629e5f2d6888a401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 020/116] fix: signed division overflow crashes the host

---
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index e23ae2e..b2c0b78 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -63,13 +63,13 @@ struct InstrImpl {
 	static void DIV_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a / b) : 0;
+		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int32_t>(static_cast<int64_t>(a) / b) : 0;
 	}
 
 	static void MOD_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a % b) : 0;
+		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int32_t>(static_cast<int64_t>(a) % b) : 0;
 	}
 
 	static void DIV_WU(cpu_t& cpu, la_instruction instr) {
@@ -87,13 +87,13 @@ struct InstrImpl {
 	static void DIV_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
+		cpu.reg(instr.r3.rd) = (b == 0) ? 0 : (b == -1) ? (0 - cpu.reg(instr.r3.rj)) : (a / b);
 	}
 
 	static void MOD_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a % b) : 0;
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? (a % b) : 0;
 	}
 
 	static void DIV_DU(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From cbd583525bc6be2ed993d6d16e02d1f18a57108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 021/116] fix: blocks of 256+ instructions are miscounted, and
 blocks over 64KB and BREAK continue at the wrong PC

---
 lib/libloong/decoder_cache.cpp                | 21 ++++++++++++++-----
 lib/libloong/decoder_cache.hpp                |  2 +-
 lib/libloong/tailcall_bytecode_array.hpp      |  1 +
 lib/libloong/tailcall_dispatch.cpp            | 12 +++++++++++
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 12 +++++++++++
 lib/libloong/threaded_bytecode_array.hpp      |  1 +
 lib/libloong/threaded_bytecodes.hpp           |  2 ++
 lib/libloong/threaded_dispatch.cpp            | 16 ++++++++++++++
 lib/libloong/threaded_inaccurate_dispatch.cpp | 16 ++++++++++++++
 9 files changed, 77 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 0e487f2..423cf6d 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -31,9 +31,9 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			return true;
 		}
 
-		// System calls (exact match required)
-		if (instr == Opcode::SYSCALL) return true;
-		if (instr == Opcode::BREAK) return true;
+		// System calls and breakpoints, with any code
+		if ((instr & ~0x7FFFu) == Opcode::SYSCALL) return true;
+		if ((instr & ~0x7FFFu) == Opcode::BREAK) return true;
 
 		return false;
 	}
@@ -49,7 +49,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		case InstrId::SYSCALL:
 			return LA64_BC_SYSCALL;
 		case InstrId::BREAK:
-			return LA64_BC_FUNCTION;
+			return LA64_BC_FUNCBLOCK;
 		case InstrId::NOP:
 			return LA64_BC_NOP;
 
@@ -207,6 +207,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		// This computes how many bytes until the next diverging instruction
 		const uint32_t* instr_ptr = reinterpret_cast<const uint32_t*>(code);
 		uint32_t accumulated_bytes = 0;
+		constexpr uint32_t MAX_BLOCK_BYTES = UINT16_MAX & ~3u;
 		std::unordered_map<typename DecoderData::handler_t, uint16_t> handler_map;
 		for (size_t i = num_instructions; i-- > 0; ) {
 			const uint32_t instr = instr_ptr[i];
@@ -234,7 +235,17 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			const address_t pc = exec_begin + (i * sizeof(la_instruction));
 			cache[i].instr = segment->optimize_bytecode(cache[i].bytecode, pc, instr);
 
-			if (is_diverging_instruction(instr)) {
+			if (accumulated_bytes >= MAX_BLOCK_BYTES && cache[i].bytecode != LA64_BC_INVALID && cache[i].bytecode != LA64_BC_STOP) {
+				// Very long straight-line code: end the block at this
+				// instruction, or block_bytes would overflow
+				cache[i].bytecode = LA64_BC_FUNCBLOCK;
+				cache[i].instr = instr;
+			}
+
+			if (is_diverging_instruction(instr)
+				|| cache[i].bytecode == LA64_BC_FUNCBLOCK
+				|| cache[i].bytecode == LA64_BC_INVALID
+				|| cache[i].bytecode == LA64_BC_STOP) {
 				// Diverging instruction: block_bytes = 0
 				cache[i].block_bytes = 0;
 				accumulated_bytes = 0;
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index 9fab1cc..f370e07 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -16,7 +16,7 @@ namespace loongarch
 
 		// Calculate number of instructions in this block (LoongArch = 4 bytes per instruction)
 		// This includes the current (diverging) instruction: block instructions + 1
-		uint8_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
+		uint32_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
 
 		// Bytecode accessors for threaded dispatch
 		uint8_t get_bytecode() const noexcept { return bytecode; }
diff --git a/lib/libloong/tailcall_bytecode_array.hpp b/lib/libloong/tailcall_bytecode_array.hpp
index 0909d7d..5c3fc6b 100644
--- a/lib/libloong/tailcall_bytecode_array.hpp
+++ b/lib/libloong/tailcall_bytecode_array.hpp
@@ -113,6 +113,7 @@
 
 [LA64_BC_FUNCTION]  = execute_decoded_function,
 [LA64_BC_FUNCTION2] = execute_function_extended,
+[LA64_BC_FUNCBLOCK] = execute_function_block,
 [LA64_BC_SYSCALL]   = la64_syscall,
 [LA64_BC_SYSCALLIMM]= la64_syscall_imm,
 [LA64_BC_NOP]       = la64_nop,
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 3fde6c0..d32ee6c 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -148,6 +148,18 @@ namespace loongarch
 		NEXT_BLOCK(4);
 	}
 
+	INSTRUCTION(LA64_BC_FUNCBLOCK, execute_function_block)
+	{
+		VIEW_INSTR();
+		cpu.registers().pc = pc;
+		counter.apply(MACHINE());
+		CPU::decode(instr).handler(cpu, instr);
+		REG(REG_ZERO) = 0; // Writes to the zero register are discarded
+		counter.retrieve_counters(MACHINE());
+		pc = cpu.registers().pc + 4;
+		OVERFLOW_CHECKED_JUMP();
+	}
+
 	INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 	{
 		VIEW_INSTR();
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index fcb4aea..b34fc28 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -132,6 +132,18 @@ namespace loongarch
 		NEXT_BLOCK_UNCHECKED(4);
 	}
 
+	INSTRUCTION(LA64_BC_FUNCBLOCK, execute_function_block)
+	{
+		VIEW_INSTR();
+		cpu.registers().pc = pc;
+		CPU::decode(instr).handler(cpu, instr);
+		REG(REG_ZERO) = 0; // Writes to the zero register are discarded
+		pc = cpu.registers().pc + 4;
+		if (LA_UNLIKELY(MACHINE().max_instructions() == 0))
+			return RETURN_VALUES();
+		UNCHECKED_JUMP();
+	}
+
 	INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 	{
 		VIEW_INSTR();
diff --git a/lib/libloong/threaded_bytecode_array.hpp b/lib/libloong/threaded_bytecode_array.hpp
index 0340a6e..f26ac51 100644
--- a/lib/libloong/threaded_bytecode_array.hpp
+++ b/lib/libloong/threaded_bytecode_array.hpp
@@ -114,6 +114,7 @@ static constexpr void *computed_opcode[] = {
 
 	[LA64_BC_FUNCTION]  = &&execute_decoded_function,
 	[LA64_BC_FUNCTION2] = &&execute_function_extended,
+	[LA64_BC_FUNCBLOCK] = &&execute_function_block,
 	[LA64_BC_SYSCALL]   = &&la64_syscall,
 	[LA64_BC_SYSCALLIMM]= &&la64_syscall_imm,
 	[LA64_BC_NOP]       = &&la64_nop,
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index a634360..8253919 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -123,6 +123,7 @@ namespace loongarch
 		// Generic handlers
 		LA64_BC_FUNCTION,          // Non-PC-modifying instruction (simple handler call)
 		LA64_BC_FUNCTION2,         // Extended generic handler (for > 255 handlers)
+		LA64_BC_FUNCBLOCK,         // Generic handler that ends the current block
 		LA64_BC_SYSCALL,           // System call (needs special handling)
 		LA64_BC_SYSCALLIMM,        // System call with immediate number (most likely patched in)
 		LA64_BC_NOP,               // No operation (DBAR, etc)
@@ -245,6 +246,7 @@ namespace loongarch
 		case LA64_BC_BGEU: return "BGEU";
 		case LA64_BC_FUNCTION: return "FUNCTION";
 		case LA64_BC_FUNCTION2: return "FUNCTION";
+		case LA64_BC_FUNCBLOCK: return "FUNCTION+BLOCK";
 		case LA64_BC_SYSCALL: return "SYSCALL";
 		case LA64_BC_SYSCALLIMM: return "SYSCALL+IMM";
 		case LA64_BC_NOP: return "NOP";
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 2dd4dd8..032ae5b 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -92,6 +92,22 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 	NEXT_BLOCK_UNCHECKED(4);
 }
 
+INSTRUCTION(LA64_BC_FUNCBLOCK, execute_function_block)
+{
+	// Any instruction ending a block, eg. BREAK (whose handler may stop the
+	// machine or change PC), or an instruction in the middle of very long
+	// straight-line code.
+	VIEW_INSTR();
+	REGISTERS().pc = pc;
+	MACHINE().set_max_instructions(max_counter);
+	CPU::decode(instr).handler(CPU(), instr);
+	REG(REG_ZERO) = 0; // Writes to the zero register are discarded
+	max_counter = MACHINE().max_instructions();
+
+	pc = REGISTERS().pc + 4;
+	goto check_jump;
+}
+
 INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 {
 	REGISTERS().pc = pc;
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index d80e550..17cd64a 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -89,6 +89,22 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 	NEXT_BLOCK_UNCHECKED(4);
 }
 
+INSTRUCTION(LA64_BC_FUNCBLOCK, execute_function_block)
+{
+	// Any instruction ending a block, eg. BREAK (whose handler may stop the
+	// machine or change PC), or an instruction in the middle of very long
+	// straight-line code.
+	VIEW_INSTR();
+	REGISTERS().pc = pc;
+	MACHINE().set_max_instructions(max_counter);
+	CPU::decode(instr).handler(CPU(), instr);
+	REG(REG_ZERO) = 0; // Writes to the zero register are discarded
+	max_counter = MACHINE().max_instructions();
+
+	pc = REGISTERS().pc + 4;
+	goto check_jump;
+}
+
 INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 {
 	REGISTERS().pc = pc;
-- 
2.43.0


From 5c15081bcf5da454a383d4acda880f9547f669da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 022/116] fix: report when the instruction limit ended
 execution, so that timed calls time out

---
 lib/libloong/debug.cpp             | 2 +-
 lib/libloong/machine.hpp           | 2 +-
 lib/libloong/threaded_dispatch.cpp | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index 4d708d4..cf38004 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -9,7 +9,7 @@ namespace loongarch
 	void DebugMachine::simulate(uint64_t max_instructions)
 	{
 		this->machine.set_max_instructions(max_instructions);
-		while (!this->machine.stopped()) {
+		while (!this->machine.stopped() && !this->machine.instruction_limit_reached()) {
 			if (this->verbose_instructions)
 				print_instruction();
 			this->machine.cpu.step_one();
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 5ad2615..474f91e 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -55,7 +55,7 @@ namespace loongarch
 		bool simulate(uint64_t max_instructions = UINT64_MAX, uint64_t counter = 0);
 
 		void stop() noexcept { m_max_instructions = 0; }
-		bool stopped() const noexcept { return m_counter >= m_max_instructions; }
+		bool stopped() const noexcept { return m_max_instructions == 0; }
 		bool instruction_limit_reached() const noexcept { return m_counter >= m_max_instructions && m_max_instructions != 0; }
 
 		// Instruction counting
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 032ae5b..407a15b 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -37,7 +37,7 @@ namespace loongarch
 	bool CPU::simulate(address_t pc, uint64_t inscounter, uint64_t maxcounter)
 	{
 		constexpr bool TRACE_DISPATCH = false;  // Disable for normal execution
-		machine().set_max_instructions(UINT64_MAX);
+		machine().set_max_instructions(maxcounter);
 
 		// Include computed goto table
 		#include "threaded_bytecode_array.hpp"
@@ -151,6 +151,8 @@ INSTRUCTION(LA64_BC_STOP, la64_stop)
 {
 	REGISTERS().pc = RECONSTRUCT_PC() + 4;
 	machine().set_instruction_counter(counter);
+	// Completed, so the instruction limit was not what ended it
+	machine().set_max_instructions(UINT64_MAX);
 	return true;
 }
 
-- 
2.43.0


From 9b16dd8b03c73ea824cbb295444a4458fc4f442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 023/116] fix: bulk guest memory accesses check their whole
 range

---
 lib/libloong/memory.cpp        |  6 +++---
 lib/libloong/memory.hpp        | 12 +++++++++---
 lib/libloong/memory_inline.hpp |  6 +++---
 lib/libloong/memory_rw.cpp     |  8 ++++----
 4 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index dd289d8..00f38b8 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -262,9 +262,9 @@ void Memory::process_rela_section(size_t offset, size_t size, const MachineOptio
 
 size_t Memory::strlen(address_t addr, size_t maxlen) const
 {
-	const address_t end_addr = std::min(addr + maxlen, m_arena_size);
-	if (end_addr <= addr) return 0;
-	const address_t size = end_addr - addr;
+	if (addr >= m_arena_size) return 0;
+	const address_t size = std::min<address_t>(maxlen, m_arena_size - addr);
+	if (size == 0) return 0;
 	const char* ptr = memarray<char>(addr, size);
 	return ::strnlen(ptr, size);
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 8216215..ff53d98 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -145,10 +145,16 @@ namespace loongarch
 		void use_custom_arena(void* ptr, size_t size);
 		void free_arena();
 		static void free_arena_internal(uint8_t* arena, size_t size);
-		inline bool is_readable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
-			return addr - m_rodata_start < m_arena_end_sub_rodata;
+		inline bool is_readable(address_t addr, size_t size) const noexcept {
+			return addr - m_rodata_start < m_arena_end_sub_rodata
+				&& size <= m_arena_size - addr;
 		}
-		inline bool is_writable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
+		inline bool is_writable(address_t addr, size_t size) const noexcept {
+			return addr - m_data_start < m_arena_end_sub_data
+				&& size <= m_arena_size - addr;
+		}
+		// Accesses no larger than the over-allocation only need their start checked
+		inline bool is_writable_start(address_t addr) const noexcept {
 			return addr - m_data_start < m_arena_end_sub_data;
 		}
 		[[noreturn]] LA_COLD_PATH() static void protection_fault(address_t addr, const char* message);
diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index be398ef..e063f58 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -36,7 +36,7 @@ inline void Memory::write(address_t addr, T value)
 			addr &= LA_MASKED_MEMORY_MASK;
 		}
 	} else {
-		if (LA_UNLIKELY(!is_writable(addr, sizeof(T)))) {
+		if (LA_UNLIKELY(!is_writable_start(addr))) {
 			protection_fault(addr, "Write to read-only memory");
 		}
 	}
@@ -48,7 +48,7 @@ inline void Memory::write(address_t addr, T value)
 template <typename T>
 inline const T* Memory::memarray(address_t addr, size_t count) const
 {
-	if (LA_UNLIKELY(!is_readable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > SIZE_MAX / sizeof(T) || !is_readable(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr);
 	}
 
@@ -58,7 +58,7 @@ inline const T* Memory::memarray(address_t addr, size_t count) const
 template <typename T>
 inline T* Memory::writable_memarray(address_t addr, size_t count)
 {
-	if (LA_UNLIKELY(!is_writable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > SIZE_MAX / sizeof(T) || !is_writable(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Write to read-only memory", addr);
 	}
 
diff --git a/lib/libloong/memory_rw.cpp b/lib/libloong/memory_rw.cpp
index aff9036..d2a0094 100644
--- a/lib/libloong/memory_rw.cpp
+++ b/lib/libloong/memory_rw.cpp
@@ -33,7 +33,7 @@ namespace loongarch
 			if (LA_UNLIKELY(src + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Read from out-of-bounds memory", src);
 			}
-		} else if (LA_UNLIKELY(src < m_rodata_start || src + len >= m_arena_size)) {
+		} else if (LA_UNLIKELY(!is_readable(src, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", src);
 		}
 
@@ -51,10 +51,10 @@ namespace loongarch
 
 	int Memory::memcmp(address_t addr1, address_t addr2, size_t len) const
 	{
-		if (LA_UNLIKELY(addr1 < m_rodata_start || addr1 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable(addr1, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr1);
 		}
-		if (LA_UNLIKELY(addr2 < m_rodata_start || addr2 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable(addr2, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr2);
 		}
 
@@ -68,7 +68,7 @@ namespace loongarch
 
 	void Memory::copy_into_arena_unsafe(address_t dest, const void* src, size_t len)
 	{
-		if (LA_UNLIKELY(dest + len >= m_arena_size)) {
+		if (LA_UNLIKELY(dest > m_arena_size || len > m_arena_size - dest)) {
 			throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 		}
 		std::memcpy(&m_arena[dest], src, len);
-- 
2.43.0


From 0b81ad8576f982b741648314e1c017455bf11f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 024/116] fix: a donated arena is not unmapped by the machine

---
 lib/libloong/memory.cpp | 7 +++++--
 lib/libloong/memory.hpp | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 00f38b8..54c1a0c 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -41,7 +41,7 @@ Memory::~Memory()
 	if (m_main_exec_segment && m_main_exec_segment->is_background_compiling()) {
 		// Delay freeing the arena until after compilation is done
 		// as the binary translator may be reading from it.
-		auto* arena_ptr = m_arena;
+		auto* arena_ptr = m_arena_is_custom ? nullptr : m_arena;
 		const auto arena_size = m_arena_size;
 		std::thread([seg = m_main_exec_segment, arena_ptr, arena_size]() {
 			seg->wait_for_compilation_complete();
@@ -110,6 +110,7 @@ void Memory::use_custom_arena(void* ptr, size_t size)
 	}
 	if (this->m_arena) free_arena();
 	this->m_arena = (uint8_t*)ptr;
+	this->m_arena_is_custom = true;
 	this->m_arena_size = size - LA_OVER_ALLOCATE_SIZE;
 	this->m_arena_end_sub_rodata = this->m_arena_size - this->m_rodata_start;
 	this->m_arena_end_sub_data = this->m_arena_size - this->m_data_start;
@@ -126,7 +127,9 @@ void Memory::free_arena_internal(uint8_t* arena, size_t size)
 }
 void Memory::free_arena()
 {
-	free_arena_internal(this->m_arena, this->m_arena_size);
+	if (!this->m_arena_is_custom)
+		free_arena_internal(this->m_arena, this->m_arena_size);
+	this->m_arena_is_custom = false;
 	this->m_arena = nullptr;
 	this->m_arena_size = 0;
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index ff53d98..e1a0500 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -101,6 +101,7 @@ namespace loongarch
 		// Single memory arena (mmap'd on POSIX, new[] otherwise)
 		uint8_t* m_arena = nullptr;
 		size_t m_arena_size = 0;
+		bool m_arena_is_custom = false; // Donated by the user, and not ours to free
 
 		// Memory region boundaries
 		address_t m_rodata_start = 0;  // Start of read-only data
-- 
2.43.0


From 8650dd2f1c5c815320d826e9c676d04653a6d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 025/116] fix: ELF loader bounds checks, several executable
 segments, and leak on rejected binaries

---
 lib/libloong/elf_loader.cpp | 14 ++++++++++----
 lib/libloong/memory.cpp     | 21 +++++++++++++++------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 5fa7e69..c334b53 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -31,7 +31,8 @@ static TextSegmentBounds find_text_section(std::string_view binary, const Elf::H
 	const auto* shstrtab = reinterpret_cast<const Elf::SectionHeader*>(
 		binary.data() + ehdr->shoff + ehdr->shstrndx * sizeof(Elf::SectionHeader));
 
-	if (shstrtab->offset + shstrtab->size >= binary.size()) {
+	if (shstrtab->offset > binary.size() ||
+		shstrtab->size > binary.size() - shstrtab->offset) {
 		return bounds;
 	}
 
@@ -164,7 +165,8 @@ void Memory::binary_loader(const MachineOptions& options)
 	const address_t stack_base = this->mmap_allocate(options.stack_size);
 	this->m_stack_address = stack_base + options.stack_size;
 
-	if (this->m_heap_address >= options.memory_max) {
+	if (this->m_heap_address >= options.memory_max ||
+		this->m_mmap_address > options.memory_max || this->m_mmap_address < this->m_heap_address) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Error: Not enough memory for stack and brk:\n");
 			fprintf(stderr, "  heap_begin: 0x%lx\n", (unsigned long)this->m_heap_address);
@@ -181,6 +183,10 @@ void Memory::binary_loader(const MachineOptions& options)
 	} else {
 		this->allocate_arena(options.memory_max);
 	}
+	if (this->m_mmap_address > this->m_arena_size) {
+		throw MachineException(OUT_OF_MEMORY,
+			"Not enough memory for stack and brk", this->m_arena_size);
+	}
 
 	if (options.verbose_loader) {
 		const size_t arena_size = options.memory_max - this->m_heap_address;
@@ -235,7 +241,7 @@ void Memory::binary_loader(const MachineOptions& options)
 					const address_t seg_end = phdr->vaddr + phdr->filesz;
 					const address_t text_end = text_bounds.start + text_bounds.size;
 
-					if (text_bounds.start >= seg_start && text_end <= seg_end) {
+					if (text_bounds.start >= seg_start && text_end >= text_bounds.start && text_end <= seg_end) {
 						exec_vaddr = text_bounds.start;
 						exec_size  = text_bounds.size & ~size_t(3); // Align to instruction boundary
 						file_offset = phdr->offset + (text_bounds.start - seg_start);
@@ -249,7 +255,7 @@ void Memory::binary_loader(const MachineOptions& options)
 
 				create_execute_segment(options,
 					(const void*)(m_binary.data() + file_offset),
-					exec_vaddr, exec_size, true, false);
+					exec_vaddr, exec_size, m_main_exec_segment == nullptr, false);
 			}
 		}
 	}
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 54c1a0c..18cfd81 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -21,7 +21,13 @@ Memory::Memory(Machine& machine,
 	  m_main_exec_segment(nullptr)
 {
 	if (!binary.empty()) {
-		binary_loader(options);
+		try {
+			binary_loader(options);
+		} catch (...) {
+			// The destructor will not be called
+			free_arena();
+			throw;
+		}
 	}
 }
 
@@ -196,8 +202,8 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
                                     const MachineOptions& options)
 {
 	// Validate section offsets and sizes
-	if (symtab->offset + symtab->size > m_binary.size() ||
-	    strtab->offset + strtab->size > m_binary.size()) {
+	if (symtab->offset > m_binary.size() || symtab->size > m_binary.size() - symtab->offset ||
+	    strtab->offset > m_binary.size() || strtab->size > m_binary.size() - strtab->offset) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Warning: Invalid symbol or string table section\n");
 		}
@@ -216,8 +222,11 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
 		if ((type == Elf::STT_FUNC || type == Elf::STT_OBJECT) && sym.value != 0) {
 			if (sym.name + 1 < strtab->size && sym.name + 1 > sym.name) {
 				const char* name = string_table + sym.name;
-				if (name[0] != '\0') {
-					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), name});
+				const size_t maxlen = strtab->size - sym.name;
+				const size_t len = ::strnlen(name, maxlen);
+				// Names must be zero-terminated inside the string table
+				if (len > 0 && len < maxlen) {
+					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), std::string(name, len)});
 
 					if (false && options.verbose_loader) {
 						fprintf(stderr, "Symbol: 0x%lx %s (size=%lu)\n",
@@ -420,7 +429,7 @@ const Symbol* Memory::lookup_symbol(address_t addr) const
 	const Symbol* best_match = nullptr;
 	for (const auto& sym : m_symbols) {
 		// Check if address is within symbol range
-		if (addr >= sym.address && addr < sym.address + sym.size) {
+		if (addr >= sym.address && addr - sym.address < sym.size) {
 			return &sym;
 		}
 		// Also track the closest symbol before this address (for functions with unknown size)
-- 
2.43.0


From d9b16420cb2fa646d237bc93451e8769edb6c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 026/116] fix: BCEQZ/BCNEZ single-stepped with a 16-bit offset

---
 lib/libloong/la_instr_impl.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index b2c0b78..d002035 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3109,11 +3109,7 @@ struct InstrImpl {
 		// BCNEZ: Branch if condition flag is not equal to zero
 		// Format: 0x48xxxxxx
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		// Sign extend
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		const int64_t offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) != 0) {
 			cpu.increment_pc(offset-4);
@@ -3123,10 +3119,7 @@ struct InstrImpl {
 	static void BCEQZ(cpu_t& cpu, la_instruction instr) {
 		// BCEQZ: Branch if condition flag equals zero
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		const int64_t offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) == 0) {
 			cpu.increment_pc(offset-4);
-- 
2.43.0


From 45f41cd38011ae5647c60d8f38673d63f022a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 027/116] fix: system call handlers installed before the first
 machine are kept

---
 lib/libloong/machine.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 477e3d5..3ae41e1 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -17,11 +17,16 @@ namespace loongarch
 		// Initialize all system call handlers to a throwing stub on first creation (thread-safe)
 		static std::once_flag init_flag;
 		std::call_once(init_flag, []() {
-			m_unknown_syscall_handler = [](Machine& m, int sysnum) {
-				throw MachineException(UNIMPLEMENTED_SYSCALL,
-					"Unimplemented system call", sysnum);
-			};
+			// Handlers may have been installed already, before any machine was created
+			if (m_unknown_syscall_handler == nullptr) {
+				m_unknown_syscall_handler = [](Machine& m, int sysnum) {
+					throw MachineException(UNIMPLEMENTED_SYSCALL,
+						"Unimplemented system call", sysnum);
+				};
+			}
 			for (auto& handler : m_syscall_handlers) {
+				if (handler != nullptr)
+					continue;
 				handler = [](Machine& m) {
 					const int sysnum = static_cast<int>(m.cpu.reg(REG_A7));
 					m_unknown_syscall_handler(m, sysnum);
-- 
2.43.0


From 7772469ef84f82c558ee78a0b4b02e19abaf0e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 028/116] fix: the ignore_text_section option had no effect

---
 lib/libloong/elf_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index c334b53..21dea48 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -235,7 +235,7 @@ void Memory::binary_loader(const MachineOptions& options)
 				size_t file_offset = phdr->offset;
 
 				// Use .text section bounds if available to avoid translating data
-				if (text_bounds.found) {
+				if (text_bounds.found && !options.ignore_text_section) {
 					// Check if .text section is within this segment
 					const address_t seg_start = phdr->vaddr;
 					const address_t seg_end = phdr->vaddr + phdr->filesz;
-- 
2.43.0


From d01c9ce29f339db2cc41ef79be69632d1528f813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 029/116] fix: AT_PHDR when the first segment does not start at
 file offset zero

---
 lib/libloong/elf_loader.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 21dea48..d16893a 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -150,9 +150,18 @@ void Memory::binary_loader(const MachineOptions& options)
 	this->m_rodata_start = min_addr;
 	this->m_data_start = (first_writable != ~address_t(0)) ? first_writable : max_addr;
 
-	// Set phdr address - it's at base + phoff
-	// For statically linked binaries, phdr is at the file offset from the base
+	// Set phdr address - it's inside the segment that loads the program headers
+	// For statically linked binaries, phdr is usually at the file offset from the base
 	this->m_elf_phdr_addr = min_addr + ehdr->phoff;
+	for (size_t i = 0; i < ehdr->phnum; i++) {
+		const Elf::ProgramHeader* phdr = reinterpret_cast<const Elf::ProgramHeader*>(
+			this->m_binary.data() + ehdr->phoff + i * sizeof(Elf::ProgramHeader));
+		if (phdr->type == Elf::PT_LOAD && ehdr->phoff >= phdr->offset
+			&& ehdr->phoff - phdr->offset < phdr->filesz) {
+			this->m_elf_phdr_addr = phdr->vaddr + (ehdr->phoff - phdr->offset);
+			break;
+		}
+	}
 
 	// Initialize heap at end of loaded data
 	this->m_heap_address = max_addr;
-- 
2.43.0


From f79684a5ed2417ed93a6c65b273a2d95d2417dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 030/116] fix: zero-initialized data is zero in a donated arena
 that was used before

---
 lib/libloong/elf_loader.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index d16893a..36920ea 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -217,6 +217,17 @@ void Memory::binary_loader(const MachineOptions& options)
 	// Find .text section bounds to limit execute segment creation
 	const TextSegmentBounds text_bounds = find_text_section(m_binary, ehdr);
 
+	// A donated arena may have been used before
+	if (this->m_arena_is_custom) {
+		for (size_t i = 0; i < ehdr->phnum; i++) {
+			const auto* phdr = reinterpret_cast<const Elf::ProgramHeader*>(
+				m_binary.data() + ehdr->phoff + i * sizeof(Elf::ProgramHeader));
+			if (phdr->type == Elf::PT_LOAD) {
+				std::memset(m_arena + phdr->vaddr, 0, phdr->memsz);
+			}
+		}
+	}
+
 	// Load segments into memory
 	for (size_t i = 0; i < ehdr->phnum; i++) {
 		const auto* phdr = reinterpret_cast<const Elf::ProgramHeader*>(
-- 
2.43.0


From c1f1768120423f494c2ff817fccd37f95347abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 031/116] fix: backtrace reads past its buffer when a symbol
 name is long

---
 lib/libloong/machine_backtrace.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/machine_backtrace.cpp b/lib/libloong/machine_backtrace.cpp
index 2225c12..7204e23 100644
--- a/lib/libloong/machine_backtrace.cpp
+++ b/lib/libloong/machine_backtrace.cpp
@@ -1,5 +1,6 @@
 #include "machine.hpp"
 
+#include <algorithm>
 #include <cstdio>
 #ifdef __linux__
 #include <cxxabi.h>
@@ -53,7 +54,7 @@ std::string Machine::backtrace(address_t initial) const
 
 	std::string result;
 	if (n > 0) {
-		result.append(buffer, static_cast<size_t>(n));
+		result.append(buffer, std::min(static_cast<size_t>(n), sizeof(buffer) - 1));
 	} else {
 		return result;
 	}
@@ -71,7 +72,7 @@ std::string Machine::backtrace(address_t initial) const
 			(unsigned long)ra,
 			lookup_demangled_symbol(ra).c_str());
 		if (n > 0) {
-			result.append(buffer, static_cast<size_t>(n));
+			result.append(buffer, std::min(static_cast<size_t>(n), sizeof(buffer) - 1));
 		} else {
 			break;
 		}
-- 
2.43.0


From d3cb8e6814f0ac71cc68030403ea72a2732cd612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 032/116] fix: initial stack pointer alignment in setup_linux

---
 lib/libloong/machine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 3ae41e1..7ad48f7 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -123,6 +123,12 @@ namespace loongarch
 		auxv.push_back({AT_PHDR, memory.elf_phdr_addr()});
 		auxv.push_back({AT_NULL, 0});
 
+		// The initial stack pointer is 16-byte aligned, once argc, the argv
+		// and envp pointers and their terminators are pushed
+		if ((3 + arg_ptrs.size() + env_ptrs.size()) % 2 != 0) {
+			sp -= sizeof(address_t);
+		}
+
 		// Push auxiliary vector (already in reverse order)
 		sp -= auxv.size() * 2 * sizeof(address_t);
 		memory.copy_to_guest(sp, auxv.data(), auxv.size() * 2 * sizeof(address_t));
-- 
2.43.0


From 4be2df24413152eb0af2cb19fef2d8bce260abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 033/116] fix: set_result of enums and small structs had no
 effect

---
 lib/libloong/machine_inline.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index a09c5d3..b620f2c 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <cstring>
+#include <type_traits>
 
 namespace loongarch
 {
@@ -54,8 +56,17 @@ namespace loongarch
 			} else {
 				static_assert(sizeof(T) == 4 || sizeof(T) == 8, "Unsupported floating point size");
 			}
+		} else if constexpr (std::is_enum_v<remove_cvref_t<T>>) {
+			set_result(static_cast<std::underlying_type_t<remove_cvref_t<T>>>(value));
 		} else {
 			static_assert(sizeof(T) <= 2 * sizeof(address_t), "Result type too large");
+			static_assert(std::is_trivially_copyable_v<T>, "Result type must be trivially copyable");
+			// Small structs are returned in A0 and A1
+			address_t regs[2] = {};
+			std::memcpy(regs, &value, sizeof(T));
+			cpu.reg(REG_A0) = regs[0];
+			if constexpr (sizeof(T) > sizeof(address_t))
+				cpu.reg(REG_A1) = regs[1];
 		}
 	}
 
-- 
2.43.0


From daa70676a5532d2a3e13e0424270b6adc000040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 034/116] fix: vmcall arguments beyond eight and 32-bit
 unsigned arguments follow the calling convention

---
 lib/libloong/machine_vmcall.hpp | 61 ++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 68185a1..392ab2c 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -28,21 +28,40 @@ namespace loongarch
 		return stack_push(sp, &value, sizeof(T));
 	}
 
+	// Integers are extended to the register size: 32-bit and larger types
+	// sign-extended, as the calling convention demands, the rest by signedness
+	template <typename T> constexpr
+	inline address_t integer_argument(T value)
+	{
+		if constexpr (sizeof(T) == 4)
+			return static_cast<address_t>(static_cast<int64_t>(static_cast<int32_t>(value)));
+		else
+			return static_cast<address_t>(value);
+	}
+
 	// Setup call arguments according to LoongArch calling convention
 	template <typename... Args> constexpr
-	inline void setup_call(Machine& machine, address_t exit_addr, Args&&... args)
-	{		auto& cpu = machine.cpu;
+	inline void setup_call(Machine& machine, address_t exit_addr, address_t sp, Args&&... args)
+	{
+		auto& cpu = machine.cpu;
 
 		// Set return address to exit function
 		cpu.reg(REG_RA) = exit_addr;
 
-		// Reset stack pointer to initial position
-		address_t sp = machine.memory.stack_address();
-
 		// Initialize argument registers
 		int iarg = REG_A0; // Integer argument registers: A0-A7
 		int farg = 0;      // Floating-point argument registers: FA0-FA7
 
+		// Arguments that don't fit in registers are passed on the stack
+		address_t stack_args[sizeof...(Args) + 1] = {};
+		size_t stack_argc = 0;
+		auto push_int = [&] (address_t value) {
+			if (iarg <= REG_A7)
+				cpu.reg(iarg++) = value;
+			else
+				stack_args[stack_argc++] = value;
+		};
+
 		// Process each argument
 		// Note: We avoid complex operations in the fold expression to keep it constexpr-friendly
 		([&] {
@@ -50,28 +69,33 @@ namespace loongarch
 
 			if constexpr (std::is_same_v<T, std::string>) {
 				// std::string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args.c_str(), args.length() + 1);
+				push_int(machine.stack_push(sp, args.c_str(), args.length() + 1));
 			}
 			else if constexpr (std::is_same_v<T, const char*> || std::is_same_v<T, char*>) {
 				// C-string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args, std::strlen(args) + 1);
+				push_int(machine.stack_push(sp, args, std::strlen(args) + 1));
 			}
 			else if constexpr (std::is_same_v<T, GuestStdString>) {
 				// GuestStdString: Adjust SSO pointer and push onto stack
 				args.move(sp - sizeof(T)); // SSO-adjustment
-				cpu.reg(iarg++) = machine.stack_push(sp, &args, sizeof(T));
+				push_int(machine.stack_push(sp, &args, sizeof(T)));
 			}
 			else if constexpr (is_scoped_guest_object<T>::value) {
 				// ScopedArenaObject: Pass the guest address directly
-				cpu.reg(iarg++) = args.address();
+				push_int(args.address());
 			}
 			else if constexpr (std::is_integral_v<T>) {
 				// Integer types go to integer registers (A0-A7)
-				cpu.reg(iarg++) = static_cast<address_t>(args);
+				push_int(integer_argument(args));
 			}
 			else if constexpr (std::is_floating_point_v<T>) {
-				// Floating-point types go to FP registers (FA0-FA7)
-				if constexpr (sizeof(T) == 4) {
+				// Floating-point types go to FP registers (FA0-FA7),
+				// and after that where integers go
+				if (farg >= 8) {
+					address_t bits = 0;
+					std::memcpy(&bits, &args, sizeof(T) <= sizeof(bits) ? sizeof(T) : sizeof(bits));
+					push_int(bits);
+				} else if constexpr (sizeof(T) == 4) {
 					cpu.registers().getfl32(farg++) = static_cast<float>(args);
 				} else if constexpr (sizeof(T) == 8) {
 					cpu.registers().getfl64(farg++) = static_cast<double>(args);
@@ -80,12 +104,12 @@ namespace loongarch
 			else if constexpr (std::is_enum_v<T>) {
 				// Enums are treated as their underlying integer type
 				using UnderlyingType = std::underlying_type_t<T>;
-				cpu.reg(iarg++) = static_cast<address_t>(static_cast<UnderlyingType>(args));
+				push_int(integer_argument(static_cast<UnderlyingType>(args)));
 			}
 			else if constexpr (std::is_standard_layout_v<T> && std::is_trivially_copyable_v<T>) {
 				// Standard layout structs: Push onto stack, pass pointer as integer
 				const address_t struct_addr = machine.stack_push(sp, args);
-				cpu.reg(iarg++) = struct_addr;
+				push_int(struct_addr);
 			}
 			else {
 				static_assert(sizeof(T) == 0, "Unsupported argument type for vmcall. Use integers, floats, enums, strings, or standard-layout structs.");
@@ -94,6 +118,9 @@ namespace loongarch
 
 		// Align stack pointer to 16-byte boundary
 		sp &= ~address_t(0xF);
+		if (stack_argc > 0) {
+			machine.stack_push(sp, stack_args, stack_argc * sizeof(address_t));
+		}
 		cpu.reg(REG_SP) = sp;
 	}
 
@@ -105,7 +132,7 @@ namespace loongarch
 		const address_t exit_addr = memory.exit_address();
 
 		// Setup the call with arguments
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
+		setup_call(*this, exit_addr, memory.stack_address(), std::forward<Args>(args)...);
 
 		// Set PC to the function address
 		cpu.registers().pc = func_addr;
@@ -161,7 +188,7 @@ namespace loongarch
 		const address_t exit_addr = memory.exit_address();
 
 		// Setup the call with arguments
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
+		setup_call(*this, exit_addr, memory.stack_address(), std::forward<Args>(args)...);
 
 		// Set PC to the function address
 		cpu.registers().pc = func_addr;
@@ -191,7 +218,7 @@ namespace loongarch
 		cpu.reg(REG_SP) -= 16;
 
 		// Setup the call
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
+		setup_call(*this, exit_addr, memory.stack_address(), std::forward<Args>(args)...);
 		cpu.registers().pc = func_addr;
 
 		// Execute with instruction limit
-- 
2.43.0


From de6e7f2acae34cd00500e046b160992aca539be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 035/116] fix: preempt overwrote the stack and the instruction
 limit of the execution it interrupts

---
 lib/libloong/machine_vmcall.hpp | 37 +++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 392ab2c..6f33341 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -208,21 +208,34 @@ namespace loongarch
 		// Use the exit address set via memory.set_exit_address()
 		const address_t exit_addr = memory.exit_address();
 
-		// Optionally save CPU registers
+		// Optionally save CPU registers, and the counters of the preempted execution
 		Registers saved_regs;
+		const uint64_t saved_counter = this->m_counter;
+		const uint64_t saved_max = this->m_max_instructions;
 		if constexpr (StoreRegs) {
 			saved_regs = cpu.registers();
 		}
 
-		// Allocate 16 bytes on stack for execution context
-		cpu.reg(REG_SP) -= 16;
-
-		// Setup the call
-		setup_call(*this, exit_addr, memory.stack_address(), std::forward<Args>(args)...);
-		cpu.registers().pc = func_addr;
-
-		// Execute with instruction limit
-		this->simulate(max_instr, 0);
+		bool timed_out = false;
+		try {
+			// When an execution is going to continue afterwards, the call is
+			// made below its stack frames
+			const address_t sp = StoreRegs ?
+				(cpu.reg(REG_SP) - 16) & ~address_t(0xF) : memory.stack_address();
+			setup_call(*this, exit_addr, sp, std::forward<Args>(args)...);
+			cpu.registers().pc = func_addr;
+
+			// Execute with instruction limit
+			this->simulate(max_instr, 0);
+			timed_out = this->instruction_limit_reached();
+		} catch (...) {
+			if constexpr (StoreRegs) {
+				cpu.registers() = saved_regs;
+				this->m_counter = saved_counter;
+				this->m_max_instructions = saved_max;
+			}
+			throw;
+		}
 
 		// Restore registers if needed
 		if constexpr (StoreRegs) {
@@ -230,10 +243,12 @@ namespace loongarch
 			const address_t retval = cpu.reg(REG_A0);
 			cpu.registers() = saved_regs;
 			cpu.reg(REG_A0) = retval;
+			this->m_counter = saved_counter;
+			this->m_max_instructions = saved_max;
 		}
 
 		if constexpr (Throw) {
-			if (this->instruction_limit_reached()) {
+			if (timed_out) {
 				throw MachineException(MACHINE_TIMEOUT,
 					"preempt: Instruction limit reached", func_addr);
 			}
-- 
2.43.0


From 7d2525b0ed770908dd439aaec034c7d061ef4b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 036/116] fix: system calls with an immediate number when
 single-stepping

---
 lib/libloong/la_instr_impl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index d002035..362d481 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -648,7 +648,14 @@ struct InstrImpl {
 	// === System Instructions ===
 
 	static void SYSCALL(cpu_t& cpu, la_instruction instr) {
-		(void)instr;
+		// A non-zero code is a system call number, and such a system call
+		// returns to the caller. See LA64_BC_SYSCALLIMM.
+		const unsigned code = instr.whole & 0x3FF;
+		if (code != 0) {
+			cpu.machine().system_call(code);
+			cpu.registers().pc = cpu.reg(REG_RA) - 4;
+			return;
+		}
 		const int syscall_nr = static_cast<uint32_t>(cpu.reg(REG_A7));
 		cpu.machine().system_call(syscall_nr);
 	}
-- 
2.43.0


From 1e60712b8a7cd1e46e54435a720bf671d60aff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 037/116] fix: fail huge allocations instead of wrapping their
 size to zero

---
 lib/libloong/native/heap.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index ba250b5..240ea31 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -98,6 +98,9 @@ struct Arena
 	ArenaChunk* find_chunk(PointerType ptr);
 
 	static size_t word_align(size_t size) {
+		// Sizes that cannot be rounded up are larger than any arena
+		if (LA_UNLIKELY(size > SIZE_MAX - (ALIGNMENT-1)))
+			return SIZE_MAX;
 		return (size + (ALIGNMENT-1)) & ~(ALIGNMENT-1);
 	}
 	static size_t fixup_size(size_t size) {
-- 
2.43.0


From 58c9df7a00a5b7f4277701f13a34f7869abae01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 038/116] fix: fail calloc when the total size overflows

---
 lib/libloong/machine_accelerate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index e98425c..043b6d0 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -211,7 +211,8 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 	{
 		const auto [count, size] =
 			machine.template sysargs<address_t, address_t> ();
-		const size_t len = count * size;
+		// The allocation fails when the total size overflows
+		const size_t len = (size != 0 && count > SIZE_MAX / size) ? SIZE_MAX : count * size;
 		auto data = machine.arena().malloc(len);
 		HPRINT("SYSCALL calloc(%zu, %zu) = 0x%lX\n",
 			(size_t)count, (size_t)size, (long)data);
-- 
2.43.0


From 6071621c75e7d38d607b13e94731bdadd1cb3383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 039/116] fix: do not sign-extend heap pointers above 2 GiB

---
 lib/libloong/machine_accelerate.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 043b6d0..a21a6e3 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -201,7 +201,7 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 	[] (Machine& machine)
 	{
 		const size_t len = machine.sysarg(0);
-		auto data = machine.arena().malloc(len);
+		const address_t data = machine.arena().malloc(len);
 		HPRINT("SYSCALL malloc(%zu) = 0x%lX\n", len, (long)data);
 		machine.set_result(data);
 	});
@@ -213,7 +213,7 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 			machine.template sysargs<address_t, address_t> ();
 		// The allocation fails when the total size overflows
 		const size_t len = (size != 0 && count > SIZE_MAX / size) ? SIZE_MAX : count * size;
-		auto data = machine.arena().malloc(len);
+		const address_t data = machine.arena().malloc(len);
 		HPRINT("SYSCALL calloc(%zu, %zu) = 0x%lX\n",
 			(size_t)count, (size_t)size, (long)data);
 		if (data != 0) {
@@ -228,7 +228,8 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 		const auto src = machine.sysarg(0);
 		const auto newlen = machine.sysarg(1);
 
-		const auto [data, srclen] = machine.arena().realloc(src, newlen);
+		const auto [ptr, srclen] = machine.arena().realloc(src, newlen);
+		const address_t data = ptr;
 		HPRINT("SYSCALL realloc(0x%lX:%zu, %zu) = 0x%lX\n",
 			(long)src, (size_t)srclen, (size_t)newlen, (long)data);
 		// When data != src, srclen is the old length, and the
-- 
2.43.0


From f89d1f9d6594e1c10d24bb562659f0f6b87dab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 040/116] fix: accept any pointer for zero-length accelerated
 memset, memmove and memcmp

---
 lib/libloong/machine_accelerate.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index a21a6e3..7cc7dd4 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -79,6 +79,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t dest = machine.cpu.reg(REG_A0);
 		const int value      = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result(dest);
+			return;
+		}
 		// Perform native memset
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		std::memset(dest_ptr, value, n);
@@ -91,6 +95,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t ptr1 = machine.cpu.reg(REG_A0);
 		const address_t ptr2 = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result<int>(0);
+			return;
+		}
 		// Perform native memcmp
 		const uint8_t* p1 = machine.memory.template memarray<uint8_t>(ptr1, n);
 		const uint8_t* p2 = machine.memory.template memarray<uint8_t>(ptr2, n);
@@ -104,6 +112,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t dest = machine.cpu.reg(REG_A0);
 		const address_t src  = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result(dest);
+			return;
+		}
 		// Perform native memmove
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
-- 
2.43.0


From f752bd63b3f800c833fa058869a9ac06a780c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 041/116] fix: make accelerated strlen, strcmp, strncmp and
 memchr end where the string or match ends

---
 lib/libloong/machine_accelerate.cpp | 81 ++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 26 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 7cc7dd4..39cb8e8 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -47,6 +47,47 @@ static inline void patch(Machine& machine, const std::vector<std::string> symbol
 	}
 }
 
+// View of up to n bytes of readable guest memory. The view is shorter
+// than n only when it reaches the end of guest memory.
+static inline std::string_view readable_view(const Machine& machine, address_t addr, size_t n)
+{
+	const address_t end = machine.memory.arena_size();
+	const size_t len = (addr < end) ? std::min<size_t>(n, end - addr) : n;
+	return machine.memory.memview(addr, len);
+}
+[[noreturn]] static inline void end_of_memory(address_t addr)
+{
+	throw MachineException(PROTECTION_FAULT, "Read past the end of guest memory", addr);
+}
+// Length of a zero-terminated string of at most maxlen characters
+static inline size_t string_length(const Machine& machine, address_t addr, size_t maxlen = SIZE_MAX)
+{
+	if (LA_UNLIKELY(maxlen == 0))
+		return 0;
+	const auto view = readable_view(machine, addr, maxlen);
+	const size_t len = ::strnlen(view.data(), view.size());
+	if (LA_UNLIKELY(len == view.size() && len < maxlen))
+		end_of_memory(addr + len);
+	return len;
+}
+// Compare two zero-terminated strings of at most maxlen characters
+static inline int string_compare(const Machine& machine, address_t addr1, address_t addr2, size_t maxlen = SIZE_MAX)
+{
+	if (LA_UNLIKELY(maxlen == 0))
+		return 0;
+	const auto s1 = readable_view(machine, addr1, maxlen);
+	const auto s2 = readable_view(machine, addr2, maxlen);
+	const size_t len = std::min(s1.size(), s2.size());
+	for (size_t i = 0; i < len; i++) {
+		const uint8_t c1 = s1[i], c2 = s2[i];
+		if (c1 != c2 || c1 == 0)
+			return int(c1) - int(c2);
+	}
+	if (LA_UNLIKELY(len < maxlen))
+		end_of_memory((s1.size() < s2.size() ? addr1 : addr2) + len);
+	return 0;
+}
+
 void Machine::setup_accelerated_syscalls()
 {
 	// Register accelerated syscalls here
@@ -129,14 +170,20 @@ void Machine::setup_accelerated_syscalls()
 		const address_t ptr = machine.cpu.reg(REG_A0);
 		const int value     = machine.cpu.reg(REG_A1);
 		const size_t n      = machine.cpu.reg(REG_A2);
-		// Perform native memchr
-		const uint8_t* p = machine.memory.template memarray<uint8_t>(ptr, n);
-		const void* result = std::memchr(p, value, n);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result<address_t>(0);
+			return;
+		}
+		// Perform native memchr, which stops at the first match
+		const auto view = readable_view(machine, ptr, n);
+		const void* result = std::memchr(view.data(), value, view.size());
 
 		if (result) {
-			const address_t offset = static_cast<const uint8_t*>(result) - p;
+			const address_t offset = static_cast<const char*>(result) - view.data();
 			machine.set_result(ptr + offset);
 		} else {
+			if (LA_UNLIKELY(view.size() < n))
+				end_of_memory(ptr + view.size());
 			machine.set_result<address_t>(0);
 		}
 	});
@@ -144,35 +191,21 @@ void Machine::setup_accelerated_syscalls()
 	install_syscall_handler(SYS_native_strlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
-		machine.set_result(machine.memory.strlen(str_addr));
+		machine.set_result(string_length(machine, str_addr));
 	});
 
 	install_syscall_handler(SYS_native_strnlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
 		const size_t maxlen      = machine.cpu.reg(REG_A1);
-		machine.set_result(machine.memory.strlen(str_addr, maxlen));
+		machine.set_result(string_length(machine, str_addr, maxlen));
 	});
 
 	install_syscall_handler(SYS_native_strcmp,
 	[] (Machine& machine) {
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
-		const size_t len1 = machine.memory.strlen(str1_addr);
-		const size_t len2 = machine.memory.strlen(str2_addr);
-		const size_t cmp_len = std::min(len1, len2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, cmp_len + 1);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, cmp_len + 1);
-		int result = std::memcmp(s1, s2, cmp_len);
-		if (result == 0) {
-			if (len1 < len2) {
-				result = -1;
-			} else if (len1 > len2) {
-				result = 1;
-			}
-		}
-
-		machine.set_result<int>(result);
+		machine.set_result<int>(string_compare(machine, str1_addr, str2_addr));
 	});
 
 	install_syscall_handler(SYS_native_strncmp,
@@ -180,11 +213,7 @@ void Machine::setup_accelerated_syscalls()
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
 		const size_t n            = machine.cpu.reg(REG_A2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, n);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, n);
-		const int result = std::memcmp(s1, s2, n);
-
-		machine.set_result<int>(result);
+		machine.set_result<int>(string_compare(machine, str1_addr, str2_addr, n));
 	});
 
 	// Iterate the symbol table and patch known functions
-- 
2.43.0


From a45e809a49151a22fa4b128f147065eb63620ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 042/116] fix: guest std::string contents and elements that
 live on the heap or change place

---
 lib/libloong/guest_datatypes.hpp | 61 +++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index d246e99..5c22580 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -65,9 +65,20 @@ struct GuestStdString {
 	bool empty() const noexcept { return len == 0; }
 	size_t size() const noexcept { return len; }
 
+	/// @brief Check if the characters are stored inside the string object.
+	/// Short strings can also be stored on the heap, eg. after reserve().
+	bool is_local(const Machine& machine) const noexcept {
+		const auto* self = reinterpret_cast<const uint8_t*>(this);
+		const auto* arena = machine.memory.arena_ptr();
+		if (self >= arena && self < arena + machine.memory.arena_size())
+			return this->ptr == address_t(self - arena) + offsetof(GuestStdString, data);
+		// Not in guest memory: The string is a copy
+		return this->size() <= SSO;
+	}
+
 	std::string to_string(const Machine& machine, std::size_t max_len = 16UL << 20) const
 	{
-		if (this->size() <= SSO)
+		if (this->size() <= SSO && this->is_local(machine))
 			return std::string(data, size());
 		else if (this->size() > max_len)
 			throw std::runtime_error("Guest std::string too large (size > 16MB)");
@@ -79,7 +90,7 @@ struct GuestStdString {
 
 	std::string_view to_view(const Machine& machine, std::size_t max_len = 16UL << 20) const
 	{
-		if (this->size() <= SSO)
+		if (this->size() <= SSO && this->is_local(machine))
 			return std::string_view(data, size());
 		else if (this->size() > max_len)
 			throw std::runtime_error("Guest std::string too large (size > 16MB)");
@@ -136,7 +147,7 @@ struct GuestStdString {
 
 	void free(Machine& machine)
 	{
-		if (size() > SSO) {
+		if (ptr != 0 && !this->is_local(machine)) {
 			machine.arena().free(ptr);
 		}
 		this->ptr = 0;
@@ -237,7 +248,7 @@ struct GuestStdVector {
 		auto [array, self] = this->alloc(machine, elements);
 		(void)self;
 		for (std::size_t i = 0; i < elements; i++) {
-			new (&array[i]) T();
+			this->construct_element(machine, array, i, T());
 		}
 		// Set new end only after all elements are constructed
 		this->ptr_end = this->ptr_begin + elements * sizeof(T);
@@ -317,7 +328,7 @@ struct GuestStdVector {
 		if (size_bytes() >= capacity_bytes())
 			this->increase_capacity(machine);
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
-		new (&array[size()]) T(std::move(value));
+		this->construct_element(machine, array, size(), std::move(value));
 		this->ptr_end += sizeof(T);
 	}
 
@@ -325,7 +336,7 @@ struct GuestStdVector {
 		if (size_bytes() >= capacity_bytes())
 			this->increase_capacity(machine);
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
-		new (&array[size()]) T(value);
+		this->construct_element(machine, array, size(), value);
 		this->ptr_end += sizeof(T);
 	}
 
@@ -359,7 +370,7 @@ struct GuestStdVector {
 			this->reserve(machine, size() + count);
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + count);
 		for (std::size_t i = 0; i < count; i++)
-			new (&array[size() + i]) T(values[i]);
+			this->construct_element(machine, array, size() + i, values[i]);
 		this->ptr_end += count * sizeof(T);
 	}
 
@@ -421,7 +432,8 @@ struct GuestStdVector {
 	{
 		auto [array, self] = alloc(machine, vec.size());
 		(void)self;
-		std::copy(vec.begin(), vec.end(), array);
+		for (std::size_t i = 0; i < vec.size(); i++)
+			this->construct_element(machine, array, i, vec[i]);
 		this->ptr_end = this->ptr_begin + vec.size() * sizeof(T);
 	}
 
@@ -429,7 +441,8 @@ struct GuestStdVector {
 	{
 		auto [array, self] = alloc(machine, count);
 		(void)self;
-		std::copy(values, values + count, array);
+		for (std::size_t i = 0; i < count; i++)
+			this->construct_element(machine, array, i, values[i]);
 		this->ptr_end = this->ptr_begin + count * sizeof(T);
 	}
 
@@ -444,7 +457,7 @@ struct GuestStdVector {
 				this->reserve(machine, new_size);
 			T* array = machine.memory.template writable_memarray<T>(this->data(), new_size);
 			for (std::size_t i = size(); i < new_size; i++)
-				new (&array[i]) T();
+				this->construct_element(machine, array, i, T());
 			this->ptr_end = this->ptr_begin + new_size * sizeof(T);
 		}
 	}
@@ -459,17 +472,13 @@ struct GuestStdVector {
 		auto [array, self] = this->alloc(machine, elements);
 		(void)self;
 		if (!old_vec.empty()) {
-			std::copy(old_vec.as_array(machine), old_vec.as_array(machine) + old_vec.size(), array);
+			const T* old_array = old_vec.as_array(machine);
+			for (std::size_t i = 0; i < old_vec.size(); i++)
+				this->construct_element(machine, array, i, old_array[i]);
 			// Free the old vector manually (as we don't want to call the destructor(s))
 			machine.arena().free(old_vec.ptr_begin);
 		}
 		this->ptr_end = this->ptr_begin + old_vec.size() * sizeof(T);
-		// Adjust SSO if the vector contains std::string
-		if constexpr (std::is_same_v<T, GuestStdString>) {
-			T* array = machine.memory.template writable_memarray<T>(this->data(), size());
-			for (std::size_t i = 0; i < size(); i++)
-				array[i].move(this->ptr_begin + i * sizeof(T));
-		}
 	}
 
 	void free(Machine& machine) {
@@ -507,6 +516,20 @@ struct GuestStdVector {
 	std::size_t capacity_bytes() const noexcept { return ptr_capacity - ptr_begin; }
 
 private:
+	// Construct a new element at index, adjusting SSO if it's a std::string
+	template <typename U>
+	void construct_element(Machine& machine, T* array, std::size_t index, U&& value) {
+		if constexpr (std::is_same_v<T, GuestStdString>) {
+			const bool local = value.ptr == 0 || value.is_local(machine);
+			T* str = new (&array[index]) T(std::forward<U>(value));
+			if (local)
+				str->ptr = this->ptr_begin + index * sizeof(T) + offsetof(GuestStdString, data);
+		} else {
+			(void)machine;
+			new (&array[index]) T(std::forward<U>(value));
+		}
+	}
+
 	void increase_capacity(Machine& machine) {
 		this->reserve(machine, capacity() * 2 + 4);
 	}
@@ -576,6 +599,10 @@ struct ScopedArenaObject {
 		this->allocate_if_null();
 		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
 		new (m_ptr) T(other);
+		if constexpr (std::is_same_v<T, GuestStdString>) {
+			if (other.ptr == 0 || other.is_local(*m_machine))
+				this->m_ptr->move(this->m_addr);
+		}
 		return *this;
 	}
 
-- 
2.43.0


From a18ab0815ab22ae159d0cdc3e276bf47d3192f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 043/116] fix: free the old storage of an empty guest
 std::vector that grows

---
 lib/libloong/guest_datatypes.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 5c22580..ebe0f29 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -475,9 +475,10 @@ struct GuestStdVector {
 			const T* old_array = old_vec.as_array(machine);
 			for (std::size_t i = 0; i < old_vec.size(); i++)
 				this->construct_element(machine, array, i, old_array[i]);
-			// Free the old vector manually (as we don't want to call the destructor(s))
-			machine.arena().free(old_vec.ptr_begin);
 		}
+		// Free the old vector manually (as we don't want to call the destructor(s))
+		if (old_vec.ptr_begin != 0)
+			machine.arena().free(old_vec.ptr_begin);
 		this->ptr_end = this->ptr_begin + old_vec.size() * sizeof(T);
 	}
 
-- 
2.43.0


From 75bdd11b43f99bbd6c8422d4d235f6ff141aea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 044/116] fix: report an exhausted guest heap without
 corrupting the string or vector

---
 lib/libloong/guest_datatypes.hpp | 33 ++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index ebe0f29..82b4955 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -112,6 +112,8 @@ struct GuestStdString {
 		else
 		{
 			this->ptr = machine.arena().malloc(len+1);
+			if (this->ptr == 0)
+				throw MachineException(OUT_OF_MEMORY, "Guest heap exhausted", len+1);
 			this->len = len;
 			this->capacity = len;
 			if (use_memarray)
@@ -201,6 +203,8 @@ struct GuestRustString {
 		if (length > 0)
 		{
 			this->ptr = machine.arena().malloc(length);
+			if (this->ptr == 0)
+				throw MachineException(OUT_OF_MEMORY, "Guest heap exhausted", length);
 			this->capacity = length;
 			this->len = length;
 			if (use_memarray)
@@ -467,12 +471,14 @@ struct GuestStdVector {
 		if (elements <= capacity())
 			return;
 
-		GuestStdVector<T> old_vec(std::move(*this));
-		// Allocate new memory
-		auto [array, self] = this->alloc(machine, elements);
+		const T* old_array = this->empty() ? nullptr : this->as_array(machine);
+		// Allocate new memory, leaving the vector as it was if that fails
+		GuestStdVector<T> new_vec;
+		auto [array, self] = new_vec.alloc(machine, elements);
 		(void)self;
+		GuestStdVector<T> old_vec(std::move(*this));
+		*this = new_vec;
 		if (!old_vec.empty()) {
-			const T* old_array = old_vec.as_array(machine);
 			for (std::size_t i = 0; i < old_vec.size(); i++)
 				this->construct_element(machine, array, i, old_array[i]);
 		}
@@ -538,7 +544,10 @@ private:
 	std::tuple<T*, address_t> alloc(Machine& machine, std::size_t elements) {
 		this->free(machine);
 
-		this->ptr_begin = machine.arena().malloc(elements * sizeof(T));
+		const address_t storage = elements > SIZE_MAX / sizeof(T) ? 0 : machine.arena().malloc(elements * sizeof(T));
+		if (storage == 0)
+			throw MachineException(OUT_OF_MEMORY, "Guest heap exhausted", elements);
+		this->ptr_begin = storage;
 		this->ptr_end = this->ptr_begin;
 		this->ptr_capacity = this->ptr_begin + elements * sizeof(T);
 		return { machine.memory.template writable_memarray<T>(this->data(), elements), this->data() };
@@ -679,7 +688,7 @@ struct GuestRustVector {
 		: len(0), ptr(0), capacity(0)
 	{
 		if (elements > 0) {
-			this->ptr = machine.arena().malloc(elements * sizeof(T));
+			this->ptr = allocate(machine, elements);
 			this->capacity = elements;
 			this->len = elements;
 			T* array = machine.memory.template writable_memarray<T>(this->ptr, elements);
@@ -697,7 +706,7 @@ struct GuestRustVector {
 			return;
 
 		// Specialization for std::vector<std::string>
-		this->ptr = machine.arena().malloc(vec.size() * sizeof(T));
+		this->ptr = allocate(machine, vec.size());
 		this->capacity = vec.size();
 		this->len = vec.size();
 		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
@@ -762,7 +771,7 @@ struct GuestRustVector {
 		if (vec.empty())
 			return;
 
-		this->ptr = machine.arena().malloc(vec.size() * sizeof(T));
+		this->ptr = allocate(machine, vec.size());
 		this->capacity = vec.size();
 		this->len = vec.size();
 		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
@@ -779,6 +788,14 @@ struct GuestRustVector {
 			this->len = 0;
 		}
 	}
+
+private:
+	static address_t allocate(Machine& machine, std::size_t elements) {
+		const address_t storage = elements > SIZE_MAX / sizeof(T) ? 0 : machine.arena().malloc(elements * sizeof(T));
+		if (storage == 0)
+			throw MachineException(OUT_OF_MEMORY, "Guest heap exhausted", elements);
+		return storage;
+	}
 };
 
 // Convenience aliases
-- 
2.43.0


From 512376a068f28f95abdc0d7bfb07221216e5cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 045/116] fix: reject an append that overflows the size of a
 guest std::vector

---
 lib/libloong/guest_datatypes.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 82b4955..820ea84 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -370,6 +370,8 @@ struct GuestStdVector {
 	}
 
 	void append(Machine& machine, const T* values, std::size_t count) {
+		if (count > SIZE_MAX / sizeof(T) - size())
+			throw std::length_error("Guest std::vector too large");
 		if (size_bytes() + count * sizeof(T) > capacity_bytes())
 			this->reserve(machine, size() + count);
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + count);
-- 
2.43.0


From 609069f97b13a3a750891ac655b09e2bb68dee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 046/116] fix: do not terminate when a scoped guest object
 cannot be followed

---
 lib/libloong/guest_datatypes.hpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 820ea84..328ffa7 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -492,9 +492,13 @@ struct GuestStdVector {
 
 	void free(Machine& machine) {
 		if (this->ptr_begin != 0) {
-			for (std::size_t i = 0; i < size(); i++)
-				this->free_element(machine, i);
-			machine.arena().free(this->data());
+			const address_t storage = this->data();
+			if constexpr (std::is_same_v<T, GuestStdString> || is_guest_stdvector<T>::value
+				|| !std::is_trivially_destructible_v<T>) {
+				for (std::size_t i = 0; i < size(); i++)
+					this->free_element(machine, i);
+			}
+			machine.arena().free(storage);
 			this->ptr_begin = 0;
 			this->ptr_end = 0;
 			this->ptr_capacity = 0;
@@ -594,8 +598,7 @@ struct ScopedArenaObject {
 	}
 
 	~ScopedArenaObject() {
-		this->free_standard_types();
-		m_machine->arena().free(this->m_addr);
+		this->release();
 	}
 
 	T& operator*() { return *m_ptr; }
@@ -646,6 +649,19 @@ struct ScopedArenaObject {
 	}
 
 private:
+	// The guest may have written anything to the object, including
+	// pointers that cannot be followed
+	void release() noexcept {
+		if (this->m_addr == 0)
+			return;
+		try {
+			this->free_standard_types();
+		} catch (...) {}
+		m_machine->arena().free(this->m_addr);
+		this->m_addr = 0;
+		this->m_ptr = nullptr;
+	}
+
 	void allocate_if_null() {
 		if (this->m_addr == 0) {
 			this->m_addr = m_machine->arena().malloc(sizeof(T));
-- 
2.43.0


From 84c9f89cd8dd377e3763bd24cf15f71ad525924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 047/116] fix: free the previous object when a scoped guest
 object is move-assigned

---
 lib/libloong/guest_datatypes.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 328ffa7..b9085cd 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -639,7 +639,9 @@ struct ScopedArenaObject {
 	}
 
 	ScopedArenaObject& operator=(ScopedArenaObject&& other) {
-		this->free_standard_types();
+		if (this == &other)
+			return *this;
+		this->release();
 		this->m_machine = other.m_machine;
 		this->m_addr = other.m_addr;
 		this->m_ptr = other.m_ptr;
-- 
2.43.0


From a88e1c1ccace3040121b93e2a4709c15cfba7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 048/116] fix: use the layout of Rust's Vec in GuestRustVector

---
 lib/libloong/guest_datatypes.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index b9085cd..0329040 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -695,17 +695,17 @@ struct is_scoped_guest_object : std::false_type {};
 template <typename T>
 struct is_scoped_guest_object<ScopedArenaObject<T>> : std::true_type {};
 
-// View into Rust's Vec<T> (layout: ptr, capacity, len)
+// View into Rust's Vec<T> (layout: capacity, ptr, len)
 template <typename T>
 struct GuestRustVector {
-	address_t len;
-	address_t ptr;
 	address_t capacity;
+	address_t ptr;
+	address_t len;
 
-	constexpr GuestRustVector() noexcept : len(0), ptr(0), capacity(0) {}
+	constexpr GuestRustVector() noexcept : capacity(0), ptr(0), len(0) {}
 
 	GuestRustVector(Machine& machine, std::size_t elements)
-		: len(0), ptr(0), capacity(0)
+		: capacity(0), ptr(0), len(0)
 	{
 		if (elements > 0) {
 			this->ptr = allocate(machine, elements);
@@ -719,7 +719,7 @@ struct GuestRustVector {
 	}
 
 	GuestRustVector(Machine& machine, const std::vector<std::string>& vec)
-		: ptr(0), capacity(0), len(0)
+		: capacity(0), ptr(0), len(0)
 	{
 		static_assert(std::is_same_v<T, GuestRustString>, "GuestRustVector<T> must be a vector of GuestRustString");
 		if (vec.empty())
@@ -736,7 +736,7 @@ struct GuestRustVector {
 	}
 
 	GuestRustVector(Machine& machine, const std::vector<T>& vec)
-		: ptr(0), capacity(0), len(0)
+		: capacity(0), ptr(0), len(0)
 	{
 		if (!vec.empty())
 			this->assign(machine, vec);
-- 
2.43.0


From 3ee2abfc778ff21fc9e0126b329e49ff4b32e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 049/116] fix: free the strings of a guest Rust vector, and no
 dangling pointers

---
 lib/libloong/guest_datatypes.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 0329040..7b9cb5d 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -228,7 +228,8 @@ struct GuestRustString {
 
 	void free(Machine& machine)
 	{
-		if (ptr != 0) {
+		// An empty String has a dangling pointer and no capacity
+		if (ptr != 0 && capacity != 0) {
 			machine.arena().free(ptr);
 		}
 		this->ptr = 0;
@@ -801,7 +802,12 @@ struct GuestRustVector {
 	void fix_addresses(Machine&, address_t) {} // No-op
 
 	void free(Machine& machine) {
-		if (this->ptr != 0) {
+		// An empty Vec has a dangling pointer and no capacity
+		if (this->ptr != 0 && this->capacity != 0) {
+			if constexpr (std::is_same_v<T, GuestRustString>) {
+				for (std::size_t i = 0; i < this->len; i++)
+					this->at(machine, i).free(machine);
+			}
 			machine.arena().free(this->ptr);
 			this->ptr = 0;
 			this->capacity = 0;
-- 
2.43.0


From ae73b4d52e222f654033100dc60e058def42150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 050/116] fix: give back guest heap memory when constructing a
 guest object fails

---
 lib/libloong/guest_datatypes.hpp | 67 +++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 7b9cb5d..4518a53 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -269,12 +269,16 @@ struct GuestStdVector {
 		// Specialization for std::vector<std::string>
 		auto [array, self] = this->alloc(machine, vec.size());
 		(void)self;
-		for (std::size_t i = 0; i < vec.size(); i++) {
-			T* str = new (&array[i]) T(machine, vec[i]);
-			str->move(this->ptr_begin + i * sizeof(T));
+		try {
+			for (std::size_t i = 0; i < vec.size(); i++) {
+				T* str = new (&array[i]) T(machine, vec[i]);
+				str->move(this->ptr_begin + i * sizeof(T));
+				this->ptr_end += sizeof(T);
+			}
+		} catch (...) {
+			this->free(machine);
+			throw;
 		}
-		// Set new end only after all elements are constructed
-		this->ptr_end = this->ptr_begin + vec.size() * sizeof(T);
 	}
 
 	GuestStdVector(Machine& machine, const std::vector<T>& vec = {})
@@ -360,6 +364,8 @@ struct GuestStdVector {
 	template <typename U>
 	void push_back(Machine& machine, const std::vector<U>& value) {
 		static_assert(is_guest_stdvector<T>::value, "GuestStdVector: T must be a GuestStdVector itself");
+		if (size_bytes() >= capacity_bytes())
+			this->increase_capacity(machine);
 		this->push_back(machine, GuestStdVector<U>(machine, value));
 	}
 
@@ -580,21 +586,11 @@ struct ScopedArenaObject {
 		if (this->m_addr == 0) {
 			throw std::bad_alloc();
 		}
-		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
-
-		// Construct the object
-		if constexpr (std::is_same_v<T, GuestStdString> || std::is_same_v<T, GuestRustString>) {
-			new (m_ptr) T(machine, std::forward<Args>(args)...);
-		} else if constexpr (is_guest_stdvector<T>::value || is_guest_rustvector<T>::value) {
-			new (m_ptr) T(machine, std::forward<Args>(args)...);
-		} else {
-			// Construct the object in place (as if trivially constructible)
-			new (m_ptr) T{std::forward<Args>(args)...};
-		}
-
-		// Fix addresses if the type supports it
-		if constexpr (has_fix_addresses<T>::value) {
-			this->m_ptr->fix_addresses(machine, this->m_addr);
+		try {
+			this->construct(machine, std::forward<Args>(args)...);
+		} catch (...) {
+			m_machine->arena().free(this->m_addr);
+			throw;
 		}
 	}
 
@@ -652,6 +648,26 @@ struct ScopedArenaObject {
 	}
 
 private:
+	template <typename... Args>
+	void construct(Machine& machine, Args&&... args) {
+		this->m_ptr = machine.memory.template writable_memarray<T>(this->m_addr, 1);
+
+		// Construct the object
+		if constexpr (std::is_same_v<T, GuestStdString> || std::is_same_v<T, GuestRustString>) {
+			new (m_ptr) T(machine, std::forward<Args>(args)...);
+		} else if constexpr (is_guest_stdvector<T>::value || is_guest_rustvector<T>::value) {
+			new (m_ptr) T(machine, std::forward<Args>(args)...);
+		} else {
+			// Construct the object in place (as if trivially constructible)
+			new (m_ptr) T{std::forward<Args>(args)...};
+		}
+
+		// Fix addresses if the type supports it
+		if constexpr (has_fix_addresses<T>::value) {
+			this->m_ptr->fix_addresses(machine, this->m_addr);
+		}
+	}
+
 	// The guest may have written anything to the object, including
 	// pointers that cannot be followed
 	void release() noexcept {
@@ -729,10 +745,15 @@ struct GuestRustVector {
 		// Specialization for std::vector<std::string>
 		this->ptr = allocate(machine, vec.size());
 		this->capacity = vec.size();
-		this->len = vec.size();
 		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
-		for (std::size_t i = 0; i < vec.size(); i++) {
-			new (&array[i]) T(machine, vec[i]);
+		try {
+			for (std::size_t i = 0; i < vec.size(); i++) {
+				new (&array[i]) T(machine, vec[i]);
+				this->len++;
+			}
+		} catch (...) {
+			this->free(machine);
+			throw;
 		}
 	}
 
-- 
2.43.0


From 07a803309b66260994f284cbf97523534821812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 051/116] fix: reading an empty guest vector does not fault

---
 lib/libloong/guest_datatypes.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 4518a53..28b4741 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -377,6 +377,8 @@ struct GuestStdVector {
 	}
 
 	void append(Machine& machine, const T* values, std::size_t count) {
+		if (count == 0)
+			return;
 		if (count > SIZE_MAX / sizeof(T) - size())
 			throw std::length_error("Guest std::vector too large");
 		if (size_bytes() + count * sizeof(T) > capacity_bytes())
@@ -402,12 +404,16 @@ struct GuestStdVector {
 	T* as_array(Machine& machine, std::size_t max_bytes = 16UL << 20) {
 		if (size_bytes() > max_bytes)
 			throw std::runtime_error("Guest std::vector has size > max_bytes");
+		if (this->empty())
+			return nullptr;
 		return machine.memory.template writable_memarray<T>(data(), size());
 	}
 
 	const T* as_array(const Machine& machine, std::size_t max_bytes = 16UL << 20) const {
 		if (size_bytes() > max_bytes)
 			throw std::runtime_error("Guest std::vector has size > max_bytes");
+		if (this->empty())
+			return nullptr;
 		return machine.memory.template memarray<T>(data(), size());
 	}
 
@@ -420,6 +426,8 @@ struct GuestStdVector {
 			throw std::runtime_error("Guest std::vector has size > capacity");
 		// Copy the vector from guest memory
 		const size_t elements = size();
+		if (elements == 0)
+			return {};
 		const T* array = machine.memory.template memarray<T>(data(), elements);
 		return std::vector<T>(&array[0], &array[elements]);
 	}
@@ -431,6 +439,8 @@ struct GuestStdVector {
 		if constexpr (std::is_same_v<T, GuestStdString>) {
 			std::vector<std::string> vec;
 			const size_t elements = size();
+			if (elements == 0)
+				return vec;
 			const T* array = machine.memory.template memarray<T>(data(), elements);
 			vec.reserve(elements);
 			for (std::size_t i = 0; i < elements; i++)
@@ -791,12 +801,16 @@ struct GuestRustVector {
 	T* as_array(Machine& machine, std::size_t max_bytes = 16UL << 20) {
 		if (len * sizeof(T) > max_bytes)
 			throw std::runtime_error("Guest Rust Vec has size > max_bytes");
+		if (this->empty())
+			return nullptr;
 		return machine.memory.template writable_memarray<T>(data(), len);
 	}
 
 	const T* as_array(const Machine& machine, std::size_t max_bytes = 16UL << 20) const {
 		if (len * sizeof(T) > max_bytes)
 			throw std::runtime_error("Guest Rust Vec has size > max_bytes");
+		if (this->empty())
+			return nullptr;
 		return machine.memory.template memarray<T>(data(), len);
 	}
 
-- 
2.43.0


From ecd6615f1d80fc2da7b67bf10174c106a746385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 052/116] fix: append to a guest std::vector whose storage
 overlaps the vector

---
 lib/libloong/guest_datatypes.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 28b4741..7669b04 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -383,9 +383,11 @@ struct GuestStdVector {
 			throw std::length_error("Guest std::vector too large");
 		if (size_bytes() + count * sizeof(T) > capacity_bytes())
 			this->reserve(machine, size() + count);
-		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + count);
+		// The size is read once, as the guest may have placed the storage on top of the vector
+		const std::size_t old_size = size();
+		T* array = machine.memory.template writable_memarray<T>(this->data(), old_size + count);
 		for (std::size_t i = 0; i < count; i++)
-			this->construct_element(machine, array, size() + i, values[i]);
+			this->construct_element(machine, array, old_size + i, values[i]);
 		this->ptr_end += count * sizeof(T);
 	}
 
-- 
2.43.0


From 6194918f566f22f539a455e4ebadf60e5778da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 053/116] fix: data race between machines decoding instructions
 in different threads

---
 lib/libloong/decoder_cache.cpp |  9 ++++++---
 lib/libloong/decoder_cache.hpp | 10 ++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 423cf6d..9ab58a7 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -276,16 +276,19 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 
 	uint16_t DecoderData::compute_handler_for(handler_t handler)
 	{
+		std::lock_guard<std::mutex> lock(m_handlers_mutex);
 		// Search for existing handler
-		for (size_t i = 0; i < m_handlers.size(); ++i) {
+		for (size_t i = 0; i < m_handlers_count; ++i) {
 			if (m_handlers[i] == handler) {
 				return static_cast<uint16_t>(i);
 			}
 		}
 
 		// Add new handler
-		m_handlers.push_back(handler);
-		return static_cast<uint16_t>(m_handlers.size() - 1);
+		if (m_handlers_count >= m_handlers.size())
+			throw std::runtime_error("DecoderCache: Too many instruction handlers");
+		m_handlers[m_handlers_count] = handler;
+		return static_cast<uint16_t>(m_handlers_count++);
 	}
 
 	void DecodedExecuteSegment::set(address_t entry_addr, const DecoderData& data)
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index f370e07..6ce99d8 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "common.hpp"
-#include <vector>
+#include <array>
+#include <mutex>
 
 namespace loongarch
 {
@@ -35,7 +36,12 @@ namespace loongarch
 		}
 
 	private:
-		static inline std::vector<handler_t> m_handlers;
+		// The table has a fixed size, so that it can be read by one machine
+		// while another one, in a different thread, adds a handler to it.
+		static constexpr size_t MAX_HANDLERS = 512;
+		static inline std::array<handler_t, MAX_HANDLERS> m_handlers {};
+		static inline size_t m_handlers_count = 0;
+		static inline std::mutex m_handlers_mutex;
 	};
 	static_assert(sizeof(DecoderData) == 8, "DecoderData size incorrect");
 
-- 
2.43.0


From eca745573f7f0f01914d55556c924b4cdef8c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 054/116] fix: machines with different code or arena size
 shared an execute segment

---
 lib/libloong/memory.cpp              | 28 ++++++++++++++--------------
 lib/libloong/shared_exec_segment.hpp |  8 ++++++--
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 18cfd81..aa661a4 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -333,24 +333,24 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 		auto& shared_cache = get_shared_execute_segments();
 		auto& entry = shared_cache.get_segment(key);
 
-		// Lock the segment entry and check if it exists
-		std::shared_ptr<DecodedExecuteSegment> existing = entry.get();
+		const std::string_view code(static_cast<const char*>(data), len);
 
-		if (existing) {
+		// Lock the segment entry and check if it exists
+		std::lock_guard<std::mutex> lock(entry.mutex);
+		if (!entry.segment) {
+			// No existing segment, create and publish it
+			segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
+			populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
+			entry.code = code;
+			entry.segment = segment;
+		} else if (entry.code == code) {
 			// Reuse existing shared segment
-			segment = existing;
-		} else {
-			// No existing segment, use the one we just created
-			std::lock_guard<std::mutex> lock(entry.mutex);
-			// Double-check in case another thread created it
-			if (!entry.segment) {
-				entry.segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
-				populate_decoder_cache(m_machine, options, entry.segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
-			}
 			segment = entry.segment;
 		}
-	} else {
-		// Not using shared segments, create a new one
+		// Otherwise, a different program has the same checksum
+	}
+	if (!segment) {
+		// Not sharing, create a new one
 		segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
 		populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
 	}
diff --git a/lib/libloong/shared_exec_segment.hpp b/lib/libloong/shared_exec_segment.hpp
index 3f6193e..0276ecd 100644
--- a/lib/libloong/shared_exec_segment.hpp
+++ b/lib/libloong/shared_exec_segment.hpp
@@ -3,6 +3,8 @@
 #include "decoded_exec_segment.hpp"
 #include <memory>
 #include <mutex>
+#include <string>
+#include <tuple>
 #include <unordered_map>
 
 namespace loongarch
@@ -21,11 +23,11 @@ namespace loongarch
 		static SegmentKey from(const DecodedExecuteSegment& segment, uint64_t arena_size);
 
 		bool operator==(const SegmentKey& other) const {
-			return pc == other.pc && crc == other.crc;
+			return pc == other.pc && crc == other.crc && arena_size == other.arena_size;
 		}
 
 		bool operator<(const SegmentKey& other) const {
-			return pc < other.pc || (pc == other.pc && crc < other.crc);
+			return std::tie(pc, crc, arena_size) < std::tie(other.pc, other.crc, other.arena_size);
 		}
 	};
 
@@ -59,6 +61,8 @@ namespace loongarch
 		// concurrently by different threads.
 		struct Segment {
 			std::shared_ptr<DecodedExecuteSegment> segment;
+			// The program code that the segment was made from
+			std::string code;
 			std::mutex mutex;
 
 			// Thread-safe getter
-- 
2.43.0


From 4e45536d449111f4366956f5c5836e7c9abe2d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 055/116] fix: free shared execute segments with the last
 machine that uses them

---
 lib/libloong/memory.cpp              | 30 ++++++++++++----------------
 lib/libloong/shared_exec_segment.cpp |  6 ++++--
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index aa661a4..90c6496 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -25,6 +25,7 @@ Memory::Memory(Machine& machine,
 			binary_loader(options);
 		} catch (...) {
 			// The destructor will not be called
+			evict_execute_segments();
 			free_arena();
 			throw;
 		}
@@ -59,6 +60,7 @@ Memory::~Memory()
 #else
 	free_arena();
 #endif
+	evict_execute_segments();
 }
 
 void Memory::allocate_arena(size_t size)
@@ -379,27 +381,21 @@ void Memory::evict_execute_segments()
 {
 	machine().cpu.set_execute_segment(*CPU::empty_execute_segment());
 
-	// If using shared segments, notify the cache before releasing our references
-	if (machine().has_options() && machine().options().use_shared_execute_segments) {
-		auto& shared_cache = get_shared_execute_segments();
-
-		// Remove main segment if unique
-		if (m_main_exec_segment) {
-			SegmentKey key = SegmentKey::from(*m_main_exec_segment, m_arena_size);
+	// Release our references, and let the cache of shared segments drop
+	// those that no other machine uses
+	auto& shared_cache = get_shared_execute_segments();
+	auto release = [&] (std::shared_ptr<DecodedExecuteSegment>& seg) {
+		if (seg) {
+			const SegmentKey key = SegmentKey::from(*seg, m_arena_size);
+			seg.reset();
 			shared_cache.remove_if_unique(key);
 		}
-
-		// Remove other segments if unique
-		for (auto& seg : m_exec) {
-			if (seg) {
-				SegmentKey key = SegmentKey::from(*seg, m_arena_size);
-				shared_cache.remove_if_unique(key);
-			}
-		}
-	}
+	};
+	for (auto& seg : m_exec)
+		release(seg);
+	release(m_main_exec_segment);
 
 	m_exec.clear();
-	m_main_exec_segment.reset();
 }
 
 void Memory::reset()
diff --git a/lib/libloong/shared_exec_segment.cpp b/lib/libloong/shared_exec_segment.cpp
index 686ff01..64ebbe0 100644
--- a/lib/libloong/shared_exec_segment.cpp
+++ b/lib/libloong/shared_exec_segment.cpp
@@ -34,6 +34,7 @@ namespace loongarch
 			std::lock_guard<std::mutex> seg_lock(it->second.mutex);
 			if (it->second.segment && it->second.segment.use_count() == 1) {
 				it->second.segment = nullptr;
+				it->second.code = {};
 			}
 		}
 	}
@@ -48,8 +49,9 @@ namespace loongarch
 	// Global singleton
 	SharedExecuteSegments& get_shared_execute_segments()
 	{
-		static SharedExecuteSegments instance;
-		return instance;
+		// Never destroyed, as there may be machines with static storage
+		static auto* instance = new SharedExecuteSegments;
+		return *instance;
 	}
 
 } // namespace loongarch
-- 
2.43.0


From 02ed5c861217140da951a6544b986ec21026deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 056/116] fix: accelerated functions of one machine appeared in
 other machines

---
 lib/libloong/decoded_exec_segment.cpp | 18 ++++++++++++++++++
 lib/libloong/decoded_exec_segment.hpp |  6 ++++++
 lib/libloong/machine_accelerate.cpp   |  3 +--
 lib/libloong/memory.cpp               | 23 +++++++++++++++++++++++
 lib/libloong/memory.hpp               |  3 +++
 5 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/decoded_exec_segment.cpp b/lib/libloong/decoded_exec_segment.cpp
index eef3a78..b09f587 100644
--- a/lib/libloong/decoded_exec_segment.cpp
+++ b/lib/libloong/decoded_exec_segment.cpp
@@ -1,5 +1,6 @@
 #include "decoded_exec_segment.hpp"
 #include "machine.hpp"
+#include <algorithm>
 
 namespace loongarch
 {
@@ -59,4 +60,21 @@ namespace loongarch
 		}
 	}
 
+	std::shared_ptr<DecodedExecuteSegment> DecodedExecuteSegment::make_private_copy() const
+	{
+		auto copy = std::make_shared<DecodedExecuteSegment>(m_exec_begin, m_exec_end);
+		if (m_decoder_cache.cache) {
+			// The decoder cache is terminated by an extra entry
+			const size_t entries = m_decoder_cache.size + 1;
+			auto* cache = new DecoderData[entries];
+			std::copy_n(m_decoder_cache.cache, entries, cache);
+			copy->set_decoder_cache(cache, m_decoder_cache.size);
+		}
+		copy->m_stale = m_stale;
+		copy->m_execute_only = m_execute_only;
+		copy->m_crc32c_hash = m_crc32c_hash;
+		copy->m_private = true;
+		return copy;
+	}
+
 } // namespace loongarch
diff --git a/lib/libloong/decoded_exec_segment.hpp b/lib/libloong/decoded_exec_segment.hpp
index abb413f..3dd7f3d 100644
--- a/lib/libloong/decoded_exec_segment.hpp
+++ b/lib/libloong/decoded_exec_segment.hpp
@@ -2,6 +2,7 @@
 #include "common.hpp"
 #include "decoder_cache.hpp"
 #include "tr_types.hpp"
+#include <memory>
 #include <vector>
 #include <mutex>
 #include <condition_variable>
@@ -50,6 +51,10 @@ namespace loongarch
 
 		void set(address_t entry_addr, const DecoderData& data);
 
+		// A private segment belongs to a single machine
+		bool is_private() const noexcept { return m_private; }
+		std::shared_ptr<DecodedExecuteSegment> make_private_copy() const;
+
 		bool is_stale() const noexcept { return m_stale; }
 		void set_stale(bool stale) noexcept { m_stale = stale; }
 
@@ -96,6 +101,7 @@ namespace loongarch
 		DecoderCache m_decoder_cache;
 		bool m_stale = false;
 		bool m_execute_only = false;
+		bool m_private = false;
 		uint32_t m_crc32c_hash = 0;
 #ifdef LA_BINARY_TRANSLATION
 		bool m_is_libtcc = false;
diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 39cb8e8..8d2239a 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -41,8 +41,7 @@ static inline void patch(Machine& machine, const std::vector<std::string> symbol
 			entry.block_bytes = 0; // Diverges here
 			entry.instr = syscall_number;
 			// Install into decoder cache
-			auto& exec_seg = *machine.memory.exec_segment_for(addr);
-			exec_seg.set(addr, entry);
+			machine.memory.patch_execute_segment(addr, entry);
 		}
 	}
 }
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 90c6496..6e95b1b 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -377,6 +377,26 @@ std::shared_ptr<DecodedExecuteSegment> Memory::exec_segment_for(address_t pc) co
 	return CPU::empty_execute_segment();
 }
 
+void Memory::patch_execute_segment(address_t pc, const DecoderData& entry)
+{
+	std::shared_ptr<DecodedExecuteSegment> segment = exec_segment_for(pc);
+	// Other machines may be using the same segment, so modify a copy of it,
+	// which is never shared. Translated code is not in the decoder cache.
+	if (!segment->is_private() && !segment->is_binary_translated() && !segment->empty()) {
+		auto copy = segment->make_private_copy();
+		for (auto& seg : m_exec) {
+			if (seg == segment) seg = copy;
+		}
+		if (m_main_exec_segment == segment) m_main_exec_segment = copy;
+		if (&machine().cpu.current_execute_segment() == segment.get())
+			machine().cpu.set_execute_segment(*copy);
+		// The CPU may be executing the original
+		m_replaced_exec.push_back(std::move(segment));
+		segment = std::move(copy);
+	}
+	segment->set(pc, entry);
+}
+
 void Memory::evict_execute_segments()
 {
 	machine().cpu.set_execute_segment(*CPU::empty_execute_segment());
@@ -393,9 +413,12 @@ void Memory::evict_execute_segments()
 	};
 	for (auto& seg : m_exec)
 		release(seg);
+	for (auto& seg : m_replaced_exec)
+		release(seg);
 	release(m_main_exec_segment);
 
 	m_exec.clear();
+	m_replaced_exec.clear();
 }
 
 void Memory::reset()
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index e1a0500..38ed608 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -54,6 +54,8 @@ namespace loongarch
 		std::shared_ptr<DecodedExecuteSegment> exec_segment_for(address_t pc) const;
 		size_t execute_segments_count() const noexcept { return m_exec.size() + (m_main_exec_segment ? 1 : 0); }
 		void evict_execute_segments();
+		// Replace the decoder cache entry of an instruction, for this machine only
+		void patch_execute_segment(address_t pc, const DecoderData& entry);
 
 		// Binary info
 		const auto& binary() const noexcept { return m_binary; }
@@ -115,6 +117,7 @@ namespace loongarch
 		// Execute segments
 		std::shared_ptr<DecodedExecuteSegment> m_main_exec_segment;
 		std::vector<std::shared_ptr<DecodedExecuteSegment>> m_exec;
+		std::vector<std::shared_ptr<DecodedExecuteSegment>> m_replaced_exec;
 
 		// Memory layout
 		address_t m_start_address = 0;
-- 
2.43.0


From e5f848ac266e9e1835d31847432f0af8d5824f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 057/116] fix: free shared execute segments when a machine is
 destroyed or reloaded

---
 lib/libloong/memory.cpp | 41 ++++++++++++++++++++++++-----------------
 lib/libloong/memory.hpp |  2 ++
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 6e95b1b..fb70609 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -54,13 +54,12 @@ Memory::~Memory()
 			seg->wait_for_compilation_complete();
 			free_arena_internal(arena_ptr, arena_size);
 		}).detach();
-	} else {
-		free_arena();
+		evict_execute_segments();
+		return;
 	}
-#else
-	free_arena();
 #endif
 	evict_execute_segments();
+	free_arena();
 }
 
 void Memory::allocate_arena(size_t size)
@@ -358,7 +357,14 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 	}
 
 	if (is_initial) {
+		std::shared_ptr<DecodedExecuteSegment> previous = std::move(m_main_exec_segment);
 		m_main_exec_segment = segment;
+		if (previous) {
+			// The CPU must not keep executing the previous main segment
+			if (&machine().cpu.current_execute_segment() == previous.get())
+				machine().cpu.set_execute_segment(*segment);
+			release_execute_segment(previous);
+		}
 	} else {
 		m_exec.push_back(segment);
 	}
@@ -397,25 +403,26 @@ void Memory::patch_execute_segment(address_t pc, const DecoderData& entry)
 	segment->set(pc, entry);
 }
 
+void Memory::release_execute_segment(std::shared_ptr<DecodedExecuteSegment>& segment)
+{
+	// Release our reference, and let the cache of shared segments drop
+	// the segment when no other machine uses it
+	if (segment) {
+		const SegmentKey key = SegmentKey::from(*segment, m_arena_size);
+		segment.reset();
+		get_shared_execute_segments().remove_if_unique(key);
+	}
+}
+
 void Memory::evict_execute_segments()
 {
 	machine().cpu.set_execute_segment(*CPU::empty_execute_segment());
 
-	// Release our references, and let the cache of shared segments drop
-	// those that no other machine uses
-	auto& shared_cache = get_shared_execute_segments();
-	auto release = [&] (std::shared_ptr<DecodedExecuteSegment>& seg) {
-		if (seg) {
-			const SegmentKey key = SegmentKey::from(*seg, m_arena_size);
-			seg.reset();
-			shared_cache.remove_if_unique(key);
-		}
-	};
 	for (auto& seg : m_exec)
-		release(seg);
+		release_execute_segment(seg);
 	for (auto& seg : m_replaced_exec)
-		release(seg);
-	release(m_main_exec_segment);
+		release_execute_segment(seg);
+	release_execute_segment(m_main_exec_segment);
 
 	m_exec.clear();
 	m_replaced_exec.clear();
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 38ed608..39cc22d 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -100,6 +100,8 @@ namespace loongarch
 		void reset();
 
 	private:
+		void release_execute_segment(std::shared_ptr<DecodedExecuteSegment>&);
+
 		// Single memory arena (mmap'd on POSIX, new[] otherwise)
 		uint8_t* m_arena = nullptr;
 		size_t m_arena_size = 0;
-- 
2.43.0


From ea6aa12a5d381ad1f0147141503bf3f4b21f343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 058/116] fix: growing a guest std::vector with more elements
 than capacity wrote outside of memory

---
 lib/libloong/guest_datatypes.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 7669b04..1d7e2db 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -491,6 +491,9 @@ struct GuestStdVector {
 	{
 		if (elements <= capacity())
 			return;
+		// The guest can write anything to the vector
+		if (elements < size())
+			throw MachineException(ILLEGAL_OPERATION, "Guest std::vector has more elements than capacity", size());
 
 		const T* old_array = this->empty() ? nullptr : this->as_array(machine);
 		// Allocate new memory, leaving the vector as it was if that fails
-- 
2.43.0


From 5a3ba0b92ce9cd4e872e581a5e87c05e97ea4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 059/116] fix: accelerated memcpy passed overlapping guest
 ranges to the host memcpy

---
 lib/libloong/machine_accelerate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 8d2239a..6de71a6 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -106,10 +106,10 @@ void Machine::setup_accelerated_syscalls()
 			machine.set_result(dest);
 			return;
 		}
-		// Perform native memcpy
+		// Perform native memcpy (the guest may pass overlapping ranges)
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
-		std::memcpy(dest_ptr, src_ptr, n);
+		std::memmove(dest_ptr, src_ptr, n);
 
 		machine.set_result(dest);
 	});
-- 
2.43.0


From 008b3c33d0229168e2efbb34cddfe4316d9ca9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 060/116] fix: FUTEX_WAKE never woke a thread in FUTEX_WAIT, as
 it waited with an empty bitset

---
 lib/libloong/linux/syscalls_threads.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 641a639..d844dc9 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -47,7 +47,7 @@ namespace loongarch
 				thprint(machine,
 					"FUTEX: Waiting (blocked)... uaddr=0x%llx val=%d, bitset=%d\n",
 					static_cast<unsigned long long>(addr), val, is_bitset);
-				if (machine.threads().block(0, addr, is_bitset ? val3 : 0x0)) {
+				if (machine.threads().block(0, addr, is_bitset ? val3 : ~0x0)) {
 					return;
 				}
 				// Deadlock - unlock and continue
-- 
2.43.0


From 0183d00d1d58d2cc13a80910db1599aa066bca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 061/116] fix: futexes with equal low 32 address bits were
 taken for the same futex

---
 lib/libloong/posix/threads.cpp |  8 ++++----
 lib/libloong/posix/threads.hpp | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 7ac53cf..f750d47 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -108,7 +108,7 @@ void Thread::suspend(address_t return_value)
 	this->stored_regs.get(REG_A0) = return_value;
 }
 
-void Thread::block(uint32_t reason, uint32_t extra)
+void Thread::block(address_t reason, uint32_t extra)
 {
 	// copy all regs
 	this->stored_regs = threading.machine.cpu.registers();
@@ -118,7 +118,7 @@ void Thread::block(uint32_t reason, uint32_t extra)
 	threading.m_blocked.push_back(this);
 }
 
-void Thread::block_return(address_t return_value, uint32_t reason, uint32_t extra)
+void Thread::block_return(address_t return_value, address_t reason, uint32_t extra)
 {
 	this->block(reason, extra);
 	// set the block reason as the next return value
@@ -177,7 +177,7 @@ bool MultiThreading::suspend_and_yield(long result)
 	return false;
 }
 
-bool MultiThreading::block(address_t retval, uint32_t reason, uint32_t extra)
+bool MultiThreading::block(address_t retval, address_t reason, uint32_t extra)
 {
 	// Block current thread and yield to next
 	if (!m_suspended.empty() || m_threads.size() > 1) {
@@ -200,7 +200,7 @@ void MultiThreading::unblock(int tid)
 	}
 }
 
-size_t MultiThreading::wakeup_blocked(size_t max, uint32_t reason, uint32_t mask)
+size_t MultiThreading::wakeup_blocked(size_t max, address_t reason, uint32_t mask)
 {
 	size_t awakened = 0;
 	for (auto it = m_blocked.begin(); it != m_blocked.end() && awakened < max; ) {
diff --git a/lib/libloong/posix/threads.hpp b/lib/libloong/posix/threads.hpp
index 90985fa..40ad4be 100644
--- a/lib/libloong/posix/threads.hpp
+++ b/lib/libloong/posix/threads.hpp
@@ -28,7 +28,7 @@ namespace loongarch
 		// Address zeroed when exiting
 		address_t clear_tid = 0;
 		// The current or last blocked word
-		uint32_t block_word = 0;
+		address_t block_word = 0;
 		uint32_t block_extra = 0;
 
 		Thread(MultiThreading&, int tid, address_t tls,
@@ -37,8 +37,8 @@ namespace loongarch
 		bool exit(); // Returns false when we *cannot* continue
 		void suspend();
 		void suspend(address_t return_value);
-		void block(uint32_t reason, uint32_t extra = 0);
-		void block_return(address_t return_value, uint32_t reason, uint32_t extra);
+		void block(address_t reason, uint32_t extra = 0);
+		void block_return(address_t return_value, address_t reason, uint32_t extra);
 		void activate();
 		void resume();
 	};
@@ -55,9 +55,9 @@ namespace loongarch
 		bool      yield_to(int tid, bool store_retval = false, address_t retval = 0);
 		void      erase_thread(int tid);
 		void      wakeup_next();
-		bool      block(address_t retval, uint32_t reason, uint32_t extra = 0);
+		bool      block(address_t retval, address_t reason, uint32_t extra = 0);
 		void      unblock(int tid);
-		size_t    wakeup_blocked(size_t max, uint32_t reason, uint32_t mask = ~0U);
+		size_t    wakeup_blocked(size_t max, address_t reason, uint32_t mask = ~0U);
 		/* A suspended thread can at any time be resumed. */
 		auto&     suspended_threads() { return m_suspended; }
 		/* A blocked thread can only be resumed by unblocking it. */
-- 
2.43.0


From fa9a181f299483c76f863a44dc31fb8cc8f50d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 062/116] fix: a killed thread that was waiting was resumed
 after it had been freed

---
 lib/libloong/posix/threads.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index f750d47..ebf650e 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -162,6 +162,10 @@ Thread* MultiThreading::create(
 
 void MultiThreading::erase_thread(int tid)
 {
+	// The thread may be waiting, when another thread kills it
+	auto is_gone = [tid] (const Thread* t) { return t->tid == tid; };
+	m_suspended.erase(std::remove_if(m_suspended.begin(), m_suspended.end(), is_gone), m_suspended.end());
+	m_blocked.erase(std::remove_if(m_blocked.begin(), m_blocked.end(), is_gone), m_blocked.end());
 	m_threads.erase(tid);
 }
 
-- 
2.43.0


From f80be48e184501c71535f8ae236a82bb25562ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 063/116] fix: a main thread resumed from a futex wait was
 still listed as waiting

---
 lib/libloong/posix/threads.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index ebf650e..dc4f352 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -37,7 +37,9 @@ void MultiThreading::wakeup_next()
 		// resume next thread
 		next->resume();
 	} else {
+		// every thread is blocked: the main thread continues
 		auto* next = get_thread(0);
+		m_blocked.erase(std::remove(m_blocked.begin(), m_blocked.end(), next), m_blocked.end());
 		next->resume();
 	}
 }
-- 
2.43.0


From bddd0e45a5806aaebd5ae03bdba01535e94f6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 064/116] fix: set_tid_address truncated the address to 32 bits

---
 lib/libloong/linux/syscalls_threads.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index d844dc9..0c7253f 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -106,7 +106,7 @@ namespace loongarch
 		// set_tid_address
 		this->install_syscall_handler(96,
 		[](Machine& machine) {
-			const int clear_tid = machine.sysarg<address_t>(0);
+			const auto clear_tid = machine.sysarg<address_t>(0);
 			// With initialized threads
 			if (machine.has_threads()) {
 				machine.threads().get_thread()->clear_tid = clear_tid;
-- 
2.43.0


From da27c4284f42d976b9f534c3cb4d3b0b321b2cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 065/116] fix: thread exit cleared 8 bytes at the 4-byte
 clear_child_tid, and did not wake the waiter

---
 lib/libloong/posix/threads.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index dc4f352..1010a26 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -78,7 +78,9 @@ bool Thread::exit()
 	const int tid = this->tid;
 	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
 	if (this->clear_tid) {
-		threading.machine.memory.write<address_t>(this->clear_tid, 0);
+		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
+		// Wake up a thread that is waiting for this one, eg. pthread_join
+		thr.wakeup_blocked(1, this->clear_tid);
 	}
 	// Delete this thread (except main thread)
 	if (tid != 0) {
-- 
2.43.0


From da5570a8311dbd22ac7c5b21189df35053aa585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 066/116] fix: a futex wait that cannot be woken cleared 8
 bytes at the 4-byte futex

---
 lib/libloong/linux/syscalls_threads.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 0c7253f..a6d21cd 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -51,7 +51,7 @@ namespace loongarch
 					return;
 				}
 				// Deadlock - unlock and continue
-				machine.memory.write<address_t>(addr, 0);
+				machine.memory.write<uint32_t>(addr, 0);
 				machine.set_result(0);
 				return;
 			}
-- 
2.43.0


From 2bb3c82ffb3e9abb8bec0801d84b3910b6dae872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 067/116] fix: clone3 with set_tid made thread exit write to an
 address made of the thread ID

---
 lib/libloong/linux/syscalls_threads.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index a6d21cd..79b526f 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -6,6 +6,7 @@
 namespace loongarch
 {
 	// Error numbers
+	static constexpr int64_t LA_EPERM  = 1;
 	static constexpr int64_t LA_EINVAL = 22;
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOSPC = 28;
@@ -246,6 +247,12 @@ namespace loongarch
 				return;
 			}
 
+			if (args.set_tid_count > 0) {
+				// Choosing the thread ID is not permitted
+				machine.set_result(-LA_EPERM);
+				return;
+			}
+
 			const int  flags = args.flags;
 			const auto stack = args.stack + args.stack_size;
 			const auto  ptid = args.parent_tid;
@@ -262,12 +269,6 @@ namespace loongarch
 					stack, flags, parent->tid, ctid, ptid, tls);
 			auto* thread = machine.threads().create(flags, ctid, ptid, stack, tls, 0, 0);
 
-			if (args.set_tid_count > 0) {
-				address_t set_tid = 0;
-				machine.memory.copy_from_guest(&set_tid, args.set_tid_array, sizeof(set_tid));
-				thread->clear_tid = set_tid;
-			}
-
 			// store return value for parent: child TID
 			parent->suspend(thread->tid);
 			// activate and return 0 for the child
-- 
2.43.0


From c99563d6ba470cb1f359c01344c23857c0b72b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 068/116] fix: sched_yield and a failing futex wait left no
 result when no other thread could run

---
 lib/libloong/posix/threads.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 1010a26..6d1e5e9 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -182,6 +182,8 @@ bool MultiThreading::suspend_and_yield(long result)
 		wakeup_next();
 		return true;
 	}
+	// No other thread can run
+	machine.set_result(result);
 	return false;
 }
 
-- 
2.43.0


From 4763b1cc30fcb4439054f4b4cadd8a6721b903a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 069/116] fix: tgkill of another thread, or with signal zero,
 left no result

---
 lib/libloong/linux/syscalls_threads.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 79b526f..539b069 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -148,10 +148,20 @@ namespace loongarch
 				">>> tgkill on tid=%d signal=%d\n", tid, sig);
 			auto* thread = machine.threads().get_thread(tid);
 			if (thread != nullptr) {
+				// Signal zero only checks that the thread exists
+				if (sig == 0) {
+					machine.set_result(0);
+					return;
+				}
 				// If the signal is unhandled, exit the thread
-				if (sig != 0 && machine.sigaction(sig).is_unset()) {
-					if (!thread->exit())
+				if (machine.sigaction(sig).is_unset()) {
+					const bool exiting_myself = (thread == machine.threads().get_thread());
+					if (!thread->exit()) {
+						// Otherwise the registers belong to the next thread
+						if (!exiting_myself)
+							machine.set_result(0);
 						return;
+					}
 				} else {
 					// Jump to signal handler and change to altstack, if set
 					machine.signals().enter(machine, sig);
-- 
2.43.0


From 6d9129424717e8c12fb5511b590f5668f769e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 070/116] fix: mmap returned memory beyond the end of the arena

---
 lib/libloong/linux/syscalls.cpp | 11 ++++++++++-
 lib/libloong/memory.hpp         |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 1780252..e049829 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -14,6 +14,7 @@ namespace loongarch
 	static constexpr int64_t LA_EBADF = 9;
 	static constexpr int64_t LA_EINVAL = 22;
 	static constexpr int64_t LA_EAGAIN = 11;
+	static constexpr int64_t LA_ENOMEM = 12;
 	static constexpr int64_t LA_ENOTTY = 25;
 
 	// Syscall numbers (LoongArch Linux ABI)
@@ -592,8 +593,16 @@ namespace loongarch
 		auto [addr, length, prot, flags, fd, offset] =
 			machine.template sysargs<address_t, size_t, int, int, int, off_t>();
 
+		const address_t available = machine.memory.mmap_available();
+		const bool fixed = addr != 0 && (flags & 0x10) != 0x0;
+
 		// Simple implementation: allocate memory from our heap
-		if (addr == 0) {
+		if (length == 0) {
+			machine.set_result(-LA_EINVAL);
+		} else if (!fixed && (available < length || available < ((length + 4095) & ~size_t(4095)))) {
+			// Not enough memory left in the arena
+			machine.set_result(-LA_ENOMEM);
+		} else if (addr == 0) {
 			// Anonymous mapping - allocate new memory
 			auto new_addr = machine.memory.mmap_allocate(length);
 			machine.set_result(new_addr);
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 39cc22d..e210735 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -80,6 +80,7 @@ namespace loongarch
 		address_t brk_address() const noexcept { return m_brk_address; }
 		void set_brk_address(address_t addr) noexcept { m_brk_address = addr; }
 		address_t mmap_address() const noexcept { return m_mmap_address; }
+		size_t mmap_available() const noexcept { return m_arena_size > m_mmap_address ? m_arena_size - m_mmap_address : 0; }
 
 		// Statistics
 		size_t memory_usage_counter() const noexcept { return m_arena_size; }
-- 
2.43.0


From a29a7cc0153e179369a2f1cd31c7aba8f9a48565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 071/116] fix: a fixed mmap could extend into memory that is
 handed out by the next mmap

---
 lib/libloong/linux/syscalls.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index e049829..e5f6ab4 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -610,12 +610,13 @@ namespace loongarch
 			// no fixed flag - force into new allocation
 			auto new_addr = machine.memory.mmap_allocate(length);
 			machine.set_result(new_addr);
-		} else if (addr < machine.memory.mmap_address()) {
+		} else if (addr < machine.memory.mmap_address()
+			&& length <= machine.memory.mmap_address() - addr) {
 			// It's within the mmap region - allow
 			machine.set_result(addr);
 		} else {
 			// Fixed address mapping not supported for now
-			machine.set_result(-1);
+			machine.set_result(-LA_ENOMEM);
 		}
 
 		// Anonymous mapping: zero out the memory
-- 
2.43.0


From 32b2c350d91fdba0a5ad37375148aeb4cb5593f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 072/116] fix: munmap with an odd address or length made later
 mappings unaligned, or leaked the area

---
 lib/libloong/memory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index fb70609..b386c38 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -305,8 +305,12 @@ address_t Memory::mmap_allocate(size_t size)
 
 void Memory::mmap_deallocate(address_t addr, size_t size)
 {
+	// Areas consist of whole pages
+	if (size > ~size_t(0) - 4095 || (addr & 4095) != 0)
+		return;
+	size = (size + 4095) & ~size_t(4095);
 	// Allow relaxation of mmap area by moving m_mmap_address back
-	if (addr + size == this->m_mmap_address) {
+	if (size <= this->m_mmap_address && addr == this->m_mmap_address - size) {
 		this->m_mmap_address = addr;
 	}
 }
-- 
2.43.0


From eb01d41de87293a96b0c9d5690d4b2adabe30d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 073/116] fix: mmap returned the old contents of memory that
 was unmapped or mapped again

---
 lib/libloong/linux/syscalls.cpp | 10 +++-------
 lib/libloong/memory.cpp         |  3 +++
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index e5f6ab4..f4975ea 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -614,18 +614,14 @@ namespace loongarch
 			&& length <= machine.memory.mmap_address() - addr) {
 			// It's within the mmap region - allow
 			machine.set_result(addr);
+			if ((flags & 0x20) && addr >= machine.memory.data_start()) { // MAP_ANONYMOUS
+				machine.memory.memset(addr, 0, length);
+			}
 		} else {
 			// Fixed address mapping not supported for now
 			machine.set_result(-LA_ENOMEM);
 		}
 
-		// Anonymous mapping: zero out the memory
-		if (false && machine.template return_value<address_t>() != static_cast<address_t>(-1)) {
-			if (flags & 0x20) { // MAP_ANONYMOUS
-				machine.memory.memset(machine.template return_value<address_t>(), 0, length);
-			}
-		}
-
 		sysprint(machine, "mmap(addr=0x%llx, len=%llu, prot=0x%x, flags=0x%x, fd=%d, offset=%llu) = 0x%llx\n",
 			static_cast<uint64_t>(addr), static_cast<uint64_t>(length), prot, flags, fd,
 			static_cast<uint64_t>(offset),
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index b386c38..0c73b20 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -312,6 +312,9 @@ void Memory::mmap_deallocate(address_t addr, size_t size)
 	// Allow relaxation of mmap area by moving m_mmap_address back
 	if (size <= this->m_mmap_address && addr == this->m_mmap_address - size) {
 		this->m_mmap_address = addr;
+		// The area will be reused, and new mappings are zeroed
+		if (size > 0 && this->is_writable(addr, size))
+			std::memset(&this->m_arena[addr], 0, size);
 	}
 }
 
-- 
2.43.0


From d59dcff2769b8dc8f2bc07841345702d470c3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 074/116] fix: clock_gettime of an unknown clock copied
 uninitialized host memory to the guest

---
 lib/libloong/linux/syscalls.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index f4975ea..898df3e 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -240,7 +240,10 @@ namespace loongarch
 			machine.template sysargs<int, address_t>();
 		if (tp != 0) {
 			struct timespec ts;
-			clock_gettime(clockid, &ts);
+			if (clock_gettime(clockid, &ts) != 0) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			machine.memory.copy_to_guest(tp, &ts, sizeof(ts));
 		}
 		machine.set_result(0);
-- 
2.43.0


From 527bea4eb1c7e7ff321785e267169420b9c29bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 075/116] fix: sigaltstack copied uninitialized host memory to
 the guest, and lost a stack read from the place of the old one

---
 lib/libloong/linux/syscalls.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 898df3e..c9cdf3c 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -355,13 +355,26 @@ namespace loongarch
 
 		auto& stack = machine.signals().per_thread(machine.gettid()).stack;
 
-		// Return old stack if requested
-		if (old_ss != 0x0) {
-			machine.memory.copy_to_guest(old_ss, &stack, sizeof(stack));
-		}
+		// The guest structure, without any padding
+		struct kernel_sigaltstack {
+			address_t ss_sp;
+			int32_t   ss_flags;
+			int32_t   padding;
+			address_t ss_size;
+		};
+		const kernel_sigaltstack old_stack { stack.ss_sp, stack.ss_flags, 0, stack.ss_size };
+
 		// Set new stack if provided
 		if (ss != 0x0) {
-			machine.memory.copy_from_guest(&stack, ss, sizeof(stack));
+			kernel_sigaltstack new_stack;
+			machine.memory.copy_from_guest(&new_stack, ss, sizeof(new_stack));
+			stack.ss_sp    = new_stack.ss_sp;
+			stack.ss_flags = new_stack.ss_flags;
+			stack.ss_size  = new_stack.ss_size;
+		}
+		// Return old stack if requested
+		if (old_ss != 0x0) {
+			machine.memory.copy_to_guest(old_ss, &old_stack, sizeof(old_stack));
 		}
 		machine.set_result(0);
 		sysprint(machine, "sigaltstack(ss=0x%llx, old_ss=0x%llx) = 0\n",
-- 
2.43.0


From 10c67fe28f70963e1172005dabfe7e89e0c6bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 076/116] fix: sigaction returned a default handler as an
 address, so that restoring it installed a wild handler

---
 lib/libloong/linux/syscalls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index c9cdf3c..2af6099 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -401,7 +401,7 @@ namespace loongarch
 
 		// Return old action if requested
 		if (old_action != 0x0) {
-			sa.sa_handler = sigact.handler & ~address_t(0x3);
+			sa.sa_handler = sigact.is_unset() ? 0x0 : (sigact.handler & ~address_t(0x3));
 			sa.sa_flags   = (sigact.altstack ? LINUX_SA_ONSTACK : 0x0);
 			sa.sa_restorer = 0;
 			sa.sa_mask    = sigact.mask;
-- 
2.43.0


From f5fa73871ab8dd1330a1ad4e23d14281ce98f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 077/116] fix: sigaction truncated the signal mask to 32 bits

---
 lib/libloong/posix/signals.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/posix/signals.hpp b/lib/libloong/posix/signals.hpp
index c09902b..df790fe 100644
--- a/lib/libloong/posix/signals.hpp
+++ b/lib/libloong/posix/signals.hpp
@@ -28,7 +28,7 @@ namespace loongarch
 
 		address_t handler = SIG_UNSET;  // Handler address
 		bool altstack = false;          // Use alternate stack?
-		unsigned mask = 0x0;            // Signal mask
+		uint64_t mask = 0x0;            // Signal mask
 	};
 
 	// Signal return state (stores registers for return)
-- 
2.43.0


From 069eaa66181f0e4a867eaf6b6464a518b674e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 078/116] fix: sigaction of signal zero changed signal one, and
 of other invalid signals ended the guest

---
 lib/libloong/linux/syscalls.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 2af6099..31d904a 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -387,6 +387,10 @@ namespace loongarch
 		const auto action = machine.sysarg(1);
 		const auto old_action = machine.sysarg(2);
 
+		if (sig < 1 || sig > 64) {
+			machine.set_result(-LA_EINVAL);
+			return;
+		}
 		auto& sigact = machine.sigaction(sig);
 
 		// Kernel sigaction structure (64-bit)
-- 
2.43.0


From 67da4c91d7806c3b3bbf726582dd45b15d7138cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 079/116] fix: signal handlers received zero instead of the
 signal number

---
 lib/libloong/linux/syscalls.cpp | 2 --
 lib/libloong/posix/signals.cpp  | 3 +++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 31d904a..03a28df 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -446,7 +446,6 @@ namespace loongarch
 
 		// Jump to signal handler and change to altstack, if set
 		machine.signals().enter(machine, sig);
-		machine.set_result(0);
 	}
 
 	static void syscall_tgkill(Machine& machine)
@@ -476,7 +475,6 @@ namespace loongarch
 
 		// Jump to signal handler and change to altstack, if set
 		machine.signals().enter(machine, sig);
-		machine.set_result(0);
 	}
 
 	static void syscall_brk(Machine& machine)
diff --git a/lib/libloong/posix/signals.cpp b/lib/libloong/posix/signals.cpp
index fe59858..bf37a73 100644
--- a/lib/libloong/posix/signals.cpp
+++ b/lib/libloong/posix/signals.cpp
@@ -30,6 +30,9 @@ namespace loongarch
 			machine.cpu.reg(REG_SP) = stack.ss_sp + stack.ss_size;
 		}
 
+		// The first argument is the signal number
+		machine.cpu.reg(REG_A0) = sig;
+
 		// Jump to handler
 		machine.cpu.jump(sigact.handler-4);
 	}
-- 
2.43.0


From e2c33d64a9ba4c4543578ff769abc0f7e2b9e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 080/116] fix: writev skipped buffers of one megabyte or more

---
 lib/libloong/linux/syscalls.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 03a28df..7cc9e2f 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -119,8 +119,7 @@ namespace loongarch
 				auto base = machine.memory.template read<address_t>(iovec_offset);
 				auto len = machine.memory.template read<address_t>(iovec_offset + sizeof(address_t));
 
-				// Sanity check on length
-				if (len > 0 && len < 1024 * 1024) {
+				if (len > 0) {
 					const char* view = machine.memory.template memarray<char>(base, len);
 					machine.print(view, len);
 					total += len;
-- 
2.43.0


From f0249a33b9234b83b57bdd6d87a076d899baf7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 081/116] fix: write to an unknown file descriptor failed with
 EPERM instead of EBADF

---
 lib/libloong/linux/syscalls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 7cc9e2f..4767c8f 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -93,7 +93,7 @@ namespace loongarch
 			machine.print(view, len);
 			machine.set_result(len);
 		} else {
-			machine.set_result(-1);
+			machine.set_result(-LA_EBADF);
 		}
 		sysprint(machine, "write(fd=%d, buf=0x%llx, count=%llu) = %d\n",
 			fd,
@@ -127,7 +127,7 @@ namespace loongarch
 			}
 			machine.set_result(total);
 		} else {
-			machine.set_result(-1);
+			machine.set_result(-LA_EBADF);
 		}
 		sysprint(machine, "writev(fd=%d, iov=0x%llx, iovcnt=%llu) = %d\n",
 			fd,
-- 
2.43.0


From 7c544e8302a2865268a87a9a55c7e1b23f86ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 082/116] fix: ppoll reported events, but zero ready file
 descriptors

---
 lib/libloong/linux/syscalls.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 4767c8f..f6a0f28 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -710,6 +710,7 @@ namespace loongarch
 			short revents;
 		};
 		vpollfd* fds = machine.memory.template writable_memarray<vpollfd>(fds_addr, nfds);
+		size_t ready = 0;
 		for (size_t i = 0; i < nfds; i++) {
 			const int fd = fds[i].fd;
 			// Only handle stdio fds
@@ -717,13 +718,14 @@ namespace loongarch
 				// Set revents to match events (ready)
 				auto events = fds[i].events;
 				fds[i].revents = events;
+				if (events != 0) ready++;
 			} else {
 				// Clear revents for other fds
 				fds[i].revents = 0;
 			}
 		}
-		// Mark stdio as ready (stub)
-		machine.set_result(0);
+		// The number of ready file descriptors
+		machine.set_result(ready);
 	}
 
 	void Machine::setup_linux_syscalls()
-- 
2.43.0


From 432425f62e73e521f9a7411cffc2be754e1a2836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:35 +0000
Subject: [PATCH 083/116] fix: sigaction used a structure with sa_restorer,
 which LoongArch does not have, so that masks were lost

---
 lib/libloong/linux/syscalls.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index f6a0f28..ea6c934 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -392,11 +392,10 @@ namespace loongarch
 		}
 		auto& sigact = machine.sigaction(sig);
 
-		// Kernel sigaction structure (64-bit)
+		// Kernel sigaction structure (LoongArch has no sa_restorer)
 		struct kernel_sigaction {
 			address_t sa_handler;
 			address_t sa_flags;
-			address_t sa_restorer;
 			address_t sa_mask;
 		};
 
@@ -406,7 +405,6 @@ namespace loongarch
 		if (old_action != 0x0) {
 			sa.sa_handler = sigact.is_unset() ? 0x0 : (sigact.handler & ~address_t(0x3));
 			sa.sa_flags   = (sigact.altstack ? LINUX_SA_ONSTACK : 0x0);
-			sa.sa_restorer = 0;
 			sa.sa_mask    = sigact.mask;
 			machine.memory.copy_to_guest(old_action, &sa, sizeof(sa));
 		}
-- 
2.43.0


From 6e2d041e736fec22c86b8d05609fc7bab291336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:03 +0000
Subject: [PATCH 084/116] fix: reserved instruction words were executed as
 similar instructions

---
 lib/libloong/la64.cpp | 87 ++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 47 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 05003d0..5e78ea9 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -438,6 +438,12 @@ namespace loongarch
 	INSTRUCTION(FSTX_S);
 
 	// Decode function
+	// The condition codes of floating-point comparisons
+	static constexpr bool is_fcmp_condition(uint32_t cond)
+	{
+		return cond < 0x12 || cond == 0x14 || cond == 0x15 || cond == 0x18 || cond == 0x19;
+	}
+
 	const CPU::instruction_t& CPU::decode(format_t instr)
 	{
 		uint32_t opcode = instr.whole & 0xFC000000;
@@ -531,11 +537,11 @@ namespace loongarch
 			// Shift immediate instructions (use bits[31:16])
 			{
 				uint32_t op16 = (instr.whole >> 16) & 0xFFFF;
-				if (op16 == 0x0040) return DECODED_INSTR(SLLI_W);
+				if (instr.whole >> 15 == 0x0081) return DECODED_INSTR(SLLI_W);
 				if (op16 == 0x0041) return DECODED_INSTR(SLLI_D);
-				if (op16 == 0x0044) return DECODED_INSTR(SRLI_W);
+				if (instr.whole >> 15 == 0x0089) return DECODED_INSTR(SRLI_W);
 				if (op16 == 0x0045) return DECODED_INSTR(SRLI_D);
-				if (op16 == 0x0048) return DECODED_INSTR(SRAI_W);
+				if (instr.whole >> 15 == 0x0091) return DECODED_INSTR(SRAI_W);
 				if (op16 == 0x0049) return DECODED_INSTR(SRAI_D);
 				// ROTRI.D uses bits[31:16] for opcode (16-bit opcode = 0x004D)
 				if (op16 == 0x004D) return DECODED_INSTR(ROTRI_D);
@@ -600,15 +606,15 @@ namespace loongarch
 				// MOVGR2FR.D: bits[31:10] = 0x452A
 				if (op22_val == 0x452A) return DECODED_INSTR(MOVGR2FR_D);
 				// MOVFCSR2GR: bits[31:10] = 0x4532
-				if (op22_val == 0x4532) return DECODED_INSTR(MOVFCSR2GR);
+				if (op22_val == 0x4532 && (instr.whole & 0x380) == 0) return DECODED_INSTR(MOVFCSR2GR);
 				// MOVFR2CF: bits[31:10] = 0x4534
-				if (op22_val == 0x4534) return DECODED_INSTR(MOVFR2CF);
+				if (op22_val == 0x4534 && (instr.whole & 0x18) == 0) return DECODED_INSTR(MOVFR2CF);
 				// MOVCF2FR: bits[31:10] = 0x4535
-				if (op22_val == 0x4535) return DECODED_INSTR(MOVCF2FR);
+				if (op22_val == 0x4535 && (instr.whole & 0x300) == 0) return DECODED_INSTR(MOVCF2FR);
 				// MOVGR2CF: bits[31:10] = 0x4536
-				if (op22_val == 0x4536) return DECODED_INSTR(MOVGR2CF);
+				if (op22_val == 0x4536 && (instr.whole & 0x18) == 0) return DECODED_INSTR(MOVGR2CF);
 				// MOVCF2GR: bits[31:10] = 0x4537
-				if (op22_val == 0x4537) return DECODED_INSTR(MOVCF2GR);
+				if (op22_val == 0x4537 && (instr.whole & 0x300) == 0) return DECODED_INSTR(MOVCF2GR);
 				// FABS.D: bits[31:10] = 0x4502
 				if (op22_val == 0x4502) return DECODED_INSTR(FABS_D);
 				// FABS.S: bits[31:10] = 0x4501
@@ -730,28 +736,15 @@ namespace loongarch
 		// FSEL: FP conditional select - bits[31:18] = 0x0340
 		if (((instr.whole >> 18) & 0x3FFF) == 0x0340) return DECODED_INSTR(FSEL);
 
-		// FCMP instructions: bits[31:22] = 0x030, bit 21 determines S vs D, bits[19:15] = condition code
-		{
-			uint32_t op10 = (instr.whole >> 22) & 0x3FF;
-			if (op10 == 0x030) {
-				// Bit 21: 0 = single precision (.s), 1 = double precision (.d)
-				bool is_double = (instr.whole >> 21) & 1;
-				return is_double ? DECODED_INSTR(FCMP_COND_D) : DECODED_INSTR(FCMP_COND_S);
-			}
-		}
-		// VFCMP instructions: bits[31:21] = 0x063, bits[20:15] = condition code
-		{
-			uint32_t op11 = (instr.whole >> 21) & 0x7FF;
-			if (op11 == 0x063) {
-				return DECODED_INSTR(VFCMP_COND_D);
-			}
-		}
-		// XVFCMP instructions: bits[31:21] = 0x065, bits[20:15] = condition code (LASX)
-		{
-			uint32_t op11 = (instr.whole >> 21) & 0x7FF;
-			if (op11 == 0x065) {
-				return DECODED_INSTR(XVFCMP_COND_D);
-			}
+		// Floating-point comparisons: bits[31:20] = opcode, bits[19:15] = condition code
+		if (is_fcmp_condition((instr.whole >> 15) & 0x1F)) {
+			const uint32_t op12 = (instr.whole >> 20) & 0xFFF;
+			// FCMP: bits[4:3] are zero, as there are 8 condition flags
+			if (op12 == 0x0C1 && (instr.whole & 0x18) == 0) return DECODED_INSTR(FCMP_COND_S);
+			if (op12 == 0x0C2 && (instr.whole & 0x18) == 0) return DECODED_INSTR(FCMP_COND_D);
+			// VFCMP.D (LSX) and XVFCMP.D (LASX)
+			if (op12 == 0x0C6) return DECODED_INSTR(VFCMP_COND_D);
+			if (op12 == 0x0CA) return DECODED_INSTR(XVFCMP_COND_D);
 		}
 			break;
 
@@ -867,27 +860,27 @@ namespace loongarch
 			if ((instr.whole & 0xFFFF8000) == 0x38240000) return DECODED_INSTR(LDX_HU);
 			if ((instr.whole & 0xFFFF8000) == 0x38280000) return DECODED_INSTR(LDX_WU);
 
-			// STX instructions: bits [31:18] identify the operation
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_B) return DECODED_INSTR(STX_B);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_H) return DECODED_INSTR(STX_H);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_W) return DECODED_INSTR(STX_W);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_D) return DECODED_INSTR(STX_D);
+			// STX instructions: bits [31:15] identify the operation
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_B) return DECODED_INSTR(STX_B);
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_H) return DECODED_INSTR(STX_H);
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_W) return DECODED_INSTR(STX_W);
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_D) return DECODED_INSTR(STX_D);
 			// FLDX_D: Floating-point indexed load (double)
-			if ((instr.whole & 0xFFFC0000) == 0x38340000) return DECODED_INSTR(FLDX_D);
+			if ((instr.whole & 0xFFFF8000) == 0x38340000) return DECODED_INSTR(FLDX_D);
 			// FLDX_S: Floating-point indexed load (single) - 0x38300000
-			if ((instr.whole & 0xFFFC0000) == 0x38300000) return DECODED_INSTR(FLDX_S);
+			if ((instr.whole & 0xFFFF8000) == 0x38300000) return DECODED_INSTR(FLDX_S);
 			// FSTX_D: Floating-point indexed store
-			if ((instr.whole & 0xFFFC0000) == Opcode::FSTX_D) return DECODED_INSTR(FSTX_D);
+			if ((instr.whole & 0xFFFF8000) == Opcode::FSTX_D) return DECODED_INSTR(FSTX_D);
 			// FSTX_S: Floating-point indexed store (single) - 0x38380000
-			if ((instr.whole & 0xFFFC0000) == 0x38380000) return DECODED_INSTR(FSTX_S);
+			if ((instr.whole & 0xFFFF8000) == 0x38380000) return DECODED_INSTR(FSTX_S);
 			// VLDX: Vector indexed load (LSX 128-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38400000) return DECODED_INSTR(VLDX);
+			if ((instr.whole & 0xFFFF8000) == 0x38400000) return DECODED_INSTR(VLDX);
 			// VSTX: Vector indexed store (LSX 128-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38440000) return DECODED_INSTR(VSTX);
+			if ((instr.whole & 0xFFFF8000) == 0x38440000) return DECODED_INSTR(VSTX);
 			// XVLDX: Vector indexed load (LASX 256-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38480000) return DECODED_INSTR(XVLDX);
+			if ((instr.whole & 0xFFFF8000) == 0x38480000) return DECODED_INSTR(XVLDX);
 			// XVSTX: Vector indexed store (LASX 256-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x384C0000) return DECODED_INSTR(XVSTX);
+			if ((instr.whole & 0xFFFF8000) == 0x384C0000) return DECODED_INSTR(XVSTX);
 
 			// Atomic instructions: bits [31:20] = 0x386
 			// Empirical encoding: bits[19:16] encode both operation and ordering
@@ -1039,9 +1032,9 @@ namespace loongarch
 				}
 				if (top16 == 0x729C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x28) return DECODED_INSTR(VSETANYEQZ_B);
+					if (subop == 0x28 && (instr.whole & 0x18) == 0) return DECODED_INSTR(VSETANYEQZ_B);
 					if (subop == 0x18) return DECODED_INSTR(VMSKNZ_B);
-					if (subop == 0x2C) return DECODED_INSTR(VSETALLNEZ_B);
+					if (subop == 0x2C && (instr.whole & 0x18) == 0) return DECODED_INSTR(VSETALLNEZ_B);
 				}
 				// VREPLGR2VR: 0x729F0xxx
 				// .B (subop=0x00), .H (subop=0x01), .W (subop=0x02), .D (subop=0x03)
@@ -1221,8 +1214,8 @@ namespace loongarch
 				if (top16 == 0x769C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x18) return DECODED_INSTR(XVMSKNZ_B);
-					if (subop == 0x28) return DECODED_INSTR(XVSETANYEQZ_B);
-					if (subop == 0x26) return DECODED_INSTR(XVSETEQZ_V);
+					if (subop == 0x28 && (instr.whole & 0x18) == 0) return DECODED_INSTR(XVSETANYEQZ_B);
+					if (subop == 0x26 && (instr.whole & 0x18) == 0) return DECODED_INSTR(XVSETEQZ_V);
 				}
 				// XVREPLGR2VR.B: 0x769F0xxx (bits[31:16] = 0x769F, bits[15:10] = 0x00)
 				if (top16 == 0x769F) {
-- 
2.43.0


From b230d9a79fdaa95239c716f6f92f536a7974b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:39 +0000
Subject: [PATCH 085/116] fix: disassembly numbered temporary and saved
 floating-point registers as $fa8..31

---
 lib/libloong/la_instr_printers.hpp | 106 ++++++++++++++---------------
 1 file changed, 53 insertions(+), 53 deletions(-)

diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index 37948db..9932939 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -490,23 +490,23 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	}
 
 	static int FLDX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fldx.d $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fldx.d %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FLDX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fldx.s $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fldx.s %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FSTX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fstx.d $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fstx.d %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FSTX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fstx.s $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fstx.s %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int VLDX(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
@@ -1002,25 +1002,25 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	static int MOVFR2GR_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2gr.s %s, $fa%u", reg_name(rd), fj);
+		return snprintf(buf, len, "movfr2gr.s %s, %s", reg_name(rd), flreg_name(fj));
 	}
 
 	static int MOVFR2GR_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2gr.d %s, $fa%u", reg_name(rd), fj);
+		return snprintf(buf, len, "movfr2gr.d %s, %s", reg_name(rd), flreg_name(fj));
 	}
 
 	static int MOVGR2FR_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t rj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movgr2fr.w $fa%u, %s", fd, reg_name(rj));
+		return snprintf(buf, len, "movgr2fr.w %s, %s", flreg_name(fd), reg_name(rj));
 	}
 
 	static int MOVGR2FR_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t rj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movgr2fr.d $fa%u, %s", fd, reg_name(rj));
+		return snprintf(buf, len, "movgr2fr.d %s, %s", flreg_name(fd), reg_name(rj));
 	}
 
 	static int MOVFCSR2GR(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1032,13 +1032,13 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	static int MOVFR2CF(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t cd = instr.whole & 0x7;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2cf $fcc%u, $fa%u", cd, fj);
+		return snprintf(buf, len, "movfr2cf $fcc%u, %s", cd, flreg_name(fj));
 	}
 
 	static int MOVCF2FR(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		return snprintf(buf, len, "movcf2fr $fa%u, $fcc%u", fd, cj);
+		return snprintf(buf, len, "movcf2fr %s, $fcc%u", flreg_name(fd), cj);
 	}
 
 	static int MOVGR2CF(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1068,7 +1068,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		const uint32_t cond = (instr.whole >> 15) & 0x1F;
 		const char* mnemonic = cond_names(cond);
-		return snprintf(buf, len, "fcmp.%s.s $fcc%u, $fa%u, $fa%u", mnemonic, cd, fj, fk);
+		return snprintf(buf, len, "fcmp.%s.s $fcc%u, %s, %s", mnemonic, cd, flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FCMP_COND_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1077,7 +1077,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		const uint32_t cond = (instr.whole >> 15) & 0x1F;
 		const char* mnemonic = cond_names(cond);
-		return snprintf(buf, len, "fcmp.%s.d $fcc%u, $fa%u, $fa%u", mnemonic, cd, fj, fk);
+		return snprintf(buf, len, "fcmp.%s.d $fcc%u, %s, %s", mnemonic, cd, flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FSEL(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1085,37 +1085,37 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		uint32_t ca = (instr.whole >> 15) & 0x7;
-		return snprintf(buf, len, "fsel $fa%u, $fa%u, $fa%u, $fcc%u", fd, fj, fk, ca);
+		return snprintf(buf, len, "fsel %s, %s, %s, $fcc%u", flreg_name(fd), flreg_name(fj), flreg_name(fk), ca);
 	}
 
 	static int FABS_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fabs.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fabs.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FABS_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fabs.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fabs.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FNEG_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fneg.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fneg.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FMOV_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fmov.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fmov.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FMOV_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fmov.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fmov.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FCLASS(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1124,151 +1124,151 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
 		// Extract size from opcode: bit[10] (0=d, 1=s)
 		uint32_t size_idx = (instr.whole >> 10) & 0x1;
-		return snprintf(buf, len, "fclass.%c $fa%u, $fa%u", sizes[size_idx], fd, fj);
+		return snprintf(buf, len, "fclass.%c %s, %s", sizes[size_idx], flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_D_L(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.d.l $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.d.l %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_D_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.d.w $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.d.w %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_S_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.s.w $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.s.w %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_S_L(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.s.l $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.s.l %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FCVT_S_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fcvt.s.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fcvt.s.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FCVT_D_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fcvt.d.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fcvt.d.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_W_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.w.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.w.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_W_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.w.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.w.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_L_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.l.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.l.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_L_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.l.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.l.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fadd.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fadd.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fadd.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fadd.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMUL_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmul.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmul.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMUL_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmul.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmul.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fsub.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fsub.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fsub.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fsub.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FDIV_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fdiv.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fdiv.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FDIV_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fdiv.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fdiv.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMAX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmax.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmax.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMIN_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmin.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmin.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMAX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmax.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmax.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMIN_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmin.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmin.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1276,7 +1276,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmsub.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmsub.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FMADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1284,7 +1284,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmadd.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmadd.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1292,7 +1292,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmadd.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmadd.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FMSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1300,7 +1300,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmsub.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmsub.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1308,7 +1308,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmadd.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmadd.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1316,7 +1316,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmadd.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmadd.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1324,7 +1324,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmsub.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmsub.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1332,7 +1332,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmsub.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmsub.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int VFRSTPI_B(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
-- 
2.43.0


From 0a886a27e98c16bad226091dc65844c3514f76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:39 +0000
Subject: [PATCH 086/116] fix: vpickve2gr of bytes and halfwords was
 disassembled without its size

---
 lib/libloong/la_instr_printers.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index 9932939..cc2a527 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -1368,17 +1368,19 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t top16 = (instr.whole >> 16) & 0xFFFF;
-		uint32_t subop = (instr.whole >> 12) & 0xF;
+		uint32_t subop = (instr.whole >> 10) & 0x3F;
 
-		// Determine size suffix and immediate width
+		// Determine size suffix and immediate width from the leading ones
 		const char* size_suffix;
 		uint32_t imm_mask;
-		switch (subop) {
-			case 0x8: size_suffix = (top16 == 0x72EF) ? ".b" : ".bu"; imm_mask = 0xF; break;
-			case 0xC: size_suffix = (top16 == 0x72EF) ? ".h" : ".hu"; imm_mask = 0x7; break;
-			case 0xE: size_suffix = (top16 == 0x72EF) ? ".w" : ".wu"; imm_mask = 0x3; break;
-			case 0xF: size_suffix = (top16 == 0x72EF) ? ".d" : ".du"; imm_mask = 0x1; break;
-			default: size_suffix = ".?"; imm_mask = 0xF; break;
+		if (subop < 0x30) {
+			size_suffix = (top16 == 0x72EF) ? ".b" : ".bu"; imm_mask = 0xF;
+		} else if (subop < 0x38) {
+			size_suffix = (top16 == 0x72EF) ? ".h" : ".hu"; imm_mask = 0x7;
+		} else if (subop < 0x3C) {
+			size_suffix = (top16 == 0x72EF) ? ".w" : ".wu"; imm_mask = 0x3;
+		} else {
+			size_suffix = (top16 == 0x72EF) ? ".d" : ".du"; imm_mask = 0x1;
 		}
 
 		uint32_t imm = (instr.whole >> 10) & imm_mask;
-- 
2.43.0


From 5873d86a5f40f931dad4e227a01ad0829266f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:39 +0000
Subject: [PATCH 087/116] fix: xvreplve.d was disassembled with its operands
 exchanged

---
 lib/libloong/la_instr_printers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index cc2a527..20a885e 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -1896,7 +1896,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
-		return snprintf(buf, len, "xvreplve.d $xr%u, $xr%u, $r%u", xd, xk, xj);
+		return snprintf(buf, len, "xvreplve.d $xr%u, $xr%u, %s", xd, xj, reg_name(xk));
 	}
 
 	static int XVFMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
-- 
2.43.0


From f384e43bd2f20429ff8a0b2085e93b42ccd9d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 088/116] fix: tail-call dispatch repeated system calls which
 change the PC or stop the machine

---
 lib/libloong/tailcall_dispatch.cpp            | 8 ++++----
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index d32ee6c..bfca0e0 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -139,13 +139,13 @@ namespace loongarch
 		cpu.machine().system_call(cpu.reg(REG_A7));
 		// Restore counters
 		counter.retrieve_counters(MACHINE());
-		// System calls can change PC
-		if (LA_UNLIKELY(pc != cpu.registers().pc))
+		// System calls can change PC and stop the machine
+		if (LA_UNLIKELY(counter.max() == 0 || pc != cpu.registers().pc))
 		{
-			pc = cpu.registers().pc;
+			pc = cpu.registers().pc + 4;
 			OVERFLOW_CHECKED_JUMP();
 		}
-		NEXT_BLOCK(4);
+		NEXT_BLOCK_UNCHECKED(4);
 	}
 
 	INSTRUCTION(LA64_BC_FUNCBLOCK, execute_function_block)
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index b34fc28..d3fda17 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -122,11 +122,11 @@ namespace loongarch
 		// Invoke system call
 		cpu.machine().system_call(cpu.reg(REG_A7));
 		if (LA_UNLIKELY(cpu.machine().max_instructions() == 0))
-			return RETURN_VALUES();
+			return cpu.registers().pc + 4;
 		// System calls can change PC
 		if (LA_UNLIKELY(pc != cpu.registers().pc))
 		{
-			pc = cpu.registers().pc;
+			pc = cpu.registers().pc + 4;
 			UNCHECKED_JUMP();
 		}
 		NEXT_BLOCK_UNCHECKED(4);
-- 
2.43.0


From 501a2f51a1d1dbbf994e5e08e440547554eba643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 089/116] fix: tail-call dispatch did not report that the
 instruction limit ended execution

---
 lib/libloong/tailcall_dispatch.cpp            | 4 ++++
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index bfca0e0..c9e86a6 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -126,6 +126,8 @@ namespace loongarch
 	{
 		pc = RECONSTRUCT_PC() + 4; // Complete STOP instruction
 		counter.stop();
+		// Completed, so the instruction limit was not what ended it
+		MACHINE().set_max_instructions(UINT64_MAX);
 		return RETURN_VALUES();
 	}
 
@@ -178,6 +180,7 @@ namespace loongarch
 	INSTRUCTION(0, next_execute_segment)
 	{
 		// Helper function to change execute segment
+		cpu.registers().pc = pc;
 		exec = resolve_execute_segment(cpu, pc);
 		d = exec->pc_relative_decoder_cache(pc);
 		BEGIN_BLOCK();
@@ -203,6 +206,7 @@ namespace loongarch
 	bool CPU::simulate(address_t pc, uint64_t inscounter, uint64_t maxcounter)
 	{
 		InstrCounter counter{inscounter, maxcounter};
+		machine().set_max_instructions(maxcounter);
 
 		auto* exec = this->m_exec;
 
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index d3fda17..308c969 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -161,6 +161,7 @@ namespace loongarch
 	INSTRUCTION(0, next_execute_segment)
 	{
 		// Helper function to change execute segment
+		cpu.registers().pc = pc;
 		exec = resolve_execute_segment(cpu, pc);
 		d = exec->pc_relative_decoder_cache(pc);
 		BEGIN_BLOCK();
-- 
2.43.0


From 6e4c63db8d4bbb26df137d5a327ad0535f201e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:57 +0000
Subject: [PATCH 090/116] fix: emulator took the options of the guest program
 for its own

---
 emulator/src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 01d7ce0..492dfbb 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -323,7 +323,8 @@ static EmulatorOptions parse_arguments(int argc, char* argv[])
 	};
 
 	int opt;
-	while ((opt = getopt_long(argc, argv, "hvstf:m:nTO:", long_options, nullptr)) != -1) {
+	// Options end at the program: what follows are its own arguments
+	while ((opt = getopt_long(argc, argv, "+hvstf:m:nTO:", long_options, nullptr)) != -1) {
 		switch (opt) {
 		case 'h':
 			print_help(argv[0]);
-- 
2.43.0


From d93b1e0b22623bd0cc0a95b34a79cdc025b5e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:57 +0000
Subject: [PATCH 091/116] fix: emulator reported success for a program that it
 cannot run

---
 emulator/src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 492dfbb..bb01ad7 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -485,6 +485,7 @@ int main(int argc, char* argv[])
 		// Run program with detected architecture
 		if (is_32bit) {
 			fprintf(stderr, "Error: 32-bit LoongArch is not supported!\n");
+			return 1;
 		} else { // is_64bit
 			return run_program(binary, opts);
 		}
-- 
2.43.0


From 8bb76966d317de4d52b460eab994eb10d20813f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:57 +0000
Subject: [PATCH 092/116] fix: emulator crashed when its memory could not be
 allocated

---
 emulator/src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index bb01ad7..54f7338 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -136,6 +136,9 @@ static int run_program(const std::vector<uint8_t>& binary, const EmulatorOptions
 	void* arena_ptr = _aligned_malloc(custom_arena.total_size, 4096u);
 #else
 	void* arena_ptr = mmap(nullptr, custom_arena.total_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+	if (arena_ptr == MAP_FAILED) {
+		arena_ptr = nullptr;
+	}
 #endif
 	if (!arena_ptr) {
 		throw std::runtime_error("Failed to allocate custom arena with aligned_alloc");
-- 
2.43.0


From 372b4333a959dc99f5db2314bba7c9ac408e0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 093/116] fix: reset of a donated arena kept its contents or
 cleared memory behind it

---
 lib/libloong/memory.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 0c73b20..f6b06a0 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -439,7 +439,12 @@ void Memory::reset()
 {
 	if (m_arena) {
 #ifdef MADV_DONTNEED
-		madvise(m_arena, m_arena_size, MADV_DONTNEED);
+		// A donated arena may be of any kind of memory, and share pages
+		// with something else
+		if (m_arena_is_custom)
+			std::memset(m_arena, 0, m_arena_size);
+		else
+			madvise(m_arena, m_arena_size, MADV_DONTNEED);
 #else
 		std::memset(m_arena, 0, m_arena_size);
 #endif
-- 
2.43.0


From c02e8ef8e7ab500cf5cb772028469c217b2cddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 094/116] fix: reset kept the over-allocated bytes that
 accesses at the end of memory reach

---
 lib/libloong/memory.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index f6b06a0..73559f3 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -438,15 +438,17 @@ void Memory::evict_execute_segments()
 void Memory::reset()
 {
 	if (m_arena) {
+		// Accesses at the end of the arena may reach the over-allocated bytes
+		const size_t size = m_arena_size + LA_OVER_ALLOCATE_SIZE;
 #ifdef MADV_DONTNEED
 		// A donated arena may be of any kind of memory, and share pages
 		// with something else
 		if (m_arena_is_custom)
-			std::memset(m_arena, 0, m_arena_size);
+			std::memset(m_arena, 0, size);
 		else
-			madvise(m_arena, m_arena_size, MADV_DONTNEED);
+			madvise(m_arena, size, MADV_DONTNEED);
 #else
-		std::memset(m_arena, 0, m_arena_size);
+		std::memset(m_arena, 0, size);
 #endif
 	}
 	evict_execute_segments();
-- 
2.43.0


From 9af6f00db0cdd7f261f3a4c098ab2632b45d5249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 095/116] fix: translated code could store far beyond the end
 of guest memory

---
 lib/libloong/tr_emit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 02af911..08145b9 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -292,7 +292,7 @@ struct Emitter
 		// to allow for accesses that slightly exceed the allocated size
 		add_code("  if ((" + addr + ") < " +
 			hex_address(tinfo.arena_datastart) + " || (" + addr + ") >= " +
-			hex_address(tinfo.arena_ptr + tinfo.arena_size) + ")");
+			hex_address(tinfo.arena_size) + ")");
 		add_code("    return api.exception(cpu, " + hex_address(pc()) + "ULL, " + addr + ", 2);");
 	}
 
-- 
2.43.0


From 7e71cca39866133279715f3b16fd3179fa913c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 096/116] fix: translated DIV and MOD of the lowest value by -1
 killed the host, or gave 0

---
 lib/libloong/tr_api.cpp  | 4 ++--
 lib/libloong/tr_emit.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/tr_api.cpp b/lib/libloong/tr_api.cpp
index c9f6134..57a21a1 100644
--- a/lib/libloong/tr_api.cpp
+++ b/lib/libloong/tr_api.cpp
@@ -38,10 +38,10 @@ namespace loongarch {
 #endif
 
 #ifndef INT64_MIN
-#define INT64_MIN  0x8000000000000000LL
+#define INT64_MIN  (-0x7FFFFFFFFFFFFFFFLL - 1)
 #endif
 #ifndef INT32_MIN
-#define INT32_MIN  0x80000000L
+#define INT32_MIN  (-0x7FFFFFFF - 1)
 #endif
 
 #define LIKELY(x) __builtin_expect((x), 1)
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 08145b9..f525895 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1030,7 +1030,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int32_t a = (int32_t)" + emit.reg(instr.r3.rj) +
 					", b = (int32_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT32_MIN && b == -1)) ? (int64_t)(a / b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b == 0) ? 0 : (a == INT32_MIN && b == -1) ? (int64_t)a : (int64_t)(a / b); }");
 			}
 			break;
 		case InstrId::MOD_W:
@@ -1058,7 +1058,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int64_t a = (int64_t)" + emit.reg(instr.r3.rj) +
 					", b = (int64_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT64_MIN && b == -1)) ? (a / b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b == 0) ? 0 : (a == INT64_MIN && b == -1) ? a : (a / b); }");
 			}
 			break;
 		case InstrId::MOD_D:
-- 
2.43.0


From ce4eca0893e579fddcd043fb25cc6b08aab549ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 097/116] fix: translated code kept what instructions without a
 translation wrote to the zero register

---
 lib/libloong/tr_emit.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index f525895..377daa0 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -423,6 +423,9 @@ struct Emitter
 		}
 		const uintptr_t handler_func = reinterpret_cast<uintptr_t>(instr.handler);
 		add_code("  ((handler_t)" + hex_address(handler_func) + ")(cpu, " + hex_address(instr_bits) + ");");
+		// Writes to the zero register are discarded
+		if (!vr_only)
+			add_code("  cpu->r[0] = 0;");
 		// Reload cached registers after handler returns
 		if (!vr_only) {
 			reload_all_registers();
-- 
2.43.0


From 7b4c61480035ec16f2ce140d6e909f35619ee281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 098/116] fix: translated PCADDU18I only reached 2 GB

---
 lib/libloong/tr_emit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 377daa0..90e2fc5 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -770,7 +770,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 		case InstrId::PCADDU18I: {
 			if (instr.ri20.rd != 0) {
 				int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-				int64_t offset = (int64_t)(si20 << 18);
+				int64_t offset = (int64_t)si20 << 18;
 				emit.add_code("  " + emit.reg(instr.ri20.rd) + " = " +
 					hex_address(emit.pc() + offset) + "ULL;");
 			}
-- 
2.43.0


From 4f5262236b46053b609ba039a07e332138efbe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 099/116] fix: translated BYTEPICK.D picked the wrong bytes

---
 lib/libloong/tr_emit.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 90e2fc5..c1895cf 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1364,12 +1364,12 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				uint32_t sa3 = (instr.whole >> 15) & 0x7;
 				if (sa3 == 0) {
-					emit.add_code("  " + emit.reg(instr.r3.rd) + " = " + emit.reg(instr.r3.rj) + ";");
+					emit.add_code("  " + emit.reg(instr.r3.rd) + " = " + emit.reg(instr.r3.rk) + ";");
 				} else {
 					uint32_t shift = sa3 * 8;
 					emit.add_code("  " + emit.reg(instr.r3.rd) + " = (" +
-						emit.reg(instr.r3.rk) + " << " + std::to_string(64 - shift) + ") | (" +
-						emit.reg(instr.r3.rj) + " >> " + std::to_string(shift) + ");");
+						emit.reg(instr.r3.rk) + " << " + std::to_string(shift) + ") | (" +
+						emit.reg(instr.r3.rj) + " >> " + std::to_string(64 - shift) + ");");
 				}
 			}
 			break;
-- 
2.43.0


From 4f172480e8228180b746a5f07d9e039f15ea56d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 100/116] fix: translated BSTRPICK and BSTRINS of the whole
 register took no bits

---
 lib/libloong/tr_emit.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index c1895cf..e34704c 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1381,7 +1381,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				if (msbw >= lsbw) {
 					uint32_t width = msbw - lsbw + 1;
-					uint32_t mask = ((1U << width) - 1) << lsbw;  // Precomputed at translation time
+					uint32_t mask = (0xFFFFFFFFU >> (32 - width)) << lsbw;  // Precomputed at translation time
 					uint32_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(((uint32_t)" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "U) | (((uint32_t)" +
@@ -1396,7 +1396,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				if (msbd >= lsbd) {
 					uint32_t width = msbd - lsbd + 1;
-					uint64_t mask = ((1ULL << width) - 1) << lsbd;  // Precomputed at translation time
+					uint64_t mask = (0xFFFFFFFFFFFFFFFFULL >> (64 - width)) << lsbd;  // Precomputed at translation time
 					uint64_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "ULL) | ((" +
@@ -1410,7 +1410,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbw = (instr.whole >> 16) & 0x1F;
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				uint32_t width = msbw - lsbw + 1;
-				uint32_t mask = (1U << width) - 1;  // Precomputed at translation time
+				uint32_t mask = 0xFFFFFFFFU >> (32 - width);  // Precomputed at translation time
 				if (lsbw == 0) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(" +
 						emit.reg(instr.ri16.rj) + " & " + std::to_string(mask) + "U);");
@@ -1426,7 +1426,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbd = (instr.whole >> 16) & 0x3F;
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				uint32_t width = msbd - lsbd + 1;
-				uint64_t mask = (1ULL << width) - 1;  // Precomputed at translation time
+				uint64_t mask = 0xFFFFFFFFFFFFFFFFULL >> (64 - width);  // Precomputed at translation time
 				if (lsbd == 0 && instr.ri16.rd == instr.ri16.rj) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " &= " +
 						std::to_string(mask) + "ULL;");
-- 
2.43.0


From 51b5584a2c1f8860eefccb9da175f0c157685a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 101/116] fix: translated FABS kept the sign of NaNs and of
 negative zero

---
 lib/libloong/tr_emit.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index e34704c..4633ab1 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1599,12 +1599,12 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 
 		// Floating-point unary operations
 		case InstrId::FABS_D:
-			emit.add_code("  " + emit.freg64(instr.r3.rd) + " = "
-				"(" + emit.freg64(instr.r3.rj) + " >= 0.0) ? " + emit.freg64(instr.r3.rj) + " : -" + emit.freg64(instr.r3.rj) + ";");
+			emit.add_code("  " + emit.freg_du(instr.r3.rd) + " = "
+				+ emit.freg_du(instr.r3.rj) + " & 0x7FFFFFFFFFFFFFFFULL;");
 			break;
 		case InstrId::FABS_S:
-			emit.add_code("  " + emit.freg32(instr.r3.rd) + " = "
-				"(" + emit.freg32(instr.r3.rj) + " >= 0.0f) ? " + emit.freg32(instr.r3.rj) + " : -" + emit.freg32(instr.r3.rj) + ";");
+			emit.add_code("  " + emit.freg_wu(instr.r3.rd) + " = "
+				+ emit.freg_wu(instr.r3.rj) + " & 0x7FFFFFFFU;");
 			break;
 
 		case InstrId::FNEG_D: {
-- 
2.43.0


From 2e2549d9a00ea12f3d15069590efd7c3f9775b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 102/116] fix: translated multiply-add instructions rounded
 twice

---
 lib/libloong/tr_api.cpp      |  2 ++
 lib/libloong/tr_compiler.cpp |  5 +++
 lib/libloong/tr_emit.cpp     | 64 ++++++++++++++++++------------------
 3 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/lib/libloong/tr_api.cpp b/lib/libloong/tr_api.cpp
index 57a21a1..839eb11 100644
--- a/lib/libloong/tr_api.cpp
+++ b/lib/libloong/tr_api.cpp
@@ -155,6 +155,8 @@ static struct CallbackTable {
 	int (*ctzl) (uint64_t);
 	int (*cpop) (uint32_t);
 	int (*cpopl) (uint64_t);
+	float  (*fmaf32)(float, float, float);
+	double (*fmaf64)(double, double, double);
 } api;
 
 // Memory arena access
diff --git a/lib/libloong/tr_compiler.cpp b/lib/libloong/tr_compiler.cpp
index 62c6433..a0040f4 100644
--- a/lib/libloong/tr_compiler.cpp
+++ b/lib/libloong/tr_compiler.cpp
@@ -173,6 +173,8 @@ namespace loongarch
 			int (*ctzl) (uint64_t);
 			int (*cpop) (uint32_t);
 			int (*cpopl) (uint64_t);
+			float  (*fmaf32)(float, float, float);
+			double (*fmaf64)(double, double, double);
 		} callback_table;
 
 		callback_table.syscalls = Machine::get_syscall_handlers();
@@ -223,6 +225,9 @@ namespace loongarch
 		callback_table.cpop = [](uint32_t x) { return __builtin_popcount(x); };
 		callback_table.cpopl = [](uint64_t x) { return __builtin_popcountl(x); };
 
+		callback_table.fmaf32 = [](float x, float y, float z) { return __builtin_fmaf(x, y, z); };
+		callback_table.fmaf64 = [](double x, double y, double z) { return __builtin_fma(x, y, z); };
+
 		// Initialize the translated segment
 		init_func(&callback_table, arena_info.arena_offset, arena_info.ic_offset);
 
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 4633ab1..0f61878 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1633,10 +1633,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg64(fd) + " = "
-				+ emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
-				+ emit.freg64(fa) + ";");
+			emit.add_code("  " + emit.freg64(fd) + " = api.fmaf64("
+				+ emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", "
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FMADD_S: {
@@ -1645,10 +1645,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg32(fd) + " = "
-				+ emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
-				+ emit.freg32(fa) + ";");
+			emit.add_code("  " + emit.freg32(fd) + " = api.fmaf32("
+				+ emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", "
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 		case InstrId::FMSUB_D: {
@@ -1657,10 +1657,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg64(fd) + " = "
-				+ emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " - "
-				+ emit.freg64(fa) + ";");
+			emit.add_code("  " + emit.freg64(fd) + " = api.fmaf64("
+				+ emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", -"
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FMSUB_S: {
@@ -1669,10 +1669,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg32(fd) + " = "
-				+ emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " - "
-				+ emit.freg32(fa) + ";");
+			emit.add_code("  " + emit.freg32(fd) + " = api.fmaf32("
+				+ emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", -"
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 		case InstrId::FNMADD_D: {
@@ -1681,9 +1681,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg64(fd) + " = "
-				"-(" + emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
+			emit.add_code("  " + emit.freg64(fd) + " = -api.fmaf64("
+				+ emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", "
 				+ emit.freg64(fa) + ");");
 			break;
 		}
@@ -1693,9 +1693,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg32(fd) + " = "
-				"-(" + emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
+			emit.add_code("  " + emit.freg32(fd) + " = -api.fmaf32("
+				+ emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", "
 				+ emit.freg32(fa) + ");");
 			break;
 		}
@@ -1705,10 +1705,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg64(fd) + " = "
-				"-" + emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
-				+ emit.freg64(fa) + ";");
+			emit.add_code("  " + emit.freg64(fd) + " = -api.fmaf64("
+				+ emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", -"
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FNMSUB_S: {
@@ -1717,10 +1717,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg32(fd) + " = "
-				"-" + emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
-				+ emit.freg32(fa) + ";");
+			emit.add_code("  " + emit.freg32(fd) + " = -api.fmaf32("
+				+ emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", -"
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 
@@ -1927,8 +1927,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			emit.add_code("    const lasx_reg* vj_ptr = &cpu->vr[" + std::to_string(instr.r4.rj) + "];");
 			emit.add_code("    const lasx_reg* vk_ptr = &cpu->vr[" + std::to_string(instr.r4.rk) + "];");
 			emit.add_code("    const lasx_reg* va_ptr = &cpu->vr[" + std::to_string(instr.r4.ra) + "];");
-			emit.add_code("    vd_ptr->df[0] = va_ptr->df[0] + vj_ptr->df[0] * vk_ptr->df[0];");
-			emit.add_code("    vd_ptr->df[1] = va_ptr->df[1] + vj_ptr->df[1] * vk_ptr->df[1]; }");
+			emit.add_code("    vd_ptr->df[0] = api.fmaf64(vj_ptr->df[0], vk_ptr->df[0], va_ptr->df[0]);");
+			emit.add_code("    vd_ptr->df[1] = api.fmaf64(vj_ptr->df[1], vk_ptr->df[1], va_ptr->df[1]); }");
 			break;
 		}
 
-- 
2.43.0


From b12616fbf1b644636c8d307a7e065cd736314250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:13 +0000
Subject: [PATCH 103/116] fix: translated FMIN and FMAX gave NaN when only one
 operand is NaN

---
 lib/libloong/tr_api.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/tr_api.cpp b/lib/libloong/tr_api.cpp
index 839eb11..7e26b1e 100644
--- a/lib/libloong/tr_api.cpp
+++ b/lib/libloong/tr_api.cpp
@@ -61,16 +61,16 @@ typedef int64_t saddr_t;
 #ifdef __TINYC__
 #define UNREACHABLE() /**/
 static inline float fminf(float x, float y) {
-	return (x < y) ? x : y;
+	return (x < y || y != y) ? x : y;
 }
 static inline double fmin(double x, double y) {
-	return (x < y) ? x : y;
+	return (x < y || y != y) ? x : y;
 }
 static inline float fmaxf(float x, float y) {
-	return (x >= y) ? x : y;
+	return (x >= y || y != y) ? x : y;
 }
 static inline double fmax(double x, double y) {
-	return (x >= y) ? x : y;
+	return (x >= y || y != y) ? x : y;
 }
 static inline uint32_t do_bswap32(uint32_t x) {
 	return (x << 24 | (x & 0xFF00) << 8 | (x & 0xFF0000) >> 8 | x >> 24);
-- 
2.43.0


From 25798fd9acad7d3d75ac070b8f278d4664dc8e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:13 +0000
Subject: [PATCH 104/116] fix: translated ADDI.W did not wrap to 32 bits

---
 lib/libloong/tr_emit.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 0f61878..afed7ad 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -835,12 +835,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 					// Optimize ADDI_W rd, r0, imm to rd = imm_se
 					emit.add_code("  " + emit.reg(instr.ri12.rd) + " = " +
 						std::to_string(imm_se) + ";");
-				} else if (instr.ri12.rd == instr.ri12.rj) {
-					emit.add_code("  " + emit.reg(instr.ri12.rd) + " += " +
-						std::to_string(imm_se) + ";");
 				} else {
-					emit.add_code("  " + emit.reg(instr.ri12.rd) + " = (int32_t)" +
-						emit.reg(instr.ri12.rj) + " + " + std::to_string(imm_se) + ";");
+					emit.add_code("  " + emit.reg(instr.ri12.rd) + " = (int32_t)(" +
+						emit.reg(instr.ri12.rj) + " + " + std::to_string(imm_se) + ");");
 				}
 			}
 			break;
-- 
2.43.0


From 8880c20d6ae60aa1163953e4abc531b31603a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:56 +0000
Subject: [PATCH 105/116] fix: faults in translated code lost the registers
 written before them

---
 lib/libloong/tr_emit.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index afed7ad..4d03305 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -273,6 +273,14 @@ struct Emitter
 		}
 	}
 
+	void emit_protection_fault(const std::string& addr) {
+		// Everything that executed before the access remains visible
+		add_code("  { addr_t fault = " + addr + ";");
+		store_all_registers();
+		if (!tinfo.options.translate_ignore_instruction_limit)
+			add_code("    INS_COUNTER(cpu) = ic + " + std::to_string(this->m_instr_counter) + ";");
+		add_code("    return api.exception(cpu, " + hex_address(pc()) + "ULL, fault, 2); }");
+	}
 	void emit_load_bounds_check(const std::string& addr) {
 		if (tinfo.options.translate_unchecked_memory_accesses
 			|| this->nbit_mask != 0) return; // No bounds check
@@ -282,7 +290,7 @@ struct Emitter
 		add_code("  if ((" + addr + ") < " +
 			hex_address(tinfo.arena_rostart) + " || (" + addr + ") >= " +
 			hex_address(tinfo.arena_size) + ")");
-		add_code("    return api.exception(cpu, " + hex_address(pc()) + "ULL, " + addr + ", 2);");
+		this->emit_protection_fault(addr);
 	}
 	void emit_store_bounds_check(const std::string& addr) {
 		if (tinfo.options.translate_unchecked_memory_accesses
@@ -293,7 +301,7 @@ struct Emitter
 		add_code("  if ((" + addr + ") < " +
 			hex_address(tinfo.arena_datastart) + " || (" + addr + ") >= " +
 			hex_address(tinfo.arena_size) + ")");
-		add_code("    return api.exception(cpu, " + hex_address(pc()) + "ULL, " + addr + ", 2);");
+		this->emit_protection_fault(addr);
 	}
 
 	// Emit memory load - templatized for different sizes and signedness
-- 
2.43.0


From eab373e39d9407607caf953c30e9a3cb519632ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:56 +0000
Subject: [PATCH 106/116] fix: translated system calls lost registers and
 returned to the wrong place

---
 lib/libloong/tr_api.cpp      |  2 +-
 lib/libloong/tr_compiler.cpp | 12 +++++--
 lib/libloong/tr_emit.cpp     | 61 +++++++++++-------------------------
 3 files changed, 28 insertions(+), 47 deletions(-)

diff --git a/lib/libloong/tr_api.cpp b/lib/libloong/tr_api.cpp
index 7e26b1e..935d88b 100644
--- a/lib/libloong/tr_api.cpp
+++ b/lib/libloong/tr_api.cpp
@@ -142,7 +142,7 @@ static struct CallbackTable {
 	syscall_t* syscalls;
 	void (*unknown_syscall)(CPU*, addr_t);
 	handler_t* handlers;
-	int  (*syscall)(CPU*, unsigned, uint64_t, addr_t);
+	int  (*syscall)(CPU*, unsigned, uint64_t, addr_t, int);
 	ReturnValues (*exception) (CPU*, addr_t, addr_t, int);
 	void (*trace) (CPU*, const char*, addr_t, uint32_t);
 	void (*log) (CPU*, addr_t, const char*);
diff --git a/lib/libloong/tr_compiler.cpp b/lib/libloong/tr_compiler.cpp
index a0040f4..91b6191 100644
--- a/lib/libloong/tr_compiler.cpp
+++ b/lib/libloong/tr_compiler.cpp
@@ -160,7 +160,7 @@ namespace loongarch
 			Machine::syscall_t** syscalls;
 			Machine::unknown_syscall_t* unknown_syscall;
 			DecoderData::handler_t* handlers;
-			int  (*syscall)(CPU&, unsigned, uint64_t, address_t);
+			int  (*syscall)(CPU&, unsigned, uint64_t, address_t, int);
 			ReturnValues (*exception) (CPU&, address_t, address_t, int);
 			void (*trace) (CPU&, const char*, address_t, uint32_t);
 			void (*log) (CPU&, address_t, const char*);
@@ -179,12 +179,18 @@ namespace loongarch
 
 		callback_table.syscalls = Machine::get_syscall_handlers();
 		callback_table.unknown_syscall = Machine::get_unknown_syscall_handler();
-		callback_table.syscall = [](CPU& cpu, unsigned sysnum, uint64_t max_ic, address_t pc) -> int {
+		callback_table.syscall = [](CPU& cpu, unsigned sysnum, uint64_t max_ic, address_t pc, int returns_to_ra) -> int {
 			try {
 				cpu.registers().pc = pc;
 				cpu.machine().set_max_instructions(max_ic);
 				cpu.machine().system_call(sysnum);
-				return cpu.machine().stopped() || (cpu.pc() != pc);
+				const bool leave = cpu.machine().stopped() || (!returns_to_ra && cpu.pc() != pc);
+				// Complete the system call. When it fails, PC is left at the call.
+				if (returns_to_ra)
+					cpu.registers().pc = cpu.reg(REG_RA);
+				else
+					cpu.registers().pc += 4;
+				return leave;
 			} catch (...) {
 				cpu.machine().set_current_exception(std::current_exception());
 				cpu.machine().stop();
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 4d03305..27883bc 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -151,17 +151,6 @@ struct Emitter
 			add_code(load_all_registers_string());
 	}
 
-	void store_syscall_registers() {
-		if (tinfo.options.translate_use_register_caching) {
-			add_code("STORE_SYSREGS_" + func_name + "();");
-		}
-	}
-	void reload_syscall_results() {
-		if (tinfo.options.translate_use_register_caching) {
-			add_code("LOAD_SYSREGS_" + func_name + "();");
-		}
-	}
-
 	// Flush the instruction counter to generated code
 	void flush_instruction_counter() {
 		auto icount = this->m_instr_counter;
@@ -441,6 +430,19 @@ struct Emitter
 		}
 	}
 
+	// Call the host, which may read and write any register
+	void emit_syscall(const std::string& number, bool returns_to_ra) {
+		store_all_registers();
+		add_code("  if (api.syscall(cpu, " + number + ", max_ic, " + hex_address(pc()) + ", " + (returns_to_ra ? "1" : "0") + ")) {");
+		if (!tinfo.options.translate_ignore_instruction_limit) {
+			add_code("    return (ReturnValues){ic, MAX_COUNTER(cpu)}; }");
+			add_code("  max_ic = MAX_COUNTER(cpu);");
+		} else {
+			add_code("    return (ReturnValues){0, MAX_COUNTER(cpu)}; }");
+		}
+		reload_all_registers();
+	}
+
 	void emit_return(bool store_registers = true) {
 		if (store_registers) {
 			store_all_registers();
@@ -789,22 +791,14 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 		case InstrId::SYSCALL: {
 			emit.flush_instruction_counter();
 			const uint32_t code = instr.whole & 0x3FF;
-			// Store cached registers before syscall
 			if (code != 0) { // 0 = regular syscall
-				emit.store_syscall_registers();
-				emit.add_code("  if (api.syscall(cpu, " + std::to_string(code) + ", max_ic, " + hex_address(emit.pc()) + ")) {");
+				emit.emit_syscall(std::to_string(code), true);
+				// System calls with a number return immediately using REG_RA
+				emit.add_code("  pc = " + emit.reg(REG_RA) + ";");
+				emit.add_code("  goto jump_table;");
 			} else {
-				emit.store_all_registers();
-				emit.add_code("  if (api.syscall(cpu, " + emit.reg(REG_A7) + ", max_ic, " + hex_address(emit.pc()) + ")) {");
+				emit.emit_syscall(emit.reg(REG_A7), false);
 			}
-			if (!tinfo.options.translate_ignore_instruction_limit) {
-				emit.add_code("    cpu->pc += 4; return (ReturnValues){ic, MAX_COUNTER(cpu)}; }");
-				emit.add_code("  max_ic = MAX_COUNTER(cpu);");
-			} else {
-				emit.add_code("    cpu->pc += 4; return (ReturnValues){0, MAX_COUNTER(cpu)}; }");
-			}
-			// Reload cached registers after syscall
-			emit.reload_syscall_results();
 			break;
 		}
 
@@ -1991,25 +1985,6 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 		// FP registers are pointers, so no need to reload them
 		code += "  ;\n";
 
-		// Most system calls (especially with code) only need A0-A7 loaded
-		code += "#define STORE_SYSREGS_" + emit.func_name + "() \\\n";
-		const int sysreg_begin = std::max(int(REG_A0), Emitter::CACHE_START);
-		const int sysreg_end = std::min(int(REG_A7) + 1, Emitter::CACHE_END);
-		for (int reg = sysreg_begin; reg < sysreg_end; reg++) {
-			if (emit.gpr_used[reg]) {
-				code += "  cpu->r[" + std::to_string(reg) + "] = " + emit.cached_regname(reg) + "; \\\n";
-			}
-		}
-		code += "  ;\n";
-		// We allow returning integers in A0-A1 from system calls
-		// unless PC changed (in which case we reload all registers anyway)
-		code += "#define LOAD_SYSREGS_" + emit.func_name + "() \\\n";
-		for (unsigned reg = REG_A0; reg < REG_A2; reg++) {
-			if (emit.gpr_used[reg]) {
-				code += "  " + emit.cached_regname(reg) + " = cpu->r[" + std::to_string(reg) + "]; \\\n";
-			}
-		}
-		code += "  ;\n";
 	}
 
 	// Append the generated code
-- 
2.43.0


From 1ce68d3a7d8b0746c8dea2e3321fd4b150d2374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:56 +0000
Subject: [PATCH 107/116] fix: translated BREAK called the host without its PC
 and could not stop the machine

---
 lib/libloong/tr_emit.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 27883bc..5c603a1 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -802,6 +802,12 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			break;
 		}
 
+		case InstrId::BREAK:
+			// BREAK is system call 0
+			emit.flush_instruction_counter();
+			emit.emit_syscall("0", false);
+			break;
+
 		// Load upper immediate
 		case InstrId::LU12I_W:
 			if (instr.ri20.rd != 0) {
-- 
2.43.0


From e9101af9d872263db2e2bde7b96dfb35533891ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:13 +0000
Subject: [PATCH 108/116] fix: loops in translated code ran past the
 instruction limit, and instructions were counted twice

---
 lib/libloong/threaded_dispatch.cpp |  4 ++--
 lib/libloong/tr_emit.cpp           | 29 ++++++++++++++++-------------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 407a15b..ed4717a 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -131,9 +131,9 @@ INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 	// Save PC for binary translated function
 	REGISTERS().pc = pc;
 
-	// Call the binary translated function
+	// Call the binary translated function, which counts its own instructions
 	// It returns updated instruction counter values
-	const auto result = handler(CPU(), counter, max_counter, RECONSTRUCT_PC());
+	const auto result = handler(CPU(), counter - DECODER().instruction_count(), max_counter, RECONSTRUCT_PC());
 
 	// Update instruction counter and max counter
 	counter = result.ic;
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 5c603a1..a6d8204 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -464,6 +464,15 @@ struct Emitter
 		return nullptr;
 	}
 
+	// Leave before a jump when the instruction limit has been reached
+	void emit_limit_check(const std::string& target) {
+		if (tinfo.options.translate_ignore_instruction_limit)
+			return;
+		add_code("  if (UNLIKELY(ic >= max_ic)) { cpu->pc = " + target + ";");
+		this->emit_return();
+		add_code("  }");
+	}
+
 	void jump_to(address_t target)
 	{
 		// Check if target is within current block
@@ -471,7 +480,9 @@ struct Emitter
 			// Local jump within block
 			char label[64];
 			snprintf(label, sizeof(label), "label_%lx", (unsigned long)target);
-			add_code("  goto " + std::string(label) + ";");
+			add_code("{");
+			this->emit_limit_check(hex_address(target) + "ULL");
+			add_code("  goto " + std::string(label) + "; }");
 		} else if (false && target > pc() && this->is_global_jump_target(target)) {
 			//static int counter = 0;
 			//printf("Warning: jump %d to global target 0x%" PRIx64 "\n", ++counter, target);
@@ -553,7 +564,7 @@ struct Emitter
 			add_code(reg(rd) + " = " + hex_address(return_addr) + "ULL;");
 		}
 
-		//this->emit_return();
+		this->emit_limit_check("pc");
 		add_code("  goto jump_table;"); // Jump table will handle indirect jump
 	}
 
@@ -730,17 +741,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 
 			emit.add_code("if (" + cond_str + ")");
 
-			// Check if target is within current block
-			if (emit.tinfo.jump_locations.count(target) != 0) {
-				char label[64];
-				snprintf(label, sizeof(label), "label_%lx", (unsigned long)target);
-				emit.add_code("  goto " + std::string(label) + ";");
-			} else {
-				// External jump (or missing label) - exit bintr
-				emit.add_code("{  cpu->pc = " + hex_address(target) + "ULL;");
-				emit.emit_return();
-				emit.add_code("}");
-			}
+			emit.jump_to(target);
 			break;
 		}
 		case InstrId::JIRL: {
@@ -795,6 +796,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				emit.emit_syscall(std::to_string(code), true);
 				// System calls with a number return immediately using REG_RA
 				emit.add_code("  pc = " + emit.reg(REG_RA) + ";");
+				emit.emit_limit_check("pc");
 				emit.add_code("  goto jump_table;");
 			} else {
 				emit.emit_syscall(emit.reg(REG_A7), false);
@@ -1945,6 +1947,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 		emit.advance_pc();
 	}
 
+	emit.flush_instruction_counter();
 	emit.add_code("  cpu->pc = " + hex_address(tinfo.endpc) + ";");
 	emit.emit_return();
 	emit.add_code("}");
-- 
2.43.0


From 73cb67d801a9fbe56267a59313344c6142d1ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:36 +0000
Subject: [PATCH 109/116] fix: exceptions of instructions without a translation
 went through generated code

---
 lib/libloong/tr_api.cpp      |  1 +
 lib/libloong/tr_compiler.cpp | 13 +++++++++++++
 lib/libloong/tr_emit.cpp     | 11 +++++++----
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/tr_api.cpp b/lib/libloong/tr_api.cpp
index 935d88b..56c6416 100644
--- a/lib/libloong/tr_api.cpp
+++ b/lib/libloong/tr_api.cpp
@@ -157,6 +157,7 @@ static struct CallbackTable {
 	int (*cpopl) (uint64_t);
 	float  (*fmaf32)(float, float, float);
 	double (*fmaf64)(double, double, double);
+	int (*execute) (CPU*, handler_t, uint32_t, addr_t);
 } api;
 
 // Memory arena access
diff --git a/lib/libloong/tr_compiler.cpp b/lib/libloong/tr_compiler.cpp
index 91b6191..375800e 100644
--- a/lib/libloong/tr_compiler.cpp
+++ b/lib/libloong/tr_compiler.cpp
@@ -175,6 +175,7 @@ namespace loongarch
 			int (*cpopl) (uint64_t);
 			float  (*fmaf32)(float, float, float);
 			double (*fmaf64)(double, double, double);
+			int (*execute) (CPU&, DecoderData::handler_t, uint32_t, address_t);
 		} callback_table;
 
 		callback_table.syscalls = Machine::get_syscall_handlers();
@@ -232,6 +233,18 @@ namespace loongarch
 		callback_table.cpopl = [](uint64_t x) { return __builtin_popcountl(x); };
 
 		callback_table.fmaf32 = [](float x, float y, float z) { return __builtin_fmaf(x, y, z); };
+		callback_table.execute = [](CPU& cpu, DecoderData::handler_t handler, uint32_t instr, address_t pc) -> int {
+			try {
+				cpu.registers().pc = pc;
+				handler(cpu, la_instruction{instr});
+				cpu.reg(REG_ZERO) = 0; // Writes to the zero register are discarded
+				return 0;
+			} catch (...) {
+				cpu.machine().set_current_exception(std::current_exception());
+				cpu.machine().stop();
+				return -1; // Indicate error
+			}
+		};
 		callback_table.fmaf64 = [](double x, double y, double z) { return __builtin_fma(x, y, z); };
 
 		// Initialize the translated segment
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index a6d8204..06e5585 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -419,10 +419,13 @@ struct Emitter
 			add_code("  api.fallback(cpu, " + hex_address(pc()) + "ULL, " + hex_address(instr_bits) + ");");
 		}
 		const uintptr_t handler_func = reinterpret_cast<uintptr_t>(instr.handler);
-		add_code("  ((handler_t)" + hex_address(handler_func) + ")(cpu, " + hex_address(instr_bits) + ");");
-		// Writes to the zero register are discarded
-		if (!vr_only)
-			add_code("  cpu->r[0] = 0;");
+		if (!vr_only) {
+			// The handler may fail, and exceptions cannot pass through generated code
+			add_code("  if (api.execute(cpu, (handler_t)" + hex_address(handler_func) + ", " + hex_address(instr_bits) + ", " + hex_address(pc()) + "))");
+			add_code("    return (ReturnValues){ic, 0};");
+		} else {
+			add_code("  ((handler_t)" + hex_address(handler_func) + ")(cpu, " + hex_address(instr_bits) + ");");
+		}
 		// Reload cached registers after handler returns
 		if (!vr_only) {
 			reload_all_registers();
-- 
2.43.0


From 8a919c69d49e80f7b5938c4887ad3085f9f508d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:58 +0000
Subject: [PATCH 110/116] fix: a program completed in translated code was
 reported as having reached the instruction limit

---
 lib/libloong/tr_emit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 06e5585..b78d3bf 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1120,6 +1120,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				emit.flush_instruction_counter();
 				emit.store_all_registers();
 				emit.add_code("  cpu->pc = " + hex_address(emit.pc() + 4) + "LL;");
+				// Completed, so the instruction limit was not what ended it
+				emit.add_code("  MAX_COUNTER(cpu) = ~0ULL;");
 				if (!tinfo.options.translate_ignore_instruction_limit) {
 					emit.add_code("  return (ReturnValues){ic, 0};");
 				} else {
-- 
2.43.0


From 596d74ab5ee286e761ac48f3600768b3c7e592e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 111/116] fix: instructions were counted twice when background
 translation took over

---
 lib/libloong/bytecode_impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index e3f4e43..45781fb 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1057,7 +1057,9 @@ INSTRUCTION(LA64_BC_LIVEPATCH, execute_livepatch) {
 #  else
 		// 2. Find the correct decoder pointer in the patched decoder cache
 		exec_decoder = exec->patched_decoder_cache() - (exec->exec_begin() >> DecoderCache::SHIFT);
-		goto continue_segment;
+		decoder = &exec_decoder[pc >> DecoderCache::SHIFT];
+		// The instructions of the block have been counted already
+		pc += decoder->block_bytes;
 #  endif
 		// 3. Execute the instruction
 		EXECUTE_INSTR();
-- 
2.43.0


From 2a50b5572c8a986562eebe5e4e87de9c91eb8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:22 +0000
Subject: [PATCH 112/116] fix: background translation patched an entry in two
 steps while the program runs

---
 lib/libloong/tr_compiler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/tr_compiler.cpp b/lib/libloong/tr_compiler.cpp
index 375800e..574f525 100644
--- a/lib/libloong/tr_compiler.cpp
+++ b/lib/libloong/tr_compiler.cpp
@@ -268,10 +268,14 @@ namespace loongarch
 
 			if (exec.is_within(addr)) {
 				auto& entry = *exec.pc_relative_decoder_cache(addr);
-				/// XXX: Set the livepatch bytecode atomically
+				/// Set the livepatch bytecode atomically, as the program may be running
 				/// NOTE: handler_idx=0 means binary translation livepatch
-				entry.set_bytecode(LA64_BC_LIVEPATCH);
-				entry.handler_idx = 0;
+				DecoderData patched = entry;
+				patched.set_bytecode(LA64_BC_LIVEPATCH);
+				patched.handler_idx = 0;
+				uint64_t value;
+				std::memcpy(&value, &patched, sizeof(value));
+				std::atomic_ref<uint64_t>(*reinterpret_cast<uint64_t*>(&entry)).store(value, std::memory_order_release);
 			}
 		}
 
-- 
2.43.0


From 2ad95132a493656fb44ff4bc741ff6468bbcde6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:16 +0000
Subject: [PATCH 113/116] fix: machines with different memory layouts or safety
 options shared translated code

---
 lib/libloong/memory.cpp              | 17 +++++++++++++++--
 lib/libloong/shared_exec_segment.hpp |  3 +++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 73559f3..2a52617 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -342,6 +342,17 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 		auto& entry = shared_cache.get_segment(key);
 
 		const std::string_view code(static_cast<const char*>(data), len);
+		std::array<uint64_t, 3> translation {};
+#ifdef LA_BINARY_TRANSLATION
+		// The bounds of memory and some options are part of translated code
+		if (options.translate_enabled) {
+			const uint64_t flags = 1
+				| (options.translate_ignore_instruction_limit ? 2 : 0)
+				| (options.translate_automatic_nbit_address_space ? 4 : 0)
+				| (options.translate_unchecked_memory_accesses ? 8 : 0);
+			translation = {flags, m_rodata_start, m_data_start};
+		}
+#endif
 
 		// Lock the segment entry and check if it exists
 		std::lock_guard<std::mutex> lock(entry.mutex);
@@ -350,12 +361,14 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 			segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
 			populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
 			entry.code = code;
+			entry.translation = translation;
 			entry.segment = segment;
-		} else if (entry.code == code) {
+		} else if (entry.code == code && entry.translation == translation) {
 			// Reuse existing shared segment
 			segment = entry.segment;
 		}
-		// Otherwise, a different program has the same checksum
+		// Otherwise, a different program has the same checksum,
+		// or the same program has been translated differently
 	}
 	if (!segment) {
 		// Not sharing, create a new one
diff --git a/lib/libloong/shared_exec_segment.hpp b/lib/libloong/shared_exec_segment.hpp
index 0276ecd..3305eaf 100644
--- a/lib/libloong/shared_exec_segment.hpp
+++ b/lib/libloong/shared_exec_segment.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "common.hpp"
 #include "decoded_exec_segment.hpp"
+#include <array>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -63,6 +64,8 @@ namespace loongarch
 			std::shared_ptr<DecodedExecuteSegment> segment;
 			// The program code that the segment was made from
 			std::string code;
+			// What translated code depends on, in addition to the program code
+			std::array<uint64_t, 3> translation {};
 			std::mutex mutex;
 
 			// Thread-safe getter
-- 
2.43.0


From 35cdb354a86dffcd6993d800f7be74fc59e08ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:21 +0000
Subject: [PATCH 114/116] fix: masked addresses in translated code reached
 beyond guest memory that is not a power of two in size

---
 lib/libloong/tr_emit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index b78d3bf..04b7572 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -86,7 +86,7 @@ struct Emitter
 			// The mask must under-estimate the size to avoid out-of-bounds accesses
 			size_t size = tinfo.arena_size;
 			size_t nbit = 1;
-			while (nbit < size) nbit <<= 1;
+			while ((nbit << 1) <= size) nbit <<= 1;
 			this->nbit_mask = nbit - 1;
 		} else if (LA_MASKED_MEMORY_BITS != 0) {
 			this->nbit_mask = (address_t(1) << LA_MASKED_MEMORY_BITS) - 1;
-- 
2.43.0


From df2bab6dfca3e31e3deaf951b7e9c3da1f04906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:17 +0000
Subject: [PATCH 115/116] fix: masked memory in a larger donated arena extends
 beyond the mask

---
 lib/libloong/memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 2a52617..e1b2c26 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -118,7 +118,8 @@ void Memory::use_custom_arena(void* ptr, size_t size)
 	if (this->m_arena) free_arena();
 	this->m_arena = (uint8_t*)ptr;
 	this->m_arena_is_custom = true;
-	this->m_arena_size = size - LA_OVER_ALLOCATE_SIZE;
+	// Guests cannot reach beyond the masked memory size
+	this->m_arena_size = LA_MASKED_MEMORY_BITS != 0 ? size_t(LA_MASKED_MEMORY_SIZE) : size - LA_OVER_ALLOCATE_SIZE;
 	this->m_arena_end_sub_rodata = this->m_arena_size - this->m_rodata_start;
 	this->m_arena_end_sub_data = this->m_arena_size - this->m_data_start;
 }
-- 
2.43.0


From 2cd2b692db253b09f4fbee3bc8594403ee6eb8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:12 +0000
Subject: [PATCH 116/116] fix: the limit of the debugger counted instructions
 that were executed before

---
 lib/libloong/debug.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index cf38004..7c2bfb5 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -8,6 +8,7 @@ namespace loongarch
 {
 	void DebugMachine::simulate(uint64_t max_instructions)
 	{
+		this->machine.set_instruction_counter(0);
 		this->machine.set_max_instructions(max_instructions);
 		while (!this->machine.stopped() && !this->machine.instruction_limit_reached()) {
 			if (this->verbose_instructions)
-- 
2.43.0

