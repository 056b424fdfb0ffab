// Generated by tools/gen_isa.py from binutils encodings: ISA(mnemonic, format, match, mask)
ISA("add.w", R3, 0x00100000, 0xffff8000)
ISA("add.d", R3, 0x00108000, 0xffff8000)
ISA("sub.w", R3, 0x00110000, 0xffff8000)
ISA("sub.d", R3, 0x00118000, 0xffff8000)
ISA("slt", R3, 0x00120000, 0xffff8000)
ISA("sltu", R3, 0x00128000, 0xffff8000)
ISA("and", R3, 0x00148000, 0xffff8000)
ISA("or", R3, 0x00150000, 0xffff8000)
ISA("xor", R3, 0x00158000, 0xffff8000)
ISA("nor", R3, 0x00140000, 0xffff8000)
ISA("orn", R3, 0x00160000, 0xffff8000)
ISA("andn", R3, 0x00168000, 0xffff8000)
ISA("maskeqz", R3, 0x00130000, 0xffff8000)
ISA("masknez", R3, 0x00138000, 0xffff8000)
ISA("sll.w", R3, 0x00170000, 0xffff8000)
ISA("srl.w", R3, 0x00178000, 0xffff8000)
ISA("sra.w", R3, 0x00180000, 0xffff8000)
ISA("sll.d", R3, 0x00188000, 0xffff8000)
ISA("srl.d", R3, 0x00190000, 0xffff8000)
ISA("sra.d", R3, 0x00198000, 0xffff8000)
ISA("rotr.w", R3, 0x001b0000, 0xffff8000)
ISA("rotr.d", R3, 0x001b8000, 0xffff8000)
ISA("mul.w", R3, 0x001c0000, 0xffff8000)
ISA("mulh.w", R3, 0x001c8000, 0xffff8000)
ISA("mulh.wu", R3, 0x001d0000, 0xffff8000)
ISA("mul.d", R3, 0x001d8000, 0xffff8000)
ISA("mulh.d", R3, 0x001e0000, 0xffff8000)
ISA("mulh.du", R3, 0x001e8000, 0xffff8000)
ISA("div.w", R3, 0x00200000, 0xffff8000)
ISA("mod.w", R3, 0x00208000, 0xffff8000)
ISA("div.wu", R3, 0x00210000, 0xffff8000)
ISA("mod.wu", R3, 0x00218000, 0xffff8000)
ISA("div.d", R3, 0x00220000, 0xffff8000)
ISA("mod.d", R3, 0x00228000, 0xffff8000)
ISA("div.du", R3, 0x00230000, 0xffff8000)
ISA("mod.du", R3, 0x00238000, 0xffff8000)
ISA("ldx.b", R3, 0x38000000, 0xffff8000)
ISA("ldx.h", R3, 0x38040000, 0xffff8000)
ISA("ldx.w", R3, 0x38080000, 0xffff8000)
ISA("ldx.d", R3, 0x380c0000, 0xffff8000)
ISA("ldx.bu", R3, 0x38200000, 0xffff8000)
ISA("ldx.hu", R3, 0x38240000, 0xffff8000)
ISA("ldx.wu", R3, 0x38280000, 0xffff8000)
ISA("stx.b", R3, 0x38100000, 0xffff8000)
ISA("stx.h", R3, 0x38140000, 0xffff8000)
ISA("stx.w", R3, 0x38180000, 0xffff8000)
ISA("stx.d", R3, 0x381c0000, 0xffff8000)
ISA("clo.w", R2, 0x00001000, 0xfffffc00)
ISA("clz.w", R2, 0x00001400, 0xfffffc00)
ISA("cto.w", R2, 0x00001800, 0xfffffc00)
ISA("ctz.w", R2, 0x00001c00, 0xfffffc00)
ISA("clo.d", R2, 0x00002000, 0xfffffc00)
ISA("clz.d", R2, 0x00002400, 0xfffffc00)
ISA("cto.d", R2, 0x00002800, 0xfffffc00)
ISA("ctz.d", R2, 0x00002c00, 0xfffffc00)
ISA("revb.2h", R2, 0x00003000, 0xfffffc00)
ISA("revb.4h", R2, 0x00003400, 0xfffffc00)
ISA("revb.2w", R2, 0x00003800, 0xfffffc00)
ISA("revb.d", R2, 0x00003c00, 0xfffffc00)
ISA("revh.2w", R2, 0x00004000, 0xfffffc00)
ISA("revh.d", R2, 0x00004400, 0xfffffc00)
ISA("bitrev.4b", R2, 0x00004800, 0xfffffc00)
ISA("bitrev.8b", R2, 0x00004c00, 0xfffffc00)
ISA("bitrev.w", R2, 0x00005000, 0xfffffc00)
ISA("bitrev.d", R2, 0x00005400, 0xfffffc00)
ISA("ext.w.b", R2, 0x00005c00, 0xfffffc00)
ISA("ext.w.h", R2, 0x00005800, 0xfffffc00)
ISA("rdtime.d", R2, 0x00006800, 0xfffffc00)
ISA("cpucfg", R2, 0x00006c00, 0xfffffc00)
ISA("alsl.w", R3SA2, 0x00040000, 0xfffe0000)
ISA("alsl.d", R3SA2, 0x002c0000, 0xfffe0000)
ISA("alsl.wu", R3SA2, 0x00060000, 0xfffe0000)
ISA("bytepick.d", R3SA3, 0x000c0000, 0xfffc0000)
ISA("addi.w", I12S, 0x02800000, 0xffc00000)
ISA("addi.d", I12S, 0x02c00000, 0xffc00000)
ISA("slti", I12S, 0x02000000, 0xffc00000)
ISA("sltui", I12S, 0x02400000, 0xffc00000)
ISA("lu52i.d", I12S, 0x03000000, 0xffc00000)
ISA("ld.b", I12S, 0x28000000, 0xffc00000)
ISA("ld.h", I12S, 0x28400000, 0xffc00000)
ISA("ld.w", I12S, 0x28800000, 0xffc00000)
ISA("ld.d", I12S, 0x28c00000, 0xffc00000)
ISA("ld.bu", I12S, 0x2a000000, 0xffc00000)
ISA("ld.hu", I12S, 0x2a400000, 0xffc00000)
ISA("ld.wu", I12S, 0x2a800000, 0xffc00000)
ISA("st.b", I12S, 0x29000000, 0xffc00000)
ISA("st.h", I12S, 0x29400000, 0xffc00000)
ISA("st.w", I12S, 0x29800000, 0xffc00000)
ISA("st.d", I12S, 0x29c00000, 0xffc00000)
ISA("andi", I12U, 0x03400000, 0xffc00000)
ISA("ori", I12U, 0x03800000, 0xffc00000)
ISA("xori", I12U, 0x03c00000, 0xffc00000)
ISA("ldptr.w", I14S, 0x24000000, 0xff000000)
ISA("ldptr.d", I14S, 0x26000000, 0xff000000)
ISA("stptr.w", I14S, 0x25000000, 0xff000000)
ISA("stptr.d", I14S, 0x27000000, 0xff000000)
ISA("ll.w", I14S, 0x20000000, 0xff000000)
ISA("ll.d", I14S, 0x22000000, 0xff000000)
ISA("sc.w", I14S, 0x21000000, 0xff000000)
ISA("sc.d", I14S, 0x23000000, 0xff000000)
ISA("addu16i.d", I16S, 0x10000000, 0xfc000000)
ISA("slli.w", UI5, 0x00408000, 0xffff8000)
ISA("srli.w", UI5, 0x00448000, 0xffff8000)
ISA("srai.w", UI5, 0x00488000, 0xffff8000)
ISA("rotri.w", UI5, 0x004c8000, 0xffff8000)
ISA("slli.d", UI6, 0x00410000, 0xffff0000)
ISA("srli.d", UI6, 0x00450000, 0xffff0000)
ISA("srai.d", UI6, 0x00490000, 0xffff0000)
ISA("rotri.d", UI6, 0x004d0000, 0xffff0000)
ISA("bstrins.w", BSW, 0x00600000, 0xffe08000)
ISA("bstrpick.w", BSW, 0x00608000, 0xffe08000)
ISA("bstrins.d", BSD, 0x00800000, 0xffc00000)
ISA("bstrpick.d", BSD, 0x00c00000, 0xffc00000)
ISA("lu12i.w", I20, 0x14000000, 0xfe000000)
ISA("lu32i.d", I20, 0x16000000, 0xfe000000)
ISA("pcaddi", I20, 0x18000000, 0xfe000000)
ISA("pcalau12i", I20, 0x1a000000, 0xfe000000)
ISA("pcaddu12i", I20, 0x1c000000, 0xfe000000)
ISA("pcaddu18i", I20, 0x1e000000, 0xfe000000)
ISA("beqz", B21, 0x40000000, 0xfc000000)
ISA("bnez", B21, 0x44000000, 0xfc000000)
ISA("beq", B16, 0x58000000, 0xfc000000)
ISA("bne", B16, 0x5c000000, 0xfc000000)
ISA("blt", B16, 0x60000000, 0xfc000000)
ISA("bge", B16, 0x64000000, 0xfc000000)
ISA("bltu", B16, 0x68000000, 0xfc000000)
ISA("bgeu", B16, 0x6c000000, 0xfc000000)
ISA("b", B26, 0x50000000, 0xfc000000)
ISA("bl", B26, 0x54000000, 0xfc000000)
ISA("bceqz", BC21, 0x48000000, 0xfc000300)
ISA("bcnez", BC21, 0x48000100, 0xfc000300)
ISA("jirl", JIRL, 0x4c000000, 0xfc000000)
ISA("amswap.w", AM, 0x38600000, 0xffff8000)
ISA("amswap_db.w", AM, 0x38690000, 0xffff8000)
ISA("amswap.d", AM, 0x38608000, 0xffff8000)
ISA("amswap_db.d", AM, 0x38698000, 0xffff8000)
ISA("amadd.w", AM, 0x38610000, 0xffff8000)
ISA("amadd_db.w", AM, 0x386a0000, 0xffff8000)
ISA("amadd.d", AM, 0x38618000, 0xffff8000)
ISA("amadd_db.d", AM, 0x386a8000, 0xffff8000)
ISA("amand.w", AM, 0x38620000, 0xffff8000)
ISA("amand_db.w", AM, 0x386b0000, 0xffff8000)
ISA("amand.d", AM, 0x38628000, 0xffff8000)
ISA("amand_db.d", AM, 0x386b8000, 0xffff8000)
ISA("amor.w", AM, 0x38630000, 0xffff8000)
ISA("amor_db.w", AM, 0x386c0000, 0xffff8000)
ISA("amor.d", AM, 0x38638000, 0xffff8000)
ISA("amor_db.d", AM, 0x386c8000, 0xffff8000)
ISA("amxor.w", AM, 0x38640000, 0xffff8000)
ISA("amxor_db.w", AM, 0x386d0000, 0xffff8000)
ISA("amxor.d", AM, 0x38648000, 0xffff8000)
ISA("amxor_db.d", AM, 0x386d8000, 0xffff8000)
ISA("ammax.w", AM, 0x38650000, 0xffff8000)
ISA("ammax_db.w", AM, 0x386e0000, 0xffff8000)
ISA("ammax.d", AM, 0x38658000, 0xffff8000)
ISA("ammax_db.d", AM, 0x386e8000, 0xffff8000)
ISA("ammin.w", AM, 0x38660000, 0xffff8000)
ISA("ammin_db.w", AM, 0x386f0000, 0xffff8000)
ISA("ammin.d", AM, 0x38668000, 0xffff8000)
ISA("ammin_db.d", AM, 0x386f8000, 0xffff8000)
ISA("ammax.wu", AM, 0x38670000, 0xffff8000)
ISA("ammax_db.wu", AM, 0x38700000, 0xffff8000)
ISA("ammax.du", AM, 0x38678000, 0xffff8000)
ISA("ammax_db.du", AM, 0x38708000, 0xffff8000)
ISA("ammin.wu", AM, 0x38680000, 0xffff8000)
ISA("ammin_db.wu", AM, 0x38710000, 0xffff8000)
ISA("ammin.du", AM, 0x38688000, 0xffff8000)
ISA("ammin_db.du", AM, 0x38718000, 0xffff8000)
ISA("break", SYSFMT, 0x002a0000, 0xffff8000)
ISA("syscall", SYSFMT, 0x002b0000, 0xffff8000)
ISA("dbar", SYSFMT, 0x38720000, 0xffff8000)
ISA("ibar", SYSFMT, 0x38728000, 0xffff8000)
ISA("preld", PRELD, 0x2ac00000, 0xffc00000)
ISA("fadd.s", F3, 0x01008000, 0xffff8000)
ISA("fsub.s", F3, 0x01028000, 0xffff8000)
ISA("fmul.s", F3, 0x01048000, 0xffff8000)
ISA("fdiv.s", F3, 0x01068000, 0xffff8000)
ISA("fmax.s", F3, 0x01088000, 0xffff8000)
ISA("fmin.s", F3, 0x010a8000, 0xffff8000)
ISA("fmadd.s", F4, 0x08100000, 0xfff00000)
ISA("fmsub.s", F4, 0x08500000, 0xfff00000)
ISA("fnmadd.s", F4, 0x08900000, 0xfff00000)
ISA("fnmsub.s", F4, 0x08d00000, 0xfff00000)
ISA("fabs.s", F2, 0x01140400, 0xfffffc00)
ISA("fneg.s", F2, 0x01141400, 0xfffffc00)
ISA("fmov.s", F2, 0x01149400, 0xfffffc00)
ISA("fclass.s", F2, 0x01143400, 0xfffffc00)
ISA("fsqrt.s", F2, 0x01144400, 0xfffffc00)
ISA("fld.s", FI12, 0x2b000000, 0xffc00000)
ISA("fst.s", FI12, 0x2b400000, 0xffc00000)
ISA("fldx.s", FX, 0x38300000, 0xffff8000)
ISA("fstx.s", FX, 0x38380000, 0xffff8000)
ISA("fcmp.caf.s", FCMP, 0x0c100000, 0xffff8018)
ISA("fcmp.saf.s", FCMP, 0x0c108000, 0xffff8018)
ISA("fcmp.clt.s", FCMP, 0x0c110000, 0xffff8018)
ISA("fcmp.slt.s", FCMP, 0x0c118000, 0xffff8018)
ISA("fcmp.ceq.s", FCMP, 0x0c120000, 0xffff8018)
ISA("fcmp.seq.s", FCMP, 0x0c128000, 0xffff8018)
ISA("fcmp.cle.s", FCMP, 0x0c130000, 0xffff8018)
ISA("fcmp.sle.s", FCMP, 0x0c138000, 0xffff8018)
ISA("fcmp.cun.s", FCMP, 0x0c140000, 0xffff8018)
ISA("fcmp.sun.s", FCMP, 0x0c148000, 0xffff8018)
ISA("fcmp.cult.s", FCMP, 0x0c150000, 0xffff8018)
ISA("fcmp.sult.s", FCMP, 0x0c158000, 0xffff8018)
ISA("fcmp.cueq.s", FCMP, 0x0c160000, 0xffff8018)
ISA("fcmp.sueq.s", FCMP, 0x0c168000, 0xffff8018)
ISA("fcmp.cule.s", FCMP, 0x0c170000, 0xffff8018)
ISA("fcmp.sule.s", FCMP, 0x0c178000, 0xffff8018)
ISA("fcmp.cne.s", FCMP, 0x0c180000, 0xffff8018)
ISA("fcmp.sne.s", FCMP, 0x0c188000, 0xffff8018)
ISA("fcmp.cor.s", FCMP, 0x0c1a0000, 0xffff8018)
ISA("fcmp.sor.s", FCMP, 0x0c1a8000, 0xffff8018)
ISA("fcmp.cune.s", FCMP, 0x0c1c0000, 0xffff8018)
ISA("fcmp.sune.s", FCMP, 0x0c1c8000, 0xffff8018)
ISA("fadd.d", F3, 0x01010000, 0xffff8000)
ISA("fsub.d", F3, 0x01030000, 0xffff8000)
ISA("fmul.d", F3, 0x01050000, 0xffff8000)
ISA("fdiv.d", F3, 0x01070000, 0xffff8000)
ISA("fmax.d", F3, 0x01090000, 0xffff8000)
ISA("fmin.d", F3, 0x010b0000, 0xffff8000)
ISA("fmadd.d", F4, 0x08200000, 0xfff00000)
ISA("fmsub.d", F4, 0x08600000, 0xfff00000)
ISA("fnmadd.d", F4, 0x08a00000, 0xfff00000)
ISA("fnmsub.d", F4, 0x08e00000, 0xfff00000)
ISA("fabs.d", F2, 0x01140800, 0xfffffc00)
ISA("fneg.d", F2, 0x01141800, 0xfffffc00)
ISA("fmov.d", F2, 0x01149800, 0xfffffc00)
ISA("fclass.d", F2, 0x01143800, 0xfffffc00)
ISA("fsqrt.d", F2, 0x01144800, 0xfffffc00)
ISA("fld.d", FI12, 0x2b800000, 0xffc00000)
ISA("fst.d", FI12, 0x2bc00000, 0xffc00000)
ISA("fldx.d", FX, 0x38340000, 0xffff8000)
ISA("fstx.d", FX, 0x383c0000, 0xffff8000)
ISA("fcmp.caf.d", FCMP, 0x0c200000, 0xffff8018)
ISA("fcmp.saf.d", FCMP, 0x0c208000, 0xffff8018)
ISA("fcmp.clt.d", FCMP, 0x0c210000, 0xffff8018)
ISA("fcmp.slt.d", FCMP, 0x0c218000, 0xffff8018)
ISA("fcmp.ceq.d", FCMP, 0x0c220000, 0xffff8018)
ISA("fcmp.seq.d", FCMP, 0x0c228000, 0xffff8018)
ISA("fcmp.cle.d", FCMP, 0x0c230000, 0xffff8018)
ISA("fcmp.sle.d", FCMP, 0x0c238000, 0xffff8018)
ISA("fcmp.cun.d", FCMP, 0x0c240000, 0xffff8018)
ISA("fcmp.sun.d", FCMP, 0x0c248000, 0xffff8018)
ISA("fcmp.cult.d", FCMP, 0x0c250000, 0xffff8018)
ISA("fcmp.sult.d", FCMP, 0x0c258000, 0xffff8018)
ISA("fcmp.cueq.d", FCMP, 0x0c260000, 0xffff8018)
ISA("fcmp.sueq.d", FCMP, 0x0c268000, 0xffff8018)
ISA("fcmp.cule.d", FCMP, 0x0c270000, 0xffff8018)
ISA("fcmp.sule.d", FCMP, 0x0c278000, 0xffff8018)
ISA("fcmp.cne.d", FCMP, 0x0c280000, 0xffff8018)
ISA("fcmp.sne.d", FCMP, 0x0c288000, 0xffff8018)
ISA("fcmp.cor.d", FCMP, 0x0c2a0000, 0xffff8018)
ISA("fcmp.sor.d", FCMP, 0x0c2a8000, 0xffff8018)
ISA("fcmp.cune.d", FCMP, 0x0c2c0000, 0xffff8018)
ISA("fcmp.sune.d", FCMP, 0x0c2c8000, 0xffff8018)
ISA("fcvt.s.d", F2, 0x01191800, 0xfffffc00)
ISA("fcvt.d.s", F2, 0x01192400, 0xfffffc00)
ISA("ffint.s.w", F2, 0x011d1000, 0xfffffc00)
ISA("ffint.s.l", F2, 0x011d1800, 0xfffffc00)
ISA("ffint.d.w", F2, 0x011d2000, 0xfffffc00)
ISA("ffint.d.l", F2, 0x011d2800, 0xfffffc00)
ISA("ftintrz.w.s", F2, 0x011a8400, 0xfffffc00)
ISA("ftintrz.w.d", F2, 0x011a8800, 0xfffffc00)
ISA("ftintrz.l.s", F2, 0x011aa400, 0xfffffc00)
ISA("ftintrz.l.d", F2, 0x011aa800, 0xfffffc00)
ISA("fsel", FSEL, 0x0d000000, 0xfffc0000)
ISA("movgr2fr.w", FR, 0x0114a400, 0xfffffc00)
ISA("movgr2fr.d", FR, 0x0114a800, 0xfffffc00)
ISA("movfr2gr.s", RF, 0x0114b400, 0xfffffc00)
ISA("movfr2gr.d", RF, 0x0114b800, 0xfffffc00)
ISA("movfr2cf", CF, 0x0114d000, 0xfffffc18)
ISA("movcf2fr", FC, 0x0114d400, 0xffffff00)
ISA("movgr2cf", CR, 0x0114d800, 0xfffffc18)
ISA("movcf2gr", RC, 0x0114dc00, 0xffffff00)
ISA("vadd.b", V3, 0x700a0000, 0xffff8000)
ISA("vsub.b", V3, 0x700c0000, 0xffff8000)
ISA("vmul.b", V3, 0x70840000, 0xffff8000)
ISA("vmadd.b", V3, 0x70a80000, 0xffff8000)
ISA("vmax.b", V3, 0x70700000, 0xffff8000)
ISA("vmin.b", V3, 0x70720000, 0xffff8000)
ISA("vseq.b", V3, 0x70000000, 0xffff8000)
ISA("vslt.b", V3, 0x70060000, 0xffff8000)
ISA("vilvl.b", V3, 0x711a0000, 0xffff8000)
ISA("vmax.bu", V3, 0x70740000, 0xffff8000)
ISA("vmin.bu", V3, 0x70760000, 0xffff8000)
ISA("vpcnt.b", V2, 0x729c2000, 0xfffffc00)
ISA("vseqi.b", VSI5, 0x72800000, 0xffff8000)
ISA("vaddi.bu", VUI5, 0x728a0000, 0xffff8000)
ISA("vslli.b", VUI3, 0x732c2000, 0xffffe000)
ISA("vinsgr2vr.b", VRUI4, 0x72eb8000, 0xffffc000)
ISA("vpickve2gr.b", RVUI4, 0x72ef8000, 0xffffc000)
ISA("vpickve2gr.bu", RVUI4, 0x72f38000, 0xffffc000)
ISA("vreplgr2vr.b", VR, 0x729f0000, 0xfffffc00)
ISA("vadd.h", V3, 0x700a8000, 0xffff8000)
ISA("vsub.h", V3, 0x700c8000, 0xffff8000)
ISA("vmul.h", V3, 0x70848000, 0xffff8000)
ISA("vmadd.h", V3, 0x70a88000, 0xffff8000)
ISA("vmax.h", V3, 0x70708000, 0xffff8000)
ISA("vmin.h", V3, 0x70728000, 0xffff8000)
ISA("vseq.h", V3, 0x70008000, 0xffff8000)
ISA("vslt.h", V3, 0x70068000, 0xffff8000)
ISA("vilvl.h", V3, 0x711a8000, 0xffff8000)
ISA("vmax.hu", V3, 0x70748000, 0xffff8000)
ISA("vmin.hu", V3, 0x70768000, 0xffff8000)
ISA("vpcnt.h", V2, 0x729c2400, 0xfffffc00)
ISA("vseqi.h", VSI5, 0x72808000, 0xffff8000)
ISA("vaddi.hu", VUI5, 0x728a8000, 0xffff8000)
ISA("vslli.h", VUI4, 0x732c4000, 0xffffc000)
ISA("vinsgr2vr.h", VRUI3, 0x72ebc000, 0xffffe000)
ISA("vpickve2gr.h", RVUI3, 0x72efc000, 0xffffe000)
ISA("vpickve2gr.hu", RVUI3, 0x72f3c000, 0xffffe000)
ISA("vreplgr2vr.h", VR, 0x729f0400, 0xfffffc00)
ISA("vadd.w", V3, 0x700b0000, 0xffff8000)
ISA("vsub.w", V3, 0x700d0000, 0xffff8000)
ISA("vmul.w", V3, 0x70850000, 0xffff8000)
ISA("vmadd.w", V3, 0x70a90000, 0xffff8000)
ISA("vmax.w", V3, 0x70710000, 0xffff8000)
ISA("vmin.w", V3, 0x70730000, 0xffff8000)
ISA("vseq.w", V3, 0x70010000, 0xffff8000)
ISA("vslt.w", V3, 0x70070000, 0xffff8000)
ISA("vilvl.w", V3, 0x711b0000, 0xffff8000)
ISA("vmax.wu", V3, 0x70750000, 0xffff8000)
ISA("vmin.wu", V3, 0x70770000, 0xffff8000)
ISA("vpcnt.w", V2, 0x729c2800, 0xfffffc00)
ISA("vseqi.w", VSI5, 0x72810000, 0xffff8000)
ISA("vaddi.wu", VUI5, 0x728b0000, 0xffff8000)
ISA("vslli.w", VUI5, 0x732c8000, 0xffff8000)
ISA("vinsgr2vr.w", VRUI2, 0x72ebe000, 0xfffff000)
ISA("vpickve2gr.w", RVUI2, 0x72efe000, 0xfffff000)
ISA("vpickve2gr.wu", RVUI2, 0x72f3e000, 0xfffff000)
ISA("vreplgr2vr.w", VR, 0x729f0800, 0xfffffc00)
ISA("vadd.d", V3, 0x700b8000, 0xffff8000)
ISA("vsub.d", V3, 0x700d8000, 0xffff8000)
ISA("vmul.d", V3, 0x70858000, 0xffff8000)
ISA("vmadd.d", V3, 0x70a98000, 0xffff8000)
ISA("vmax.d", V3, 0x70718000, 0xffff8000)
ISA("vmin.d", V3, 0x70738000, 0xffff8000)
ISA("vseq.d", V3, 0x70018000, 0xffff8000)
ISA("vslt.d", V3, 0x70078000, 0xffff8000)
ISA("vilvl.d", V3, 0x711b8000, 0xffff8000)
ISA("vmax.du", V3, 0x70758000, 0xffff8000)
ISA("vmin.du", V3, 0x70778000, 0xffff8000)
ISA("vpcnt.d", V2, 0x729c2c00, 0xfffffc00)
ISA("vseqi.d", VSI5, 0x72818000, 0xffff8000)
ISA("vaddi.du", VUI5, 0x728b8000, 0xffff8000)
ISA("vslli.d", VUI6, 0x732d0000, 0xffff0000)
ISA("vinsgr2vr.d", VRUI1, 0x72ebf000, 0xfffff800)
ISA("vpickve2gr.d", RVUI1, 0x72eff000, 0xfffff800)
ISA("vpickve2gr.du", RVUI1, 0x72f3f000, 0xfffff800)
ISA("vreplgr2vr.d", VR, 0x729f0c00, 0xfffffc00)
ISA("vand.v", V3, 0x71260000, 0xffff8000)
ISA("vor.v", V3, 0x71268000, 0xffff8000)
ISA("vxor.v", V3, 0x71270000, 0xffff8000)
ISA("vnor.v", V3, 0x71278000, 0xffff8000)
ISA("vorn.v", V3, 0x71288000, 0xffff8000)
ISA("vfadd.d", V3, 0x71310000, 0xffff8000)
ISA("vfdiv.d", V3, 0x713b0000, 0xffff8000)
ISA("vfmul.d", V3, 0x71390000, 0xffff8000)
ISA("vfmul.s", V3, 0x71388000, 0xffff8000)
ISA("vhaddw.d.w", V3, 0x70550000, 0xffff8000)
ISA("vilvh.d", V3, 0x711d8000, 0xffff8000)
ISA("vilvh.h", V3, 0x711c8000, 0xffff8000)
ISA("vpickev.w", V3, 0x711f0000, 0xffff8000)
ISA("vbitsel.v", V4, 0x0d100000, 0xfff00000)
ISA("vshuf.b", V4, 0x0d500000, 0xfff00000)
ISA("vfmadd.d", V4, 0x09200000, 0xfff00000)
ISA("vfnmadd.d", V4, 0x09a00000, 0xfff00000)
ISA("vbitrevi.d", VUI6, 0x73190000, 0xffff0000)
ISA("vfrstpi.b", VUI5, 0x729a0000, 0xffff8000)
ISA("vori.b", VUI8, 0x73d40000, 0xfffc0000)
ISA("vftintrz.l.d", V2, 0x729e4c00, 0xfffffc00)
ISA("vftintrz.w.s", V2, 0x729e4800, 0xfffffc00)
ISA("vmsknz.b", V2, 0x729c6000, 0xfffffc00)
ISA("vsetallnez.b", CV, 0x729cb000, 0xfffffc18)
ISA("vsetanyeqz.b", CV, 0x729ca000, 0xfffffc18)
ISA("vreplvei.d", VUI1, 0x72f7f000, 0xfffff800)
ISA("vldi", VLDI, 0x73e00000, 0xfffc0000)
ISA("vld", VI12, 0x2c000000, 0xffc00000)
ISA("vst", VI12, 0x2c400000, 0xffc00000)
ISA("vldx", VX, 0x38400000, 0xffff8000)
ISA("vstx", VX, 0x38440000, 0xffff8000)
ISA("vfcmp.caf.d", V3, 0x0c600000, 0xffff8000)
ISA("xvfcmp.caf.d", X3, 0x0ca00000, 0xffff8000)
ISA("vfcmp.saf.d", V3, 0x0c608000, 0xffff8000)
ISA("xvfcmp.saf.d", X3, 0x0ca08000, 0xffff8000)
ISA("vfcmp.clt.d", V3, 0x0c610000, 0xffff8000)
ISA("xvfcmp.clt.d", X3, 0x0ca10000, 0xffff8000)
ISA("vfcmp.slt.d", V3, 0x0c618000, 0xffff8000)
ISA("xvfcmp.slt.d", X3, 0x0ca18000, 0xffff8000)
ISA("vfcmp.ceq.d", V3, 0x0c620000, 0xffff8000)
ISA("xvfcmp.ceq.d", X3, 0x0ca20000, 0xffff8000)
ISA("vfcmp.seq.d", V3, 0x0c628000, 0xffff8000)
ISA("xvfcmp.seq.d", X3, 0x0ca28000, 0xffff8000)
ISA("vfcmp.cle.d", V3, 0x0c630000, 0xffff8000)
ISA("xvfcmp.cle.d", X3, 0x0ca30000, 0xffff8000)
ISA("vfcmp.sle.d", V3, 0x0c638000, 0xffff8000)
ISA("xvfcmp.sle.d", X3, 0x0ca38000, 0xffff8000)
ISA("vfcmp.cun.d", V3, 0x0c640000, 0xffff8000)
ISA("xvfcmp.cun.d", X3, 0x0ca40000, 0xffff8000)
ISA("vfcmp.sun.d", V3, 0x0c648000, 0xffff8000)
ISA("xvfcmp.sun.d", X3, 0x0ca48000, 0xffff8000)
ISA("vfcmp.cult.d", V3, 0x0c650000, 0xffff8000)
ISA("xvfcmp.cult.d", X3, 0x0ca50000, 0xffff8000)
ISA("vfcmp.sult.d", V3, 0x0c658000, 0xffff8000)
ISA("xvfcmp.sult.d", X3, 0x0ca58000, 0xffff8000)
ISA("vfcmp.cueq.d", V3, 0x0c660000, 0xffff8000)
ISA("xvfcmp.cueq.d", X3, 0x0ca60000, 0xffff8000)
ISA("vfcmp.sueq.d", V3, 0x0c668000, 0xffff8000)
ISA("xvfcmp.sueq.d", X3, 0x0ca68000, 0xffff8000)
ISA("vfcmp.cule.d", V3, 0x0c670000, 0xffff8000)
ISA("xvfcmp.cule.d", X3, 0x0ca70000, 0xffff8000)
ISA("vfcmp.sule.d", V3, 0x0c678000, 0xffff8000)
ISA("xvfcmp.sule.d", X3, 0x0ca78000, 0xffff8000)
ISA("vfcmp.cne.d", V3, 0x0c680000, 0xffff8000)
ISA("xvfcmp.cne.d", X3, 0x0ca80000, 0xffff8000)
ISA("vfcmp.sne.d", V3, 0x0c688000, 0xffff8000)
ISA("xvfcmp.sne.d", X3, 0x0ca88000, 0xffff8000)
ISA("vfcmp.cor.d", V3, 0x0c6a0000, 0xffff8000)
ISA("xvfcmp.cor.d", X3, 0x0caa0000, 0xffff8000)
ISA("vfcmp.sor.d", V3, 0x0c6a8000, 0xffff8000)
ISA("xvfcmp.sor.d", X3, 0x0caa8000, 0xffff8000)
ISA("vfcmp.cune.d", V3, 0x0c6c0000, 0xffff8000)
ISA("xvfcmp.cune.d", X3, 0x0cac0000, 0xffff8000)
ISA("vfcmp.sune.d", V3, 0x0c6c8000, 0xffff8000)
ISA("xvfcmp.sune.d", X3, 0x0cac8000, 0xffff8000)
ISA("xvadd.d", X3, 0x740b8000, 0xffff8000)
ISA("xvsub.w", X3, 0x740d0000, 0xffff8000)
ISA("xvxor.v", X3, 0x75270000, 0xffff8000)
ISA("xvseq.b", X3, 0x74000000, 0xffff8000)
ISA("xvmax.bu", X3, 0x74740000, 0xffff8000)
ISA("xvmin.bu", X3, 0x74760000, 0xffff8000)
ISA("xvilvl.d", X3, 0x751b8000, 0xffff8000)
ISA("xvilvh.d", X3, 0x751d8000, 0xffff8000)
ISA("xvhaddw.d.w", X3, 0x74550000, 0xffff8000)
ISA("xvhaddw.q.d", X3, 0x74558000, 0xffff8000)
ISA("xvfadd.d", X3, 0x75310000, 0xffff8000)
ISA("xvfsub.d", X3, 0x75330000, 0xffff8000)
ISA("xvfmul.d", X3, 0x75390000, 0xffff8000)
ISA("xvfdiv.d", X3, 0x753b0000, 0xffff8000)
ISA("xvpackev.d", X3, 0x75178000, 0xffff8000)
ISA("xvpackod.d", X3, 0x75198000, 0xffff8000)
ISA("xvpickev.d", X3, 0x751f8000, 0xffff8000)
ISA("xvpickev.w", X3, 0x751f0000, 0xffff8000)
ISA("xvpickod.d", X3, 0x75218000, 0xffff8000)
ISA("xvfmadd.s", X4, 0x0a100000, 0xfff00000)
ISA("xvfmsub.s", X4, 0x0a500000, 0xfff00000)
ISA("xvfnmadd.s", X4, 0x0a900000, 0xfff00000)
ISA("xvfnmsub.s", X4, 0x0ad00000, 0xfff00000)
ISA("xvfmadd.d", X4, 0x0a200000, 0xfff00000)
ISA("xvfmsub.d", X4, 0x0a600000, 0xfff00000)
ISA("xvfnmadd.d", X4, 0x0aa00000, 0xfff00000)
ISA("xvfnmsub.d", X4, 0x0ae00000, 0xfff00000)
ISA("xvbitsel.v", X4, 0x0d200000, 0xfff00000)
ISA("xvbitrevi.d", XUI6, 0x77190000, 0xffff0000)
ISA("xvori.b", XUI8, 0x77d40000, 0xfffc0000)
ISA("xvxori.b", XUI8, 0x77d80000, 0xfffc0000)
ISA("xvpermi.d", XUI8, 0x77e80000, 0xfffc0000)
ISA("xvpermi.q", XUI8, 0x77ec0000, 0xfffc0000)
ISA("xvldi", XLDI, 0x77e00000, 0xfffc0000)
ISA("xvmsknz.b", X2, 0x769c6000, 0xfffffc00)
ISA("xvpickve2gr.w", RXUI3, 0x76efc000, 0xffffe000)
ISA("xvpickve.w", XUI3, 0x7703c000, 0xffffe000)
ISA("xvreplgr2vr.b", XR, 0x769f0000, 0xfffffc00)
ISA("xvsetanyeqz.b", CX, 0x769ca000, 0xfffffc18)
ISA("xvseteqz.v", CX, 0x769c9800, 0xfffffc18)
ISA("xvld", XI12, 0x2c800000, 0xffc00000)
ISA("xvst", XI12, 0x2cc00000, 0xffc00000)
ISA("xvldx", XX, 0x38480000, 0xffff8000)
ISA("xvstx", XX, 0x384c0000, 0xffff8000)
ISA("xvreplve.d", XVR, 0x75238000, 0xffff8000)
