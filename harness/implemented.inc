"add.w",
"add.d",
"sub.w",
"sub.d",
"slt",
"sltu",
"and",
"or",
"xor",
"nor",
"orn",
"andn",
"maskeqz",
"masknez",
"sll.w",
"srl.w",
"sra.w",
"sll.d",
"srl.d",
"sra.d",
"rotr.w",
"rotr.d",
"mul.w",
"mulh.w",
"mulh.wu",
"mul.d",
"mulh.d",
"mulh.du",
"div.w",
"mod.w",
"div.wu",
"mod.wu",
"div.d",
"mod.d",
"div.du",
"mod.du",
"ldx.b",
"ldx.h",
"ldx.w",
"ldx.d",
"ldx.bu",
"ldx.hu",
"ldx.wu",
"stx.b",
"stx.h",
"stx.w",
"stx.d",
"clo.w",
"clz.w",
"cto.w",
"ctz.w",
"clo.d",
"clz.d",
"cto.d",
"ctz.d",
"revb.2h",
"revb.4h",
"revb.2w",
"revb.d",
"revh.2w",
"revh.d",
"bitrev.4b",
"bitrev.8b",
"bitrev.w",
"bitrev.d",
"ext.w.b",
"ext.w.h",
"rdtime.d",
"cpucfg",
"alsl.w",
"alsl.d",
"bytepick.d",
"addi.w",
"addi.d",
"slti",
"sltui",
"lu52i.d",
"ld.b",
"ld.h",
"ld.w",
"ld.d",
"ld.bu",
"ld.hu",
"ld.wu",
"st.b",
"st.h",
"st.w",
"st.d",
"andi",
"ori",
"xori",
"ldptr.w",
"ldptr.d",
"stptr.w",
"stptr.d",
"ll.w",
"ll.d",
"sc.w",
"sc.d",
"addu16i.d",
"slli.w",
"srli.w",
"srai.w",
"rotri.w",
"slli.d",
"srli.d",
"srai.d",
"rotri.d",
"bstrins.w",
"bstrpick.w",
"bstrins.d",
"bstrpick.d",
"lu12i.w",
"lu32i.d",
"pcaddi",
"pcalau12i",
"pcaddu12i",
"pcaddu18i",
"beqz",
"bnez",
"beq",
"bne",
"blt",
"bge",
"bltu",
"bgeu",
"b",
"bl",
"bceqz",
"bcnez",
"jirl",
"amswap.w",
"amswap_db.w",
"amswap.d",
"amswap_db.d",
"amadd.w",
"amadd_db.w",
"amadd.d",
"amadd_db.d",
"amand.w",
"amand_db.w",
"amand.d",
"amand_db.d",
"amor.w",
"amor_db.w",
"amor.d",
"amor_db.d",
"amxor.w",
"amxor_db.w",
"amxor.d",
"amxor_db.d",
"dbar",
"ibar",
"preld",
"fadd.s",
"fsub.s",
"fmul.s",
"fdiv.s",
"fmax.s",
"fmin.s",
"fmadd.s",
"fmsub.s",
"fnmadd.s",
"fnmsub.s",
"fabs.s",
"fmov.s",
"fclass.s",
"fld.s",
"fst.s",
"fldx.s",
"fstx.s",
"fcmp.caf.s",
"fcmp.saf.s",
"fcmp.clt.s",
"fcmp.slt.s",
"fcmp.ceq.s",
"fcmp.seq.s",
"fcmp.cle.s",
"fcmp.sle.s",
"fcmp.cun.s",
"fcmp.sun.s",
"fcmp.cult.s",
"fcmp.sult.s",
"fcmp.cueq.s",
"fcmp.sueq.s",
"fcmp.cule.s",
"fcmp.sule.s",
"fcmp.cne.s",
"fcmp.sne.s",
"fcmp.cor.s",
"fcmp.sor.s",
"fcmp.cune.s",
"fcmp.sune.s",
"fadd.d",
"fsub.d",
"fmul.d",
"fdiv.d",
"fmax.d",
"fmin.d",
"fmadd.d",
"fmsub.d",
"fnmadd.d",
"fnmsub.d",
"fabs.d",
"fneg.d",
"fmov.d",
"fclass.d",
"fld.d",
"fst.d",
"fldx.d",
"fstx.d",
"fcmp.caf.d",
"fcmp.saf.d",
"fcmp.clt.d",
"fcmp.slt.d",
"fcmp.ceq.d",
"fcmp.seq.d",
"fcmp.cle.d",
"fcmp.sle.d",
"fcmp.cun.d",
"fcmp.sun.d",
"fcmp.cult.d",
"fcmp.sult.d",
"fcmp.cueq.d",
"fcmp.sueq.d",
"fcmp.cule.d",
"fcmp.sule.d",
"fcmp.cne.d",
"fcmp.sne.d",
"fcmp.cor.d",
"fcmp.sor.d",
"fcmp.cune.d",
"fcmp.sune.d",
"fcvt.s.d",
"fcvt.d.s",
"ffint.s.w",
"ffint.s.l",
"ffint.d.w",
"ffint.d.l",
"ftintrz.w.s",
"ftintrz.w.d",
"ftintrz.l.s",
"ftintrz.l.d",
"fsel",
"movgr2fr.w",
"movgr2fr.d",
"movfr2gr.s",
"movfr2gr.d",
"movfr2cf",
"movcf2fr",
"movgr2cf",
"movcf2gr",
"vadd.b",
"vsub.b",
"vmul.b",
"vmadd.b",
"vmax.b",
"vmin.b",
"vseq.b",
"vslt.b",
"vilvl.b",
"vmax.bu",
"vmin.bu",
"vpcnt.b",
"vseqi.b",
"vaddi.bu",
"vslli.b",
"vinsgr2vr.b",
"vpickve2gr.b",
"vpickve2gr.bu",
"vreplgr2vr.b",
"vadd.h",
"vsub.h",
"vmul.h",
"vmadd.h",
"vmax.h",
"vmin.h",
"vslt.h",
"vilvl.h",
"vmax.hu",
"vmin.hu",
"vpcnt.h",
"vseqi.h",
"vaddi.hu",
"vslli.h",
"vinsgr2vr.h",
"vpickve2gr.h",
"vpickve2gr.hu",
"vreplgr2vr.h",
"vadd.w",
"vsub.w",
"vmul.w",
"vmadd.w",
"vmax.w",
"vmin.w",
"vslt.w",
"vilvl.w",
"vmax.wu",
"vmin.wu",
"vpcnt.w",
"vseqi.w",
"vaddi.wu",
"vslli.w",
"vinsgr2vr.w",
"vpickve2gr.w",
"vpickve2gr.wu",
"vreplgr2vr.w",
"vadd.d",
"vsub.d",
"vmul.d",
"vmadd.d",
"vmax.d",
"vmin.d",
"vslt.d",
"vilvl.d",
"vmax.du",
"vmin.du",
"vpcnt.d",
"vseqi.d",
"vaddi.du",
"vslli.d",
"vinsgr2vr.d",
"vpickve2gr.d",
"vpickve2gr.du",
"vreplgr2vr.d",
"vand.v",
"vor.v",
"vxor.v",
"vnor.v",
"vorn.v",
"vfadd.d",
"vfdiv.d",
"vfmul.d",
"vfmul.s",
"vhaddw.d.w",
"vilvh.d",
"vpickev.w",
"vbitsel.v",
"vshuf.b",
"vfmadd.d",
"vfnmadd.d",
"vbitrevi.d",
"vfrstpi.b",
"vori.b",
"vftintrz.l.d",
"vftintrz.w.s",
"vmsknz.b",
"vsetallnez.b",
"vsetanyeqz.b",
"vreplvei.d",
"vldi",
"vld",
"vst",
"vldx",
"vstx",
"vfcmp.caf.d",
"xvfcmp.caf.d",
"vfcmp.saf.d",
"xvfcmp.saf.d",
"vfcmp.clt.d",
"xvfcmp.clt.d",
"vfcmp.slt.d",
"xvfcmp.slt.d",
"vfcmp.ceq.d",
"xvfcmp.ceq.d",
"vfcmp.seq.d",
"xvfcmp.seq.d",
"vfcmp.cle.d",
"xvfcmp.cle.d",
"vfcmp.sle.d",
"xvfcmp.sle.d",
"vfcmp.cun.d",
"xvfcmp.cun.d",
"vfcmp.sun.d",
"xvfcmp.sun.d",
"vfcmp.cult.d",
"xvfcmp.cult.d",
"vfcmp.sult.d",
"xvfcmp.sult.d",
"vfcmp.cueq.d",
"xvfcmp.cueq.d",
"vfcmp.sueq.d",
"xvfcmp.sueq.d",
"vfcmp.cule.d",
"xvfcmp.cule.d",
"vfcmp.sule.d",
"xvfcmp.sule.d",
"vfcmp.cne.d",
"xvfcmp.cne.d",
"vfcmp.sne.d",
"xvfcmp.sne.d",
"vfcmp.cor.d",
"xvfcmp.cor.d",
"vfcmp.sor.d",
"xvfcmp.sor.d",
"vfcmp.cune.d",
"xvfcmp.cune.d",
"vfcmp.sune.d",
"xvfcmp.sune.d",
"xvadd.d",
"xvsub.w",
"xvxor.v",
"xvseq.b",
"xvmax.bu",
"xvmin.bu",
"xvilvl.d",
"xvilvh.d",
"xvhaddw.d.w",
"xvhaddw.q.d",
"xvfadd.d",
"xvfsub.d",
"xvfmul.d",
"xvfdiv.d",
"xvpackev.d",
"xvpackod.d",
"xvpickev.d",
"xvpickev.w",
"xvpickod.d",
"xvfmadd.s",
"xvfmsub.s",
"xvfnmadd.s",
"xvfnmsub.s",
"xvfmadd.d",
"xvfmsub.d",
"xvfnmadd.d",
"xvfnmsub.d",
"xvbitsel.v",
"xvbitrevi.d",
"xvori.b",
"xvxori.b",
"xvpermi.d",
"xvpermi.q",
"xvldi",
"xvmsknz.b",
"xvpickve2gr.w",
"xvpickve.w",
"xvreplgr2vr.b",
"xvsetanyeqz.b",
"xvseteqz.v",
"xvld",
"xvst",
"xvldx",
"xvstx",
"xvreplve.d",
