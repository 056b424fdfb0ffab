#!/usr/bin/env python3
"""Development tool: derive instruction encodings from the binutils assembler.
Writes harness/isa_table.inc (committed).  Not run by any check."""
import subprocess, re, sys, tempfile, os
# format -> (operand template with zero operands, operand template with all-ones, mask of operand bits expected)
F = {
 'R3': ('$r0,$r0,$r0','$r31,$r31,$r31'),
 'R2': ('$r0,$r0','$r31,$r31'),
 'R3SA2': ('$r0,$r0,$r0,1','$r31,$r31,$r31,4'),
 'R3SA3': ('$r0,$r0,$r0,0','$r31,$r31,$r31,7'),
 'I12S': ('$r0,$r0,0','$r31,$r31,-1'),
 'I12U': ('$r0,$r0,0','$r31,$r31,0xfff'),
 'I14S': ('$r0,$r0,0','$r31,$r31,-4'),
 'I16S': ('$r0,$r0,0','$r31,$r31,-1'),
 'UI5': ('$r0,$r0,0','$r31,$r31,31'),
 'UI6': ('$r0,$r0,0','$r31,$r31,63'),
 'BSW': ('$r0,$r0,0,0','$r31,$r31,31,31'),
 'BSD': ('$r0,$r0,0,0','$r31,$r31,63,63'),
 'I20': ('$r0,0','$r31,-1'),
 'B21': ('$r0,0','$r31,-4'),
 'B16': ('$r0,$r0,0','$r31,$r31,-4'),
 'B26': ('0','-4'),
 'BC21': ('$fcc0,0','$fcc7,-4'),
 'JIRL': ('$r0,$r0,0','$r31,$r31,-4'),
 'AM': ('$r0,$r0,$r0','$r0,$r0,$r0'),
 'CODE': ('0','0x7fff'),
 'F3': ('$f0,$f0,$f0','$f31,$f31,$f31'),
 'F2': ('$f0,$f0','$f31,$f31'),
 'F4': ('$f0,$f0,$f0,$f0','$f31,$f31,$f31,$f31'),
 'FSEL': ('$f0,$f0,$f0,$fcc0','$f31,$f31,$f31,$fcc7'),
 'FCMP': ('$fcc0,$f0,$f0','$fcc7,$f31,$f31'),
 'FI12': ('$f0,$r0,0','$f31,$r31,-1'),
 'FX': ('$f0,$r0,$r0','$f31,$r31,$r31'),
 'FR': ('$f0,$r0','$f31,$r31'),
 'RF': ('$r0,$f0','$r31,$f31'),
 'CF': ('$fcc0,$f0','$fcc7,$f31'),
 'FC': ('$f0,$fcc0','$f31,$fcc7'),
 'CR': ('$fcc0,$r0','$fcc7,$r31'),
 'RC': ('$r0,$fcc0','$r31,$fcc7'),
 'PRELD': ('0,$r0,0','31,$r31,-1'),
}
for p,q in (('V','$vr'),('X','$xr')):
    F[p+'3']=(f'{q}0,{q}0,{q}0',f'{q}31,{q}31,{q}31')
    F[p+'2']=(f'{q}0,{q}0',f'{q}31,{q}31')
    F[p+'4']=(f'{q}0,{q}0,{q}0,{q}0',f'{q}31,{q}31,{q}31,{q}31')
    for b in (1,2,3,4,5,6,8):
        F[f'{p}UI{b}']=(f'{q}0,{q}0,0',f'{q}31,{q}31,{(1<<b)-1}')
    F[p+'SI5']=(f'{q}0,{q}0,0',f'{q}31,{q}31,-1')
    F[p+'I12']=(f'{q}0,$r0,0',f'{q}31,$r31,-1')
    F[p+'X']=(f'{q}0,$r0,$r0',f'{q}31,$r31,$r31')
    F[p+'R']=(f'{q}0,$r0',f'{q}31,$r31')
    for b in (1,2,3,4):
        F[f'{p}RUI{b}']=(f'{q}0,$r0,0',f'{q}31,$r31,{(1<<b)-1}')
        F[f'R{p}UI{b}']=(f'$r0,{q}0,0',f'$r31,{q}31,{(1<<b)-1}')
    F[p+'LDI']=(f'{q}0,0',f'{q}31,-1')
    F['C'+p]=(f'$fcc0,{q}0',f'$fcc7,{q}31')
L=[]
def add(fmt,names):
    for n in names.split(): L.append((n,fmt))
add('R3','add.w add.d sub.w sub.d slt sltu and or xor nor orn andn maskeqz masknez sll.w srl.w sra.w sll.d srl.d sra.d rotr.w rotr.d mul.w mulh.w mulh.wu mul.d mulh.d mulh.du div.w mod.w div.wu mod.wu div.d mod.d div.du mod.du')
add('R3','ldx.b ldx.h ldx.w ldx.d ldx.bu ldx.hu ldx.wu stx.b stx.h stx.w stx.d')
add('R2','clo.w clz.w cto.w ctz.w clo.d clz.d cto.d ctz.d revb.2h revb.4h revb.2w revb.d revh.2w revh.d bitrev.4b bitrev.8b bitrev.w bitrev.d ext.w.b ext.w.h rdtime.d cpucfg')
add('R3SA2','alsl.w alsl.d alsl.wu')
add('R3SA3','bytepick.d')
add('I12S','addi.w addi.d slti sltui lu52i.d ld.b ld.h ld.w ld.d ld.bu ld.hu ld.wu st.b st.h st.w st.d')
add('I12U','andi ori xori')
add('I14S','ldptr.w ldptr.d stptr.w stptr.d ll.w ll.d sc.w sc.d')
add('I16S','addu16i.d')
add('UI5','slli.w srli.w srai.w rotri.w')
add('UI6','slli.d srli.d srai.d rotri.d')
add('BSW','bstrins.w bstrpick.w'); add('BSD','bstrins.d bstrpick.d')
add('I20','lu12i.w lu32i.d pcaddi pcalau12i pcaddu12i pcaddu18i')
add('B21','beqz bnez'); add('B16','beq bne blt bge bltu bgeu'); add('B26','b bl'); add('BC21','bceqz bcnez'); add('JIRL','jirl')
for op in 'amswap amadd amand amor amxor ammax ammin'.split():
    for s in 'wd': L.append((f'{op}.{s}','AM')); L.append((f'{op}_db.{s}','AM'))
for op in 'ammax ammin'.split():
    for s in ('wu','du'): L.append((f'{op}.{s}','AM')); L.append((f'{op}_db.{s}','AM'))
add('CODE','break syscall dbar ibar'); add('PRELD','preld')
for s in 'sd':
    add('F3',' '.join(f'{o}.{s}' for o in 'fadd fsub fmul fdiv fmax fmin'.split()))
    add('F4',' '.join(f'{o}.{s}' for o in 'fmadd fmsub fnmadd fnmsub'.split()))
    add('F2',' '.join(f'{o}.{s}' for o in 'fabs fneg fmov fclass fsqrt'.split()))
    add('FI12',f'fld.{s} fst.{s}'); add('FX',f'fldx.{s} fstx.{s}')
    for c in 'caf saf clt slt ceq seq cle sle cun sun cult sult cueq sueq cule sule cne sne cor sor cune sune'.split():
        L.append((f'fcmp.{c}.{s}','FCMP'))
add('F2','fcvt.s.d fcvt.d.s ffint.s.w ffint.s.l ffint.d.w ffint.d.l ftintrz.w.s ftintrz.w.d ftintrz.l.s ftintrz.l.d')
add('FSEL','fsel')
add('FR','movgr2fr.w movgr2fr.d'); add('RF','movfr2gr.s movfr2gr.d')
add('CF','movfr2cf'); add('FC','movcf2fr'); add('CR','movgr2cf'); add('RC','movcf2gr')
# LSX
for s in 'bhwd':
    add('V3',' '.join(f'v{o}.{s}' for o in 'add sub mul madd max min seq slt ilvl'.split()))
    add('V3',f'vmax.{s}u vmin.{s}u')
    add('V2',f'vpcnt.{s}')
    add('VSI5',f'vseqi.{s}'); add('VUI5',f'vaddi.{s}u')
    b={'b':3,'h':4,'w':5,'d':6}[s]; add(f'VUI{b}',f'vslli.{s}')
    e={'b':4,'h':3,'w':2,'d':1}[s]
    add(f'VRUI{e}',f'vinsgr2vr.{s}'); add(f'RVUI{e}',f'vpickve2gr.{s} vpickve2gr.{s}u'); add('VR',f'vreplgr2vr.{s}')
add('V3','vand.v vor.v vxor.v vnor.v vorn.v vfadd.d vfdiv.d vfmul.d vfmul.s vhaddw.d.w vilvh.d vilvh.h vpickev.w')
add('V4','vbitsel.v vshuf.b vfmadd.d vfnmadd.d'); add('VUI6','vbitrevi.d'); add('VUI5','vfrstpi.b'); add('VUI8','vori.b')
add('V2','vftintrz.l.d vftintrz.w.s vmsknz.b'); add('CV','vsetallnez.b vsetanyeqz.b'); add('VUI1','vreplvei.d'); add('VLDI','vldi')
add('VI12','vld vst'); add('VX','vldx vstx')
for c in 'caf saf clt slt ceq seq cle sle cun sun cult sult cueq sueq cule sule cne sne cor sor cune sune'.split():
    L.append((f'vfcmp.{c}.d','V3')); L.append((f'xvfcmp.{c}.d','X3'))
# LASX
add('X3','xvadd.d xvsub.w xvxor.v xvseq.b xvmax.bu xvmin.bu xvilvl.d xvilvh.d xvhaddw.d.w xvhaddw.q.d xvfadd.d xvfsub.d xvfmul.d xvfdiv.d xvpackev.d xvpackod.d xvpickev.d xvpickev.w xvpickod.d')
for s in 'sd': add('X4',' '.join(f'xv{o}.{s}' for o in 'fmadd fmsub fnmadd fnmsub'.split()))
add('X4','xvbitsel.v'); add('XUI6','xvbitrevi.d'); add('XUI8','xvori.b xvxori.b xvpermi.d xvpermi.q'); add('XLDI','xvldi')
add('X2','xvmsknz.b'); add('RXUI3','xvpickve2gr.w'); add('XUI3','xvpickve.w'); add('XR','xvreplgr2vr.b')
add('CX','xvsetanyeqz.b xvseteqz.v'); add('XI12','xvld xvst'); add('XX','xvldx xvstx')
L.append(('xvreplve.d','XVR'))
F['XVR']=('$xr0,$xr0,$r0','$xr31,$xr31,$r31')
def asm(lines):
    d=tempfile.mkdtemp()
    open(d+'/a.s','w').write('\n'.join(lines)+'\n')
    subprocess.run(['loongarch64-linux-gnu-as',d+'/a.s','-o',d+'/a.o'],check=True)
    o=subprocess.run(['loongarch64-linux-gnu-objdump','-s','-j','.text',d+'/a.o'],check=True,capture_output=True,text=True).stdout
    subprocess.run(['loongarch64-linux-gnu-objcopy','-O','binary','-j','.text',d+'/a.o',d+'/a.bin'],check=True)
    b=open(d+'/a.bin','rb').read()
    return [int.from_bytes(b[i:i+4],'little') for i in range(0,len(b),4)]
z=asm([f'{n} {F[f][0]}' for n,f in L]); o=asm([f'{n} {F[f][1]}' for n,f in L])
out=open(os.path.join(os.path.dirname(__file__),'../harness/isa_table.inc'),'w')
out.write('// Generated by tools/gen_isa.py from binutils encodings: ISA(mnemonic, format, match, mask)\n')
for (n,f),a,b in zip(L,z,o):
    base=a
    mask=(~(a^b))&0xffffffff
    if f=='JIRL' or f=='I16S': mask=0xfc000000
    if f=='BSW': mask=0xffe08000
    if f=='BSD': mask=0xffc00000
    if f=='AM': mask=0xffff8000
    base&=mask
    out.write(f'ISA("{n}", {f}, 0x{base:08x}, 0x{mask:08x})\n')
print(len(L), sorted(set(f for _,f in L)))
