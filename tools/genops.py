#!/usr/bin/env python3
"""Writes schemas/wops.zs: every pair of binary operators, in both groupings,
as constants, enum items and functions, with operands that tell operators and
groupings apart."""
import itertools
prec={'*':10,'/':10,'%':10,'+':9,'-':9,'<<':8,'>>':8,'<':7,'<=':7,'>':7,'>=':7,'==':6,'!=':6,'&':5,'^':4,'|':3,'&&':2,'||':1}
ints=['*','/','%','+','-','<<','>>','&','^','|']
rels=['<','<=','>','>=','==','!=']
logs=['&&','||']
def ap(o,a,b):
    if o=='/' or o=='%':
        if b<=0 or a<0: raise ValueError
        return a//b if o=='/' else a%b
    if o in('<<','>>'):
        if not 0<=b<20 or a<0: raise ValueError
        return a<<b if o=='<<' else a>>b
    if o in('&','^','|') and (a<0 or b<0): raise ValueError
    return {'*':lambda:a*b,'+':lambda:a+b,'-':lambda:a-b,'&':lambda:a&b,'^':lambda:a^b,'|':lambda:a|b}[o]()
def left(p,q): return prec[p]>=prec[q]
names={'*':'Mul','/':'Div','%':'Mod','+':'Add','-':'Sub','<<':'Shl','>>':'Shr','&':'And','^':'Xor','|':'Or','<':'Lt','<=':'Le','>':'Gt','>=':'Ge','==':'Eq','!=':'Ne','&&':'Land','||':'Lor'}
out=['package wops;','']
consts=[];items=[];funcs=[]
vals=[1,2,3,5,6,7,9,12,13,25,40,100,201]
def pick(p,q):
    best=None
    for a,b,c in itertools.product(reversed(vals),vals,vals):
        try:
            l=ap(q,ap(p,a,b),c)
        except ValueError: l=None
        try: r=ap(p,a,ap(q,b,c))
        except ValueError: r=None
        nat,oth=(l,r) if left(p,q) else (r,l)
        if nat is None or abs(nat)>10**6: continue
        sc=(nat!=oth)*4+(oth is not None)*2+(nat>0)+(oth is not None and oth!=0)
        alts=set()
        for o in ints:
            try: alts.add(ap(o,a,b) if left(p,q) else ap(o,b,c))
            except ValueError: pass
        sc=sc*10+len(alts)
        if best is None or sc>best[0]: best=(sc,a,b,c,nat,oth)
    return best
k=0
used=set()
for p in ints:
    for q in ints:
        b=pick(p,q)
        if b is None: continue
        _,x,y,z,nat,oth=b
        n=names[p]+names[q]
        e=f'{x} {p} {y} {q} {z}'
        consts.append(f'const int64 K_{n.upper()} = {e};')
        if nat not in used:
            used.add(nat); items.append(f'    I_{n.upper()} = {e},')
        funcs.append(f'    function int32 f{n}() {{ return a {p} b {q} c; }}')
        g=f'{x} {p} ({y} {q} {z})' if left(p,q) else f'({x} {p} {y}) {q} {z}'
        fg=f'a {p} (b {q} c)' if left(p,q) else f'(a {p} b) {q} c'
        if oth is not None and abs(oth)<2**31:
            consts.append(f'const int64 G_{n.upper()} = {g};')
            if oth not in used:
                used.add(oth); items.append(f'    J_{n.upper()} = {g},')
        funcs.append(f'    function int32 g{n}() {{ return {fg}; }}')
for p in ints:
    for r in rels:
        n=names[p]+names[r]
        lp,rp=('(',')') if p in '&^|' else ('','')
        consts.append(f'const bool B_{n.upper()} = {lp}12 {p} 5{rp} {r} 5;')
        consts.append(f'const bool D_{n.upper()} = 5 {r} {lp}12 {p} 5{rp};')
        consts.append(f'const bool E_{n.upper()} = {lp}12 {p} 5{rp} {r} {ap(p,12,5)};')
        funcs.append(f'    function bool b{n}() {{ return {lp}a {p} b{rp} {r} c; }}')
        funcs.append(f'    function bool d{n}() {{ return a {r} {lp}b {p} c{rp}; }}')
for r in rels:
    for l in logs:
        n=names[r]+names[l]
        for i,(u,v) in enumerate([(3,4),(4,4),(5,4)]):
            for j,t in enumerate(['true','false']):
                consts.append(f'const bool L_{n.upper()}_{i}{j} = {u} {r} {v} {l} {t};')
                consts.append(f'const bool M_{n.upper()}_{i}{j} = {t} {l} {u} {r} {v};')
        funcs.append(f'    function bool l{n}() {{ return a {r} b {l} p; }}')
        funcs.append(f'    function bool m{n}() {{ return p {l} a {r} b; }}')
for l in logs:
    for m in logs:
        n=names[l]+names[m]
        for i in range(8):
            x,y,z=[('true','false')[i>>s&1] for s in range(3)]
            consts.append(f'const bool P_{n.upper()}_{i} = {x} {l} {y} {m} {z};')
            consts.append(f'const bool Q_{n.upper()}_{i} = {x} {l} ({y} {m} {z});')
        funcs.append(f'    function bool p{n}() {{ return p {l} q {m} r; }}')
        funcs.append(f'    function bool q{n}() {{ return p {l} (q {m} r); }}')
        funcs.append(f'    function bool n{n}() {{ return !(p {l} q) {m} !r; }}')
consts+=['const int64 U_NEG = -7 + 3;','const int64 U_NEGP = -(7 + 3);','const int64 U_NEGNEG = 5 - -3;','const int64 U_MULNEG = 4 * -3;','const int64 U_PLUS = +7 - 2;',
'const int64 U_NOT = ~5;','const int64 U_NOTAND = ~5 & 255;','const bool U_LNOT = !true;','const bool U_LNOTP = !(3 < 2) && true;','const int64 U_TERN = 3 > 2 ? 10 : 20;','const int64 U_TERN2 = 3 < 2 ? 10 : 20;',
'const int64 U_BITS0 = numbits(0);','const int64 U_BITS1 = numbits(1);','const int64 U_BITS2 = numbits(2);','const int64 U_BITS3 = numbits(3);','const int64 U_BITS4 = numbits(4);','const int64 U_BITS5 = numbits(5);','const int64 U_BITS255 = numbits(255);','const int64 U_BITS256 = numbits(256);','const int64 U_BITS257 = numbits(257);','const int64 U_BITSBIG = numbits(1 << 40);',
'const string U_STR = "one" + "two" + "three";','const int64 U_HEX = 0x1F + 0xa0;','const int64 U_OCT = 017 + 1;','const int64 U_BIN = 101b + 1b;','const int64 U_MAX = 9223372036854775807;','const int64 U_DEEP = ((1 + 2) * (3 + 4) - (5 - 6)) << (1 + 1);','const uint64 U_REF = K_ADDMUL + K_SUBSUB * 2;']
neg=[]
for i,(x,y) in enumerate([(-7,4),(7,-4),(-7,-4),(-1,2),(-8,3),(0,5),(1,1),(255,255),(4096,12)]):
    for o in ints:
        if o in('<<','>>') and not 0<=y<=20: continue
        n=f'{names[o].upper()}_{i}'
        neg.append((n,f'{x} {o} {y}'))
neg+=[('NOT_NEG','~-7'),('NOT_NOT','~~9'),('NEG_NEG','-(-9)'),('NEG_NOT','-~9'),('PAREN','((((11))))')]
lits=['0','7','10','99','2147483647','4294967295','00','07','010','0400','0777','0x0','0x9','0x10','0xff','0xFF','0xAbC','0X1e','0x7fffffff','0b','1b','10b','0101b','11111111b','100000000b']
neg+=[(f'LIT_{i}',l) for i,l in enumerate(lits)]
neg+=[(f'NEGLIT_{i}','-'+l) for i,l in enumerate(lits)]
neg+=[(f'SUMLIT_{i}','1 + '+l+' * 2') for i,l in enumerate(lits)]
neg+=[(f'NUMBITS_{v}',f'numbits({v})') for v in (0,1,2,3,4,5,7,8,9,255,256,257,65535,65536,65537)]
consts+=[f'const int64 N_{n} = {e};' for n,e in neg]
out+=consts
for i,(n,e) in enumerate(neg): out+=['',f'enum int64 Evaluated{i}','{',f'    V_{n} = {e},','    W,','};']
out+=['','enum int64 Ops','{']+items+['};','']
out+=['enum int32 Auto','{','    ZERO,','    ONE,','    SIX = 2 * 3,','    SEVEN,','    TWENTY = 4 * 5,','    TWENTY_ONE,','    MINUS = -4,','    MINUS_THREE,','    FROM_CONST = U_DEEP,','    NEXT,','};','']
out+=['enum uint8 OnlyAuto','{','    A0, A1, A2, A3,','};','']
out+=['enum uint16 Cased','{','    first_item = 10,','    SecondItem = 11,','    THIRD_ITEM = 12,','    fourth4 = 5,','    FIFTH,','};','']
out+=['bitmask uint32 Mask','{','    FIRST,','    SECOND,','    THIRD,','    HUNDRED = 0x100,','    AFTER,','    FIVE = 5,','    EIGHT,','    COMB = 1 << 12 | 3,','    LAST,','};','']
out+=['bitmask uint8 Mask0','{','    NONE = 0,','    ONE,','    TWO,','    LAST = 1 << 6,','    TOP,','};','']
out+=['struct Ops32(bool p, bool q, bool r)','{','    int32 a;','    int32 b;','    int32 c;','']+funcs
out+=['    function int32 negated() { return -a + b; }','    function int32 negatedSum() { return -(a + b); }','    function int32 subNeg() { return a - -b; }','    function bool notted() { return !p && q; }',
'    function int32 chosen() { return p ? a : b; }','    function int32 chosenSum() { return a > b ? a - b : b - a; }','    function int32 constants() { return a + U_NEG; }','    function int32 item() { return Auto.SEVEN + a; }','    function int32 nested() { return fAddMul() + gSubSub() * c; }','    function int32 deep() { return ((a + b) * (b - c) - (c - a)) / (a + 1); }','};','']
out+=['struct Defaults','{']
for t,v in [('uint8','7'),('uint16','3 * 100 + 1'),('uint32','K_ADDMUL'),('uint64','1 << 40'),('int8','-5'),('int16','-(100 + 1)'),('int32','U_NEG'),('int64','-1'),('varint','70000'),('varuint32','numbits(256)'),('varsize','9'),('bit:5','17'),('int:6','-3'),('bool','true'),('bool','3 > 4'),('string','"text"'),('string','"a" + "b"')]:
    out.append(f'    {t} d{len(out)} = {v};')
out+=['    Auto dAuto = Auto.SIX;','    Mask dMask = Mask.HUNDRED;','    uint8 noDefault;','    Plain plain;','    optional uint8 opt;','    uint8 list[];','};','','struct Plain','{','    uint16 x = 99;','    uint16 y;','};']
open('/verif/schemas/wops.zs','w').write('\n'.join(out)+'\n')
