import sys, random; sys.path.insert(0,'/verif/engine')
from terms import *; import intlia, solve, z3
R=random.Random(int(sys.argv[1])); bad=0; uns=0; W=8
def gen(d,w):
    if d==0 or R.random()<.15:
        return const(R.choice([R.getrandbits(w),R.choice([0,1,2,3,5,6,7,8,15,16,31,127,128,240])]),w) if R.random()<.4 else var(R.choice("xyz")+str(w),w)
    o=R.choice(['add','sub','mul','udiv','urem','shl','lshr','and','or','xor','ite','zext','sext','ext','cat'])
    a=gen(d-1,w); b=gen(d-1,w)
    c=const(R.choice([1,2,3,4,5,6,7,12,24,63,255]),w)
    if o=='add': return add(a,b)
    if o=='sub': return sub(a,b)
    if o=='mul': return mul(a,R.choice([b,c]))
    if o=='udiv': return udiv(a,R.choice([c,c,b]))
    if o=='urem': return urem(a,R.choice([c,c,b]))
    if o=='shl': return shl(a,const(R.randrange(w),w))
    if o=='lshr': return lshr(a,const(R.randrange(w),w))
    if o=='and': return band(a,R.choice([b,c,const(0xF0,w),const(0x3C,w)]))
    if o=='or': return bor(a,b)
    if o=='xor': return bxor(a,b)
    if o=='ite': return Ite(genb(d-1,w),a,b)
    if w==16:
        if o=='zext': return zext(gen(d-1,8),16)
        if o=='sext': return sext(gen(d-1,8),16)
        if o=='cat': return concat(gen(d-1,8),gen(d-1,8))
    if w==8 and o=='ext': 
        l=R.randrange(9); return extract(gen(d-1,16),l+7,l)
    return add(a,b)
def genb(d,w):
    a=gen(d,w); b=gen(d,w); o=R.randrange(4)
    return Eq(a,b) if o==0 else ult(a,b) if o==1 else slt(a,b) if o==2 else Not(ult(a,b))
for it in range(int(sys.argv[2])):
    fs=[genb(3,R.choice([8,16])) for _ in range(R.choice([1,2,3,4]))]
    if any(f.op in('true','false') for f in fs): continue
    fs2=solve.elim_div(fs)
    r=intlia.int_check(fs,1000)
    if r=='unsat':
        uns+=1
        if solve.z3_check(fs,20000)[0]=='sat': bad+=1; print("UNSOUND",[show(f,9) for f in fs]); break
    a=solve.z3_check(fs,3000)[0]; b=solve.z3_check(fs2,3000)[0]
    if {a,b}=={'sat','unsat'}: print("DIV MISMATCH",a,b,[show(f,9) for f in fs]); break
print("done",uns,bad)
