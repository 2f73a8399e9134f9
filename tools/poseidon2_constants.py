P=0xFFFFFFFF00000001
def consts(t,RF,RP,n=64,field=1,sbox=0):
    init=[]
    for v,l in((field,2),(sbox,4),(n,12),(t,12),(RF,10),(RP,10),((1<<30)-1,30)):
        init+= [int(c) for c in bin(v)[2:].zfill(l)]
    s=init[:]
    def upd():
        b=s[62]^s[51]^s[38]^s[23]^s[13]^s[0]
        s.pop(0); s.append(b); return b
    for _ in range(160): upd()
    def bit():
        while True:
            b=upd()
            c=upd()
            if b==1: return c
    def rnd():
        x=0
        for _ in range(n): x=x*2+bit()
        return x
    out=[]
    while len(out)<RF*t+RP:
        x=rnd()
        while x>=P: x=rnd()
        out.append(x)
    return out
c=consts(12,8,22)
print(hex(c[0]),hex(c[1]))
D=[int(x,16) for x in "c3b6c08e23ba9300 d84b5de94a324fb6 0d0c371c5b35b84f 7964f570e7188037 5daf18bbd996604b 6743bc47b9595257 5528b9362c59bb70 ac45e25b7127b68b a2077d7dfbb606b5 f3faac6faee378ae 0c6388b51545e883 d27dbb6944917b60".split()]
def m4(s):
    for k in range(3):
        x=s[4*k:4*k+4]
        t0=x[0]+x[1];t1=x[2]+x[3];t2=2*x[1]+t1;t3=2*x[3]+t0;t4=4*t1+t3;t5=4*t0+t2;t6=t3+t5;t7=t2+t4
        s[4*k:4*k+4]=[t6%P,t5%P,t7%P,t4%P]
def ext(s):
    m4(s)
    st=[sum(s[4*j+l] for j in range(3))%P for l in range(4)]
    for i in range(12): s[i]=(s[i]+st[i%4])%P
def perm(s,RC,MID,stride,diagm1):
    s=list(s); ext(s)
    for r in range(4):
        for i in range(12): s[i]=pow((s[i]+RC[r*stride+i])%P,7,P)
        ext(s)
    for r in range(22):
        s[0]=pow((s[0]+MID[r])%P,7,P)
        sm=sum(s)%P
        for i in range(12): s[i]=(s[i]*(D[i]-diagm1)+sm)%P
    for r in range(4,8):
        for i in range(12): s[i]=pow((s[i]+RC[r*stride+i])%P,7,P)
        ext(s)
    return s
def h(data,*a):
    s=[0]*12
    for o in range(0,len(data),8):
        s[:8]=data[o:o+8] + s[len(data[o:o+8]):8]
        s=perm(s,*a)
    return b''.join(x.to_bytes(8,'little') for x in s[:4])
exp=bytes([232,132,143,27,162,220,25,57,138,30,151,109,192,132,26,242,155,95,48,48,8,55,240,62,54,195,137,239,231,140,205,53])
RC=c[:48]+c[70:]; MID=c[48:70]
for stride in(1,12):
  for d in(0,1):
    for pad in (0,1):
      a=(RC,MID,stride,d)
      f=lambda x,y:h(list(x+y)+([1]+[0]*7 if pad else []),*a)
      b=lambda v:bytes([v]*32)
      r=f(f(b(1),f(b(2),b(3))),b(4))
      print(stride,d,pad,r==exp)
print([hex(x) for x in RC]); print([hex(x) for x in MID])
