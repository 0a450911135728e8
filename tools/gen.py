"""Random and boundary scripts for protocol objects (inputs only; the verdict
on what the code does with them comes from the TLA+ specification)."""
import random, struct
STOP,BOOL,BYTE,DOUBLE,I16,I32,I64,STRING,STRUCT,MAP,SET,LIST,BINARY = 0,2,3,4,6,8,10,11,12,13,14,15,18
SCALARS=[BOOL,BYTE,I16,I32,I64,DOUBLE,STRING,BINARY]
CONTAINERS=[STRUCT,MAP,SET,LIST]

def be(v,n): return list((v & ((1<<(8*n))-1)).to_bytes(n,'big'))
def sgn(bs):
    return int.from_bytes(bytes(bs),'big',signed=True)
DOUBLES=[0.0,-0.0,1.0,-1.0,0.5,1.5,3.141592653589793,1e10,-1e10,1e-10,1e100,-1e-100,5e-324,1.7976931348623157e308,
         2.2250738585072014e-308,float('inf'),float('-inf'),float('nan'),123456789.125,-0.1,1e21,1e20,1e22,1e-7,1e-6,4503599627370497.5,9007199254740993.0]
def dbl(x): return list(struct.pack('>d',x))

def edge_int(r,n):
    bits=8*n
    c=r.randrange(8)
    if c==0: return r.choice([0,1,-1,2,-2])
    if c==1:
        k=r.randrange(bits-1); v=(1<<k)+r.choice([-1,0,1]); return r.choice([v,-v])
    if c==2: return r.choice([(1<<(bits-1))-1,-(1<<(bits-1)),(1<<(bits-1))-2,-(1<<(bits-1))+1])
    if c==3: # zigzag/varint boundaries
        k=7*r.randrange(1,bits//7+1); v=(1<<(min(k,bits-1)-1))+r.choice([-1,0,1]); return r.choice([v,-v])
    if c==4: return r.randrange(-300,300)
    v=r.getrandbits(bits); return v-(1<<bits) if v>>(bits-1) else v

ASCII=[chr(c) for c in range(0x20,0x7f)]
SPECIAL=['"','\\','/','\b','\f','\n','\r','\t','\x00','\x01','\x1f','\x7f','<','>','&',"'",'\u2028','\u2029','é','ß','漢','字','😀','\ufeff','\ud7ff','\ue000','\uffff','\U0010ffff','[',']','{','}',',',':','null','true','false','NaN','Infinity']
def text(r,maxlen=24):
    c=r.randrange(7)
    if c==0: return ''
    if c==1: return ''.join(r.choice(ASCII) for _ in range(r.randrange(1,maxlen)))
    if c==2: return ''.join(r.choice(SPECIAL) for _ in range(r.randrange(1,8)))
    if c==3: return ''.join(r.choice(ASCII+SPECIAL) for _ in range(r.randrange(1,maxlen)))
    if c==4: return r.choice(['0','1','-1','null','NaN','Infinity','-Infinity','tf','rec','[]','{}','""','\\u0041','\\','"',' ','  a '])
    return ''.join(r.choice('abcXYZ012_') for _ in range(r.randrange(1,12)))
def raw(r,maxlen=24):
    n=r.choice([0,1,2,3,4,5,6,7,8,r.randrange(maxlen+1)])
    return [r.choice([0,255,128,127,10,34,92,r.randrange(256)]) for _ in range(n)]

class Gen:
    def __init__(self,rng,utf8=False,maxdepth=4,binary=True,wide=6):
        self.r=rng; self.utf8=utf8; self.maxdepth=maxdepth; self.binary=binary; self.wide=wide; self.budget=60
    def scalar_type(self):
        ts=SCALARS if self.binary else SCALARS[:-1]
        return self.r.choice(ts)
    def type(self,depth):
        if depth>=self.maxdepth or self.budget<=0 or self.r.random()<0.55: return self.scalar_type()
        return self.r.choice(CONTAINERS)
    def size(self):
        r=self.r; c=r.randrange(10)
        if c==0: return 0
        if c<7: return r.randrange(1,4)
        if c<9: return r.randrange(1,self.wide)
        return r.choice([13,14,15,16,17])
    def value(self,t,depth=0):
        r=self.r; self.budget-=1
        if t==BOOL: return (t,r.randrange(2))
        if t==BYTE: return (t,r.choice([0,1,2,127,128,129,255,r.randrange(256)]))
        if t==I16: return (t,be(edge_int(r,2),2))
        if t==I32: return (t,be(edge_int(r,4),4))
        if t==I64: return (t,be(edge_int(r,8),8))
        if t==DOUBLE:
            c=r.randrange(4)
            if c<2: return (t,dbl(r.choice(DOUBLES)))
            if c==2: return (t,dbl(r.choice([r.uniform(-1e3,1e3),r.uniform(-1,1)*10**r.randrange(-300,300)])))
            b=[r.randrange(256) for _ in range(8)]
            x=struct.unpack('>d',bytes(b))[0]
            if x!=x: b=dbl(float('nan'))
            return (t,b)
        if t==STRING: return (t,list(text(r).encode('utf-8','surrogatepass')) if self.utf8 else r.choice([list(text(r).encode()),raw(r)]))
        if t==BINARY: return (t,raw(r))
        if t==STRUCT:
            n=r.choice([0,1,1,2,2,3,3,4,r.randrange(1,8)])
            ids=self.ids(n)
            return (t,self.name(),[(self.name(),i,self.value(self.type(depth+1),depth+1)) for i in ids])
        if t in (LIST,SET):
            et=self.type(depth+1); n=self.size()
            if et in CONTAINERS: n=min(n,4)
            if self.budget<0: n=min(n,2)
            return (t,et,[self.value(et,depth+1) for _ in range(n)])
        if t==MAP:
            kt=self.type(depth+1); vt=self.type(depth+1); n=self.size()
            if kt in CONTAINERS or vt in CONTAINERS: n=min(n,3)
            if self.budget<0: n=min(n,2)
            return (t,kt,vt,[(self.value(kt,depth+1),self.value(vt,depth+1)) for _ in range(n)])
        raise ValueError(t)
    def name(self):
        return list(text(self.r,10).encode()) if self.r.random()<0.3 else list(self.r.choice(['a','b','foo','barBaz','x1']).encode())
    def ids(self,n):
        r=self.r; out=[]; last=0; mode=r.randrange(6)
        for _ in range(n):
            if mode==0: v=last+1
            elif mode==1: v=last+r.choice([1,2,14,15,16,17])
            elif mode==2: v=r.randrange(-32768,32768)
            elif mode==3: v=r.choice([-32768,32767,-1,0,1,15,16,127,128,255,256,300,16383,16384])
            elif mode==4: v=max(-32768,last-r.choice([1,2,15,16]))
            else: v=last+r.choice([1,1,2,-1,15,16,100,0])
            v=max(-32768,min(32767,v)); out.append(v); last=v
        return out

def O(o,**k):
    k['o']=o; return k
def ops_value(v):
    t=v[0]
    if t==BOOL: return [O('Bool',n=v[1])]
    if t==BYTE: return [O('Byte',n=v[1])]
    if t==I16: return [O('I16',v=v[1])]
    if t==I32: return [O('I32',v=v[1])]
    if t==I64: return [O('I64',v=v[1])]
    if t==DOUBLE: return [O('Dbl',v=v[1])]
    if t==STRING: return [O('Str',v=v[1])]
    if t==BINARY: return [O('Bin',v=v[1])]
    if t==STRUCT:
        out=[O('StrB',name=v[1])]
        for (nm,i,x) in v[2]:
            out+= [O('FldB',name=nm,t=x[0],id=i)]+ops_value(x)+[O('FldE')]
        return out+[O('Stop'),O('StrE')]
    if t in (LIST,SET):
        k='Lst' if t==LIST else 'Set'
        out=[O(k+'B',t=v[1],n=len(v[2]))]
        for x in v[2]: out+=ops_value(x)
        return out+[O(k+'E')]
    if t==MAP:
        out=[O('MapB',kt=v[1],t=v[2],n=len(v[3]))]
        for a,b in v[3]: out+=ops_value(a)+ops_value(b)
        return out+[O('MapE')]
def ops_msg(name,mt,seq,body):
    return [O('MsgB',name=name,t=mt,v=be(seq,4))]+ops_value(body)+[O('MsgE')]

# ---- wire generators for reading (with non-canonical but valid forms) ----
def zz(v,bits): return ((v<<1)^(v>>(bits-1))) & ((1<<bits)-1)
def varint(u,r=None,maxlen=0):
    out=[]
    while True:
        if u<128: out.append(u); break
        out.append((u&127)|128); u>>=7
    if r is not None and r.random()<0.05:
        k=r.randrange(0,maxlen-len(out)+1) if maxlen>len(out) else 0
        if k>0:
            out[-1]|=128; out+= [128]*(k-1)+[0]
    return out
def wire(t): return STRING if t==BINARY else t
def enc_bin(v):
    t=v[0]
    if t in (BOOL,BYTE): return [v[1]]
    if t in (I16,I32,I64,DOUBLE): return list(v[1])
    if t in (STRING,BINARY): return be(len(v[1]),4)+list(v[1])
    if t==STRUCT:
        o=[]
        for (nm,i,x) in v[2]: o+=[wire(x[0])]+be(i,2)+enc_bin(x)
        return o+[0]
    if t in (LIST,SET):
        o=[wire(v[1])]+be(len(v[2]),4)
        for x in v[2]: o+=enc_bin(x)
        return o
    if t==MAP:
        o=[wire(v[1]),wire(v[2])]+be(len(v[3]),4)
        for a,b in v[3]: o+=enc_bin(a)+enc_bin(b)
        return o
CT={BOOL:1,BYTE:3,I16:4,I32:5,I64:6,DOUBLE:7,STRING:8,BINARY:8,LIST:9,SET:10,MAP:11,STRUCT:12}
def enc_com(v,r):
    t=v[0]
    if t==BOOL: return [1 if v[1] else 2]
    if t==BYTE: return [v[1]]
    if t==I16: return varint(zz(sgn(v[1]),32),r,5)
    if t==I32: return varint(zz(sgn(v[1]),32),r,5)
    if t==I64: return varint(zz(sgn(v[1]),64),r,10)
    if t==DOUBLE: return list(reversed(v[1]))
    if t in (STRING,BINARY): return varint(len(v[1]),r,5)+list(v[1])
    if t==STRUCT:
        o=[]; last=0
        for (nm,i,x) in v[2]:
            ct=CT[x[0]]
            if x[0]==BOOL: ct=1 if x[1] else 2
            if 1<=i-last<=15 and r.random()<0.9: o+=[(i-last)<<4|ct]
            else: o+=[ct]+varint(zz(i,32),r,5)
            last=i
            if x[0]!=BOOL: o+=enc_com(x,r)
        return o+[0]
    if t in (LIST,SET):
        n=len(v[2]); ct=CT[v[1]]
        if v[1]==BOOL and r.random()<0.2: ct=2
        o=[n<<4|ct] if n<=14 and r.random()<0.9 else [0xf0|ct]+varint(n,r,5)
        for x in v[2]: o+=enc_com(x,r)
        return o
    if t==MAP:
        n=len(v[3])
        if n==0: return varint(0,r,3)
        k,w=CT[v[1]],CT[v[2]]
        o=varint(n,r,5)+[k<<4|w]
        for a,b in v[3]: o+=enc_com(a,r)+enc_com(b,r)
        return o
def enc_msg(proto,name,mt,seq,r,strict):
    if proto=='bin':
        if strict: return [128,1,0,mt]+be(len(name),4)+list(name)+be(seq,4)
        return be(len(name),4)+list(name)+[mt]+be(seq,4)
    return [0x82,1|(mt<<5)]+varint(seq&0xffffffff,r,5)+varint(len(name),r,5)+list(name)
def enc(proto,v,r):
    if proto in ('json','sjson'): return enc_json(v,r,proto=='json')
    return enc_bin(v) if proto=='bin' else enc_com(v,r)
def enc_whole_msg(proto,name,mt,seq,body,r,strict):
    if proto in ('json','sjson'):
        return jlist(([[49]] if proto=='json' else [])+[jstr(name,r),jint(mt),jint(seq),enc(proto,body,r)],r)
    return enc_msg(proto,name,mt,seq,r,strict)+enc(proto,body,r)

# ---- JSON, with the liberties a JSON writer may take ----
import base64
JN={BOOL:'tf',BYTE:'i8',I16:'i16',I32:'i32',I64:'i64',DOUBLE:'dbl',STRING:'str',BINARY:'str',STRUCT:'rec',MAP:'map',SET:'set',LIST:'lst'}
def ws(r): return [] if r.random()<0.92 else [r.choice([32,32,10,9,13]) for _ in range(r.choice([1,1,2,5]))]
def jint(n): return list(str(n).encode())
def jstr(b,r):
    """b: UTF-8 bytes"""
    out='"'
    esc={'"':'\\"','\\':'\\\\','\n':'\\n','\t':'\\t','\r':'\\r','\b':'\\b','\f':'\\f'}
    for c in bytes(b).decode('utf-8'):
        o=ord(c); x=r.random()
        if c in esc and x<0.8: out+=esc[c]
        elif c=='/' and x<0.3: out+='\\/'
        elif o<32 or c in esc or x<0.05:
            u=[o] if o<0x10000 else [0xd800+((o-0x10000)>>10),0xdc00+((o-0x10000)&0x3ff)]
            out+=''.join(('\\u%04x' if r.random()<0.5 else '\\u%04X')%k for k in u)
        else: out+=c
    return list((out+'"').encode())
def jdbl(bs,r):
    x=struct.unpack('>d',bytes(bs))[0]
    if x!=x: return list(b'"NaN"')
    if x in (float('inf'),float('-inf')): return list(b'"Infinity"' if x>0 else b'"-Infinity"')
    s=repr(x)
    c=r.randrange(4)
    if c==0: s=s.replace('e','E')
    elif c==1: s='%.17e'%x
    elif c==2 and s.endswith('.0') : s=s[:-2]
    return list(s.encode())
def jlist(parts,r):
    o=[91]
    for i,p in enumerate(parts): o+=([44] if i else [])+ws(r)+p+ws(r)
    return o+[93]
def enc_json(v,r,full):
    t=v[0]; e=lambda x: enc_json(x,r,full)
    if t==BOOL: return list(b'true' if v[1] else b'false')
    if t==BYTE: return jint(v[1] if v[1]<128 or r.random()<0.5 else v[1]-256)
    if t in (I16,I32,I64): return jint(sgn(v[1]))
    if t==DOUBLE: return jdbl(v[1],r)
    if t==STRING: return jstr(v[1],r)
    if t==BINARY: return [34]+list(base64.b64encode(bytes(v[1])))+[34]
    if t==STRUCT:
        o=[123]
        for k,(nm,i,x) in enumerate(v[2]):
            o+=([44] if k else [])+ws(r)
            if full: o+=[34]+jint(i)+[34]+ws(r)+[58]+ws(r)+[123]+ws(r)+jstr(JN[x[0]].encode(),r)+ws(r)+[58]+ws(r)+e(x)+ws(r)+[125]
            else: o+=jstr(nm,r)+ws(r)+[58]+ws(r)+e(x)
            o+=ws(r)
        return o+ws(r)+[125]
    if t in (LIST,SET): return jlist([jint(v[1]),jint(len(v[2]))]+[e(x) for x in v[2]],r)
    if t==MAP:
        h=[jstr(JN[v[1]].encode(),r),jstr(JN[v[2]].encode(),r)] if full else [jint(v[1]),jint(v[2])]
        return jlist(h+[jint(len(v[3]))]+[e(z) for a,b in v[3] for z in (a,b)],r)
def rops_value(v):
    """the read calls that answer the write calls of a value"""
    return rops(ops_value(v))
def rops(ops):
    return [O('RFldB') if o['o']=='Stop' else O('R'+o['o']) for o in ops if o['o']!='Flush']
