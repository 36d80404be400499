#!/usr/bin/env python3
"""One-off cross-check of golden tables against independent sources: tests/data/*.TXT, CPython codecs, glibc iconv.
usage: xcheck.py tables.bin [-v]"""
import struct,sys,json,os,re,codecs,ctypes,ctypes.util
B=open(sys.argv[1],'rb').read(); V='-v' in sys.argv
W=memoryview(B).cast('I')
nenc,ntab,ninv,eo,to,io,nw=W[2:9]
ES=24+4+4+16+8+8+4+16*20
def encs():
    for i in range(nenc):
        b=B[eo*4+i*ES:eo*4+(i+1)*ES]
        idn=b[:24].split(b'\0')[0].decode(); f=struct.unpack('<IIIIIIIIIII',b[24:24+44])
        yield dict(id=idn,kind=chr(f[0]),table=f[1],inv=f[2:6],comp=f[6],ncomp=f[7],pair=f[8],npair=f[9],nsets=f[10])
def table(t):
    nodes,nn,s3,ns3,i3,ni3,s4,ns4=W[to+8*t:to+8*t+8]
    m={}
    for a in range(256):
        e=W[nodes+a]
        if e>>30==1: m[bytes([a])]=e&0x3fffffff
        elif e>>30==2:
            for b in range(256):
                x=W[nodes+(e&0x3fffffff)*256+b]
                if x>>30==1: m[bytes([a,b])]=x&0x3fffffff
    for k in range(ns3): m[W[s3+2*k].to_bytes(3,'big')]=W[s3+2*k+1]
    for k in range(ns4): m[W[s4+2*k].to_bytes(4,'big')]=W[s4+2*k+1]
    return m
def inv(v):
    d,p,n=W[io+3*v:io+3*v+3]; m={}
    for pg in range(0x1100):
        x=W[d+pg]
        if x:
            for c in range(256):
                hi,lo=W[p+(x-1)*512+2*c],W[p+(x-1)*512+2*c+1]
                if hi: m[pg*256+c]=lo.to_bytes(4,'big')[:hi&0x7f]
    return m
names={e['id']:e for e in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../golden/names.json')))}
libc=ctypes.CDLL(None,use_errno=True)
libc.iconv_open.restype=ctypes.c_void_p; libc.iconv_open.argtypes=[ctypes.c_char_p]*2
libc.iconv.restype=ctypes.c_size_t; libc.iconv.argtypes=[ctypes.c_void_p]+[ctypes.c_void_p]*4
libc.iconv_close.argtypes=[ctypes.c_void_p]
def giconv(frm):
    cd=libc.iconv_open(b'UCS-4BE',frm.encode())
    if cd in (None,2**64-1): return None
    def f(s):
        libc.iconv(cd,None,None,None,None)
        ib=ctypes.create_string_buffer(s,len(s)); ip=ctypes.c_void_p(ctypes.addressof(ib)); il=ctypes.c_size_t(len(s))
        ob=ctypes.create_string_buffer(32); op=ctypes.c_void_p(ctypes.addressof(ob)); ol=ctypes.c_size_t(32)
        r=libc.iconv(cd,ctypes.byref(ip),ctypes.byref(il),ctypes.byref(op),ctypes.byref(ol))
        if r==2**64-1: return None
        libc.iconv(cd,None,None,ctypes.byref(op),ctypes.byref(ol))
        o=ob.raw[:32-ol.value]
        return tuple(int.from_bytes(o[i:i+4],'big') for i in range(0,len(o),4))
    return f
DATA='/repo/tests/data/'
files={re.sub(r'[-_:]','',f[:-4]).upper():f for f in os.listdir(DATA) if f.endswith('.TXT') and 'IRREV' not in f}
tot={}
for e in encs():
    if e['kind'] in 'UE': continue
    m=table(e['table'])
    prs=[tuple(W[e['pair']+4*i:e['pair']+4*i+2]) for i in range(e['npair'])]
    def chars(v):
        if v&0x200000: return prs[v&0x1fffff]
        return (v&0x1fffff,)
    m={k:chars(v) for k,v in m.items()}
    iv=inv(e['inv'][0]-1)
    nm=names[e['id']]['names']; ev=[]
    allkeys=[bytes([a]) for a in range(256)]+([bytes([a,b]) for a in range(256) for b in range(256) if bytes([a]) not in m] if max(map(len,m))>1 else [])
    if e['id'].startswith('gb18030'): allkeys=[k for i,k in enumerate(m) if i%7==0 or len(k)<4]
    elif max(map(len,m))>2: allkeys+= [k for k in m if len(k)>2]
    # 1. repo table
    f=[files[re.sub(r'[-_:]','',n).upper()] for n in nm+['IBM'+n[6:] for n in nm if n.startswith('EBCDIC')] if re.sub(r'[-_:]','',n).upper() in files]
    if f:
        t={}
        for l in open(DATA+f[0]):
            p=l.split()
            if len(p)<2 or not p[0].startswith('0x'): continue
            t[bytes.fromhex(p[0][2:])]=tuple(int(x,16) for x in p[1:] if x.startswith('0x'))
        bad=[(k.hex(),m.get(k),t.get(k)) for k in set(m)|set(t) if m.get(k)!=t.get(k)]
        irr=DATA+f[0][:-4]+'.IRREVERSIBLE.TXT'; irk=set()
        if os.path.exists(irr): irk={bytes.fromhex(l.split()[0][2:]) for l in open(irr) if l.startswith('0x')}
        ibad=[]
        for k,v in t.items():
            if len(v)==1 and k not in irk and iv.get(v[0])!=k: ibad.append((k.hex(),v))
        ev.append(('TXT',len(t),bad,ibad))
    # 2. python
    for n in nm+[e['id'],e['id'].replace('ebcdic','cp'),e['id'].replace('iso646_','')]:
        try: c=codecs.lookup(n)
        except Exception: continue
        if c.name in('idna','punycode'): continue
        bad=[]
        for k in allkeys:
            try: x=tuple(map(ord,c.decode(k)[0]))
            except UnicodeError: x=None
            if x==(): x=None
            if x is not None and (len(k)>1 and len(x)>1 and x!=m.get(k) and len(x)==len(k)): continue
            if x!=m.get(k): bad.append((k.hex(),m.get(k),x))
        ev.append(('py:'+c.name,len(allkeys),bad,[])); break
    # 3. glibc
    G={'euc_cn':'EUC-CN','ces_gbk':'GBK','isoir165':'ISO-IR-165','ces_big5':'BIG5'}
    for n in [G.get(e['id'],e['id'])]+nm+[x.replace('EBCDIC','IBM') for x in nm]+[re.sub(r'^ISO8859(\d+)$',r'ISO-8859-\1',x) for x in nm]:
        g=giconv(n.replace('_','-') if False else n)
        if not g: continue
        bad=[]
        for k in allkeys:
            x=g(k)
            if x==(): x=None
            if x is not None and len(k)>1 and len(x)==len(k): continue
            if x!=m.get(k): bad.append((k.hex(),m.get(k),x))
        ev.append(('glibc:'+n,len(allkeys),bad,[])); break
    print(e['id'],len(m),len(iv),[(a,b,len(c),len(d)) for a,b,c,d in ev] or 'NO SOURCE',flush=True)
    if V:
        for a,b,c,d in ev:
            if c or d: print('   ',a,sorted(c)[:8],d[:5])
