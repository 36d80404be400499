#!/usr/bin/env python3
"""One-off: records the published names/code pages (golden/names.json) from the pinned tree's encodings.h.snippet."""
import re,json,sys
s=open('/repo/lib/encodings.h.snippet').read()
s=re.sub(r'/\*.*?\*/','',s,flags=re.S); s=re.sub(r'//[^\n]*','',s)
assert '#' not in s, [l for l in s.split('\n') if '#' in l]
out={}; order=[]
for m in re.finditer(r'DEFENCODING\(\(\s*(.*?)\),\s*(\w+),\s*(\w+),\s*\{(.*?)\},\s*\{(.*?)\}\)|DEFCODEPAGE\((\d+),\s*(\w+)\)|DEFINDEX\((\w+),\s*(\w+)\)',s,flags=re.S):
    if m.group(2):
        names=re.findall(r'"([^"]*)"',m.group(1))
        out[m.group(2)]=dict(id=m.group(2),const=m.group(3),names=names,codepages=[],flush='NULL' not in m.group(4),reset='NULL' not in m.group(5))
        order.append(m.group(2))
    elif m.group(6): out[m.group(7)]['codepages'].append(int(m.group(6)))
    else: out.setdefault('_idx',[]).append((m.group(8),m.group(9)))
print(len(order), out.pop('_idx',None))
out['cp949']['names'].remove('KSC56011987')   # listed twice; the lookup gives ksc5601
json.dump([out[o] for o in order],open('/verif/golden/names.json','w'),indent=0)
