#!/usr/bin/env python3
"""names.json -> encs.inc: the list of published encodings for the C++ monitors."""
import json,sys,os
d=json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","golden","names.json")))
def c(s): return '"'+s.replace('\\','\\\\').replace('"','\\"')+'"'
for e in d:
    print('{%s,"%s",ENCODING_%s,{%s},{%s}},'%(c(e["id"]),e["const"],e["const"],",".join(map(c,e["names"])),",".join(map(str,e["codepages"]))))
