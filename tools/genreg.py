#!/usr/bin/env python3
"""Regenerates harness/props/registry.go: the map of harness functions used by native replay."""
import re,glob,os
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','props')
fs=[]
for f in sorted(glob.glob(d+'/*.go')):
    if f.endswith('registry.go'): continue
    fs+=re.findall(r'^func (C\d\d\w*)\(\) \{',open(f).read(),re.M)
out='// Code generated by tools/genreg.py; DO NOT EDIT.\n\npackage props\n\n// Registry maps harness names to their functions.\nvar Registry = map[string]func(){\n'
out+=''.join('\t"%s": %s,\n'%(x,x) for x in sorted(fs))+'}\n'
open(d+'/registry.go','w').write(out)
