#!/usr/bin/env python3
"""splice the entries of a file into props.py before the not-applicable ones"""
import sys
p='/verif/tools/props.py'; s=open(p).read(); n=open(sys.argv[1]).read()
m='# --- not applicable ---'
assert s.count(m)==1
open(p,'w').write(s.replace(m,n.strip()+'\n\n'+m))
