#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what it breaks' : turn the current edit of /repo into seeded/ID
   (demo.c/demo.sh must already be in seeded/ID or given by --demo DIR)"""
import sys, os, subprocess, json, shutil
V='/verif'; id_, prop, needs, what = sys.argv[1:5]
d = f'{V}/seeded/{id_}'; os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
assert diff.strip(), 'no edit in /repo'
open(d+'/patch.diff','w').write(diff)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d+'/meta.json','w'), indent=1)
for f in ('dk.h','dku.h','build.inc'): shutil.copy(f'{V}/tools/demokit/{f}', d)
subprocess.run(['git','-C','/repo','checkout','--','.'],check=True)
