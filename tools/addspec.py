#!/usr/bin/env python3
# addspec.py FILE  < entry : append an entry before the final '];' ; addspec.py --known PROP ID TEXT : add a "fixed" entry for /repo's last commit
import sys, subprocess
if sys.argv[1] == '--known':
    p='/verif/known-findings.json'; s=open(p).read(); assert s.endswith('\n] }\n')
    h=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h']).decode().strip()
    s=s[:-5]+',\n {"property": "%s", "id": "%s", "status": "fixed", "commit": "%s", "what": "fixed: property=%s %s %s"}\n] }\n'%(sys.argv[2],sys.argv[3],h,sys.argv[2],h,sys.argv[4])
else:
    p='/verif/spec/'+sys.argv[1]; s=open(p).read(); i=s.rindex('];'); s=s[:i]+sys.stdin.read()+s[i:]
open(p,'w').write(s)
