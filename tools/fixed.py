"""Records the last commit of /repo as a repair: fixed.py PROPERTY WHAT"""
import json, subprocess, sys
p='/verif/known_findings.json'; d=json.load(open(p)); h=subprocess.run(['git','-C','/repo','log','-1','--format=%h'],capture_output=True,text=True).stdout.strip()
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[2])); json.dump(d, open(p,'w'), indent=1)
