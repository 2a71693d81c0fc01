#!/usr/bin/env python3
"""mkseed.py ID PROP FILE: reads from stdin a JSON-free spec: sections separated by lines '=====':
old text, new text [, old, new ...] then demo.sh, then what_it_breaks, then needs.
Several files: lines '@@@ path' at the start of an old section switch the file."""
import sys,subprocess,os,json
sid,prop,f=sys.argv[1:4]
parts=sys.stdin.read().split("\n=====\n")
needs=parts.pop().strip(); what=parts.pop().strip(); demo=parts.pop()
assert len(parts)%2==0
R="/tmp/sd-mk-"+sid
subprocess.check_call(["rm","-rf",R]); subprocess.check_call(["cp","-a","/repo",R]); subprocess.check_call(["git","-C",R,"checkout","-q","--","."])
d=f"/verif/seeded/{sid}"; os.makedirs(d,exist_ok=True)
try:
    for i in range(0,len(parts),2):
        old,new=parts[i].strip("\n"),parts[i+1].strip("\n")
        if old.startswith("@@@ "):
            f,old=old[4:].split("\n",1)
        s=open(R+"/"+f).read()
        assert s.count(old)==1,(f,s.count(old),old)
        open(R+"/"+f,"w").write(s.replace(old,new))
    diff=subprocess.check_output(["git","-C",R,"diff"]).decode()
finally:
    subprocess.check_call(["rm","-rf",R])
open(d+"/patch.diff","w").write(diff)
open(d+"/demo.sh","w").write(demo.strip("\n")+"\n")
json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+"/meta.json","w"),indent=1)
print(diff)
