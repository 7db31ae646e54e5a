#!/usr/bin/env python3
# format: "#### id prop" / "needs: .." / "breaks: .." / @@FILE f / old / ==== / new / @@DEMO / demo
import sys,json,os,subprocess,re
t=open(sys.argv[1]).read(); only=sys.argv[2:]
for b in re.split(r'^#### ',t,flags=re.M)[1:]:
    head,rest=b.split("\n",1); id,prop=head.split()
    if only and id not in only: continue
    needs=re.search(r'^needs: (.*)$',rest,re.M).group(1); brk=re.search(r'^breaks: (.*)$',rest,re.M).group(1)
    S='/verif/seeded/'+id; os.makedirs(S,exist_ok=True)
    edits,demo=rest.split("\n@@DEMO\n")
    ok=True
    for e in edits.split("@@FILE ")[1:]:
        f,r=e.split("\n",1); old,new=r.split("\n====\n") if "\n====\n" in r else (r.split("\n====")[0],""); new=new.rstrip("\n"); 
        p='/tmp/w/'+f; s=open(p).read()
        if s.count(old)!=1: print(id,"occurrences",s.count(old),old); ok=False; continue
        open(p,'w').write(s.replace(old,new))
    if not ok: subprocess.run("git -C /tmp/w checkout -q -- .",shell=True); continue
    open(S+'/demo.cpp','w').write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":brk},open(S+'/meta.json','w'),indent=1)
    subprocess.run(["/verif/tools/plant/plant.sh",id])
