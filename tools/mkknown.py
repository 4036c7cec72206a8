import json,subprocess
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','7ee788a..HEAD'],capture_output=True,text=True).stdout.strip().split('\n')[::-1]
m={'limited.Pool holds':'C02','Pool.Len':'C07','pooled.Pool hands':'C04','New finds a free':'C06','register.Pools closes':'C06','Errors.Error and':'C08','RWValue.LoadReplace':'C20','Group counts':'C12','Group.Wait reports every':'C10','Group.Wait reports a function':'C10','slices.Access accepts':'C18','WithPoolOptions of':'C18','slices.Access waits':'C14','chans.Access waits':'C16','chans.Access stops on':'C16','Modify stops':'C17','Modify reports':'C17','Pipelines.Close':'C25','Submit that':'C22','groups can be':'C21','seen stages':'C24','Stats reports':'C26','queue reports':'C28','routed back':'C24','New that fails':'C27'}
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    s=s[5:]
    p=['C29'] if ' span' in s else [v for k,v in m.items() if k in s]
    assert len(p)==1,(s,p)
    out.append({"property":p[0],"status":"fixed","commit":h,"text":"fixed: property=%s %s %s"%(p[0],h,s)})
import os
f='/verif/known-findings.json'
old=[k for k in (json.load(open(f)) if os.path.exists(f) else []) if k['status']=='known']
json.dump(out+old,open(f,'w'),indent=1)
print(len(out))
