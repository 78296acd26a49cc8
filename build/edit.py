import sys,subprocess,os
# edit.py <id> : reads python replacement from stdin: path, old, new
id,path,old,new=sys.argv[1:5]
p='/repo/'+path; s=open(p).read()
assert s.count(old)>=1,(id,'no match')
n=int(sys.argv[5]) if len(sys.argv)>5 else 0
parts=s.split(old)
assert len(parts)-1==1 or len(sys.argv)>5,(id,len(parts)-1)
i=n+1
s=old.join(parts[:i])+new+old.join(parts[i:])
open(p,'w').write(s)
os.system(f"cd /repo && git diff > /verif/seeded/{id}/patch.diff && git checkout -q -- .")
