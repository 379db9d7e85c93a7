"""mkseed.mk(id, [(file, old, new)], meta): writes seeded/<id>/patch.diff from edits to /repo, then undoes them."""
import subprocess,json,os
def mk(id,edits,meta):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    try:
        for f,a,b in edits:
            p='/repo/'+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a)); open(p,'w').write(s.replace(a,b))
        open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C','/repo','diff']).decode())
    finally:
        subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    json.dump(meta,open(d+'/meta.json','w'),indent=1)
