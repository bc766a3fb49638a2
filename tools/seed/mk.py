"""helper: mk(id, property, needs, breaks, [(file, old, new[, count])], main) writes seeded/<id>/"""
import json,os,subprocess,shutil
W='/tmp/seedw/edit'
def mk(id,prop,needs,breaks,edits,main,demo=None):
    subprocess.run(['rm','-rf',W],check=True)
    subprocess.run(['git','clone','-q','/repo',W],check=True)
    for e in edits:
        f,old,new=e[:3]; n=e[3] if len(e)>3 else 1
        p=f'{W}/{f}'; s=open(p).read()
        assert s.count(old)==n,(id,f,old,s.count(old))
        open(p,'w').write(s.replace(old,new))
    d=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
    o=f'/verif/seeded/{id}'; os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','w').write(d)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(o+'/meta.json','w'),indent=1)
    if main: open(o+'/main.rs','w').write(main)
    if demo: open(o+'/demo.sh','w').write(demo)
    else: shutil.copy('/verif/tools/seed/demo.sh',o+'/demo.sh')
    os.chmod(o+'/demo.sh',0o755)
