import json,os,subprocess
def mk(id,prop,file,old,new,demo,needs,breaks,flags=None):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    w='/tmp/mkw'
    subprocess.run('git -C /repo worktree prune; rm -rf /tmp/mkw; git -C /repo worktree prune; git -C /repo worktree add -q --detach /tmp/mkw HEAD',shell=True,check=True)
    edits=[(file,old,new)] if isinstance(file,str) else file
    for f,o,n in edits:
        p=w+'/'+f; s=open(p).read(); assert s.count(o)==1,(id,f,s.count(o)); open(p,'w').write(s.replace(o,n))
        b=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.split('\n')
        orig=[l for l in b if l.startswith('^')]
    diff=subprocess.run('git -C /tmp/mkw diff',shell=True,capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write(demo)
    if flags: open(d+'/flags','w').write(flags)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    # removed lines must be original
    for f,o,n in edits:
        b=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.split('\n')
        rem=[l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        for l in rem:
            if not any(x.startswith('^') and x.split(') ',1)[-1]==l for x in b): print(id,'NOT ORIGINAL:',l)
    subprocess.run('git -C /repo worktree remove --force /tmp/mkw',shell=True)
