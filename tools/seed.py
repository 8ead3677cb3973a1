#!/usr/bin/env python3
"""seed.py ID [--check [WORKLOAD_SECS]]: installs the demo kit in seeded/ID and validates it in a scratch copy.
seed.py --checks ID...: only runs the property's check against the seed."""
import json, os, shutil, subprocess, sys
V='/verif'; K=V+'/tools/demokit'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh(w):
    sh('git -C /repo worktree prune'); shutil.rmtree(w, ignore_errors=True)
    sh('git -C /repo worktree prune')
    r=sh('git -C /repo worktree add --detach %s HEAD'%w); assert r.returncode==0, r.stderr
def main():
    a=[x for x in sys.argv[1:] if not x.startswith('--')]; only='--checks' in sys.argv; check=only or '--check' in sys.argv
    for i in a:
        d=V+'/seeded/'+i; w='/tmp/seedwt-'+i; res=[]
        kit=not os.path.exists(d+'/demo.sh') or 'Compiles the demonstration together' in open(d+'/demo.sh').read()
        if kit:
            for f in ('demo.sh','demo.h'): shutil.copy(K+'/'+f,d)
            shutil.copy(V+'/smp/gen.py',d)
        fresh(w)
        try:
            if not only:
                for x in ('/_build',):
                    pass
                r=sh('bash %s/demo.sh'%d,cwd=w,timeout=300); res.append('clean demo %d'%r.returncode)
                if r.returncode: print(r.stderr[-1500:])
            r=sh('git apply %s/patch.diff'%d,cwd=w)
            if r.returncode: print(i,'patch does not apply',r.stderr); continue
            if not only:
                r=sh('bash %s/demo.sh'%d,cwd=w,timeout=300); res.append('patched demo %d'%r.returncode)
                if r.returncode not in (0,1): res.append(r.stderr[-400:])
                else: res.append(r.stderr.strip()[-120:])
            if check:
                p=json.load(open(d+'/meta.json'))['property']
                e=dict(os.environ,VERIF_REPO=w,VERIF_BUILD=w+'/_sim',VERIF_SEED='1',VERIF_TIER='quick')
                r=sh('python3 %s/check.py %s'%(V,p),env=e,timeout=900)
                v=[l for l in r.stdout.split('\n') if l.startswith(('class:','minimised','VIOLATION'))]
                res.append('check %s rc %d %s'%(p,r.returncode,' | '.join(v)[:260]))
                if r.returncode not in (0,1): res.append(r.stderr[-600:])
            print(i,' ; '.join(res),flush=True)
        finally:
            sh('git -C /repo worktree remove --force %s'%w); shutil.rmtree(w,ignore_errors=True)
if __name__=='__main__': main()
