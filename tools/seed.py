#!/usr/bin/env python3
# Planted bugs. Each file of tools/seeds defines SEEDS; `seed.py make [id..]` writes seeded/<id>/,
# `seed.py verify id..` confirms (on /repo, undone afterwards) that it builds, passes the tests and
# is told apart by its demonstration, `seed.py run id [cmd]` runs its property's check against it.
import sys,os,json,subprocess,difflib,shutil,glob,importlib.util
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seeds():
    d={}
    for f in sorted(glob.glob(V+'/tools/seeds/*.py')):
        sp=importlib.util.spec_from_file_location('s',f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SEEDS: s.setdefault('kit',getattr(m,'KIT','chain')); d[s['id']]=s
    return d
def patch(s):
    out=''; files={}
    for f,a,b in s['edits']:
        t=files.setdefault(f,[open('/repo/'+f).read()]*2)
        assert t[1].count(a)==1,(s['id'],f,t[1].count(a),a)
        files[f]=[t[0],t[1].replace(a,b)]
        # only lines of the original repository change
        i=t[0].find(a)
        if i>=0:
            n0=t[0][:i].count('\n'); old=a.split('\n'); new=b.split('\n')
            blame=subprocess.run(['git','-C','/repo','blame','-s','HEAD','--',f],capture_output=True,text=True).stdout.split('\n')
            for op in difflib.SequenceMatcher(None,old,new,autojunk=False).get_opcodes():
                if op[0]!='equal':
                    for j in range(op[1],op[2]):
                        if not blame[n0+j].startswith('^'): print(s['id'],'changes a line of a fix:',old[j].strip())
    for f,(o,n) in files.items():
        out+=''.join(difflib.unified_diff(o.splitlines(True),n.splitlines(True),'a/'+f,'b/'+f))
    return out
def make(s):
    d=V+'/seeded/'+s['id']
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d+'/kit')
    open(d+'/patch.diff','w').write(patch(s))
    json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: the behaviour is right, 1: it isn't
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
DEMO_SCRATCH="$S" node "$D/demo.mjs"
'''); os.chmod(d+'/demo.sh',0o755)
    kit=V+'/tools/seeds/kit_'+s['kit']
    if s['kit']=='net':
        for f in ('network','ts','man','sol','chain','rng'): shutil.copy(V+'/lib/'+f+'.mjs',d+'/kit/')
    if s['kit'] in ('chain','peer'):
        for f in ('chain','sol','man','rng')+(('peer','ts','pgen','scripts') if s['kit']=='peer' else ()): shutil.copy(V+'/lib/'+f+'.mjs',d+'/kit/')
        shutil.copytree(V+'/sol',d+'/kit/sol')
    for f in glob.glob(kit+'/*'): shutil.copy(f,d+'/kit/')
    pre=open(kit+'.pre.mjs').read() if os.path.exists(kit+'.pre.mjs') else ''
    open(d+'/demo.mjs','w').write(pre+s['demo'].lstrip('\n'))
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def clean(): assert not sh('git -C /repo status --porcelain').stdout.strip(),'repo dirty'
def build(): return sh('bash /opt/vp/build.sh').returncode
def demo(i): r=sh(f'bash {V}/seeded/{i}/demo.sh',cwd='/repo'); return r.returncode,(r.stdout+r.stderr)[-600:]
def verify(ids,cmds):
    clean(); build()
    ok={}
    for i in ids:
        ok[i]=[demo(i)]
    for i in ids:
        p=f'{V}/seeded/{i}/patch.diff'
        r=sh(f'git -C /repo apply {p}')
        if r.returncode: print(i,'DOES NOT APPLY',r.stderr); continue
        try:
            b=build()
            t=sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            res=json.load(open('/tmp/seedtest.json')); base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            bad=base-set(res['passed'])
            d=demo(i)
            good=b==0 and not bad and ok[i][0][0]==0 and d[0]!=0
            print(i,'OK' if good else 'BAD','build',b,'tests failing',len(bad),'demo clean',ok[i][0],'patched',d,flush=True)
            for x in list(bad)[:3]: print('   ',x)
            for c in cmds(i):
                r=sh(c,cwd=V)
                print('   ',c,'->',r.returncode,(r.stdout+r.stderr).strip()[-700:],flush=True)
        finally:
            sh('git -C /repo checkout -- .')
    build()
if __name__=='__main__':
    S=seeds(); a=sys.argv[2:] or list(S)
    man={c['property']:c['quick_cmd'] for c in json.load(open(V+'/MANIFEST.json'))['checks']}
    if sys.argv[1]=='make':
        for i in a: make(S[i])
    elif sys.argv[1]=='verify':
        for i in a: make(S[i])
        verify(a,lambda i:[man[S[i]['property']]] if S[i]['property'] in man else [])
    elif sys.argv[1]=='run':
        clean()
        for i in a:
            sh(f'git -C /repo apply {V}/seeded/{i}/patch.diff')
            try:
                r=sh(man[S[i]['property']],cwd=V); print(i,S[i]['property'],'CAUGHT' if r.returncode==1 else 'missed',r.returncode,(r.stdout+r.stderr).strip()[-500 if r.returncode==1 else -900:],flush=True)
            finally: sh('git -C /repo checkout -- .')
    elif sys.argv[1]=='list': print('\n'.join(S))
