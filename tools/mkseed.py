"""mkseed.py NAME...: (re)make planted bugs under /verif/seeded from tools/seedsrc/bugs_*.py and confirm them in scratch copies"""
import sys,os,subprocess,json,shutil,glob
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); SRC=HERE+'/seedsrc'; OUT='/verif/seeded'; T='/tmp/w/seed'
DEMO='''#!/bin/bash
# cwd: /repo after a build; compiles demo.c with the sources of the tree
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
SRC="src/cone.c src/ctrlc.c src/ecos.c src/equil.c src/expcone.c src/kkt.c src/preproc.c src/spla.c src/splamm.c src/timer.c src/wright_omega.c ecos_bb/ecos_bb.c ecos_bb/ecos_bb_preproc.c external/ldl/src/ldl.c external/amd/src/amd_*.c"
SRC=$(ls $SRC | sort -u)
for k in 1 2 3; do gcc -O1 -g -w -DCTRLC=1 -DLDL_LONG -DDLONG %FLAGS% -Iinclude -Iexternal/amd/include -Iexternal/ldl/include -Iexternal/SuiteSparse_config -I"$D" "$D/demo.c" $SRC -o "$T/demo" %LINK% -lm -lrt && break; sleep 1; done
[ -x "$T/demo" ] || exit 2
cd "$T" && timeout 120 ./demo
'''
B={}
for f in sorted(glob.glob(SRC+'/bugs_*.py')):
    ns={}; exec(open(f).read(),ns); B.update({b['id']:b for b in ns['BUGS']})
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def base():
    d=T+'/base'; shutil.rmtree(d,ignore_errors=True); os.makedirs(T,exist_ok=True); sh('cp -a /repo '+d); return d
def one(name):
    b=B[name]; d=T+'/'+name; shutil.rmtree(d,ignore_errors=True); sh(f'cp -a /repo {d}')
    for s in b['subs']:
        rel,old,new=s if len(s)==3 else (b['file'],)+tuple(s)
        p=f'{d}/{rel}'; t=open(p,newline='',errors='surrogateescape').read()
        if '\r\n' in t: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        if t.count(old)<1: return name,'NOMATCH '+old[:60]
        n=b.get('nth',0)
        i=-1
        for _ in range(n+1): i=t.index(old,i+1)
        t=t[:i]+new+t[i+len(old):]
        open(p,'w',newline='',errors='surrogateescape').write(t)
    o=f'{OUT}/{name}'; shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
    df=subprocess.run(['git','-C',d,'diff','--binary'],capture_output=True).stdout; open(o+'/patch.diff','wb').write(df)
    link='-lpthread'; 
    w=b.get('wrap','')
    if w: link+=' -Wl,'+','.join('--wrap='+x for x in w.split())
    open(o+'/demo.sh','w').write(DEMO.replace('%FLAGS%',b.get('flags','')).replace('%LINK%',link)); os.chmod(o+'/demo.sh',0o755)
    shutil.copy(SRC+'/h.h',o+'/h.h'); open(o+'/demo.c','w').write('#include "h.h"\n'+b['demo'].lstrip('\n'))
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['what']},open(o+'/meta.json','w'),indent=1)
    # confirm
    r0=sh(f'bash {o}/demo.sh',cwd=T+'/base')
    r1=sh(f'bash {o}/demo.sh',cwd=d)
    # tests in the copy: same recipe with the paths replaced
    t=sh(f'''sed 's#/repo#{d}#g' /opt/vp/harness/common.sh > {d}/_common.sh; H={d}/_h; rm -rf $H; cp -a /opt/vp/harness $H; grep -rl '/repo' $H | xargs -r sed -i 's#/repo#{d}#g'; sed 's#/repo#{d}#g; s#/opt/vp/harness#{d}/_h#g' /opt/vp/test.sh > {d}/_t.sh; sed -i 's#/opt/vp/harness#{d}/_h#g' {d}/_h/common.sh; rm -rf {d}/_build; bash {d}/_t.sh {d}/_out.json''')
    try:
        res=json.load(open(f'{d}/_out.json')); 
    except Exception as e: res={'err':str(e),'o':t.stdout[-300:]+t.stderr[-300:]}
    st=json.load(open('/opt/vp/BASELINE.json'))['stable']
    s=json.dumps(res)
    ps=set(res.get('passed',[])) if isinstance(res.get('passed'),list) else {k for k,v in (res.get('tests') or res).items() if v in('pass','PASS','passed',True)}
    miss=[x for x in st if x not in ps]
    ok=r0.returncode==0 and r1.returncode not in(0,2) and not miss
    shutil.rmtree(d,ignore_errors=True)
    return name,('OK ' if ok else 'BAD')+f' demo base={r0.returncode} bug={r1.returncode} testsfailed={miss[:4]} {(r0.stdout+r0.stderr)[-300:] if r0.returncode else ""} | {(r1.stdout+r1.stderr)[-160:].strip()} {s[:200] if len(miss)>30 else ""}'
if __name__=='__main__':
    base(); sel=[n for n in B if not sys.argv[1:] or any(a in n for a in sys.argv[1:])]
    with ThreadPoolExecutor(6) as ex:
        for n,m in ex.map(one,sel): print(n,m,flush=True)
    shutil.rmtree(T,ignore_errors=True)
