#!/usr/bin/env python3
"""Mutation campaign over coin2html's viewer: ts.py OUT.jsonl [WORKERS] [CASES]. Not a check. Changes one token or line of a .ts file at a
time, bundles it, and runs C29 on it. Needs no build of the Go code but one."""
import json,os,re,shutil,subprocess,sys,hashlib
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT,W,N=sys.argv[1],int(sys.argv[2]) if len(sys.argv)>2 else 3,sys.argv[3] if len(sys.argv)>3 else '400'
SRC='/repo/cmd/coin2html/js/src'
B='/tmp/tsmut'; os.makedirs(B+'/bin',exist_ok=True); os.makedirs(B+'/verif/harness',exist_ok=True)
env=dict(os.environ,TZ='UTC',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-buildvcs=false',CGO_ENABLED='0')
shutil.copytree(V+'/harness/js',B+'/verif/harness/js',dirs_exist_ok=True)
shutil.copy(V+'/known-findings.txt',B+'/verif/')
subprocess.check_call(f'cd {V}/harness && go build -o {B}/bin/vh ./vh',shell=True,env=env)
ov={}
for f in os.listdir('/repo/cmd/coin2html'):
    if f.endswith('.go'):
        s=open('/repo/cmd/coin2html/'+f).read(); open(B+'/'+f,'w').write(re.sub(r'(?m)^//go:embed .*$','//',s)); ov['/repo/cmd/coin2html/'+f]=B+'/'+f
json.dump({'Replace':ov},open(B+'/ov.json','w'))
subprocess.check_call(f'cd /repo && go build -overlay {B}/ov.json -o {B}/bin/coin2html ./cmd/coin2html',shell=True,env=env)
MODS='d3 d3-selection d3-time d3-time-format d3-scale d3-array d3-axis d3-hierarchy d3-shape d3-scale-chromatic d3-format d3-interpolate'.split()
def bundle(src,out):
    a=[f'--alias:{m}={B}/verif/harness/js/d3.js' for m in MODS]
    r=subprocess.run(['/opt/veriftools/node/node_modules/.bin/esbuild',src+'/ui.ts','--bundle','--format=iife','--log-level=error','--outfile='+out]+a,capture_output=True,text=True)
    return r.returncode==0
RULES=[(r'(?<![<>=!])<=(?!=)',['<']),(r'(?<![<>=!-])>=(?!=)',['>']),(r' < ',[' <= ',' > ']),(r' > ',[' >= ',' < ']),(r' == ',[' != ']),(r' != ',[' == ']),
 (r' \+ ',[' - ']),(r' - ',[' + ']),(r' \* ',[' / ']),(r' / ',[' * ']),(r' && ',[' || ']),(r' \|\| ',[' && ']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),
 (r'\b\d+\b',['+1','-1']),(r'!(?=[A-Za-z(])',['']),(r' \?\? ',[' && ']),(r'\+=',['-=']),(r'\.findLast\(',['.find(']),(r'\.findIndex\(',['.findLastIndex(']),
 (r'\bsum\b',['total','balance']),(r'\btotal\b',['balance']),(r'\bStartDate\b',['EndDate']),(r'\bEndDate\b',['StartDate']),(r'\bMath\.\w+',['']),(r'\.unshift\(',['.push(']),
 (r'\.push\(',['.unshift(']),(r'\bparent\b',['parent?.parent']),(r' \? ([^:;\n]+) : ([^;\n]+)',['SWAP'])]
def mutants():
    for f in sorted(os.listdir(SRC)):
        lines=open(SRC+'/'+f).read().split('\n')
        imp=False
        for i,l in enumerate(lines):
            s=l.strip()
            if s.startswith('import'): imp=True
            if imp:
                if s.endswith(';'): imp=False
                continue
            if not s or s.startswith('//') or s.startswith('*') or s.startswith('/*'): continue
            code=re.sub(r'//.*$','',l)
            for pat,reps in RULES:
                for m in re.finditer(pat,code):
                    for rep in reps:
                        if rep in('+1','-1'): rep2=str(int(m.group(0))+int(rep)) if pat==r'\b\d+\b' else rep
                        elif rep=='SWAP': rep2=f' ? {m.group(2)} : {m.group(1)}'
                        else: rep2=rep
                        yield f,i,l[:m.start()]+rep2+l[m.end():]
            if s.endswith(';') and not s.startswith(('const','let','var','return','throw','}','export')) : yield f,i,''
            if s.startswith('if (') : yield f,i,re.sub(r'if \((.*)\)(?=[^)]*$)',r'if (!(\1))',l)
done=set()
if os.path.exists(OUT):
    for x in open(OUT): 
        x=json.loads(x); done.add((x['f'],x['i'],x['new']))
base=B+'/base.js'; assert bundle(SRC,base)
norm=lambda p: hashlib.sha1(re.sub(r'(?m)^\s*// .*$','',open(p).read()).encode()).hexdigest()
seen={norm(base)}
def run(k):
    n,(f,i,new)=k
    d=f'{B}/w{n}'; shutil.rmtree(d,ignore_errors=True); shutil.copytree(SRC,d+'/src'); os.makedirs(d+'/bin')
    lines=open(f'{d}/src/{f}').read().split('\n'); old=lines[i]; lines[i]=new
    open(f'{d}/src/{f}','w').write('\n'.join(lines))
    # relative paths in bundles must not matter
    res='build'
    if bundle(d+'/src',d+'/bin/viewer.js'):
        h=norm(d+'/bin/viewer.js')
        if h in seen: res='same'
        else:
            seen.add(h)
            for b in('vh','coin2html'): os.link(f'{B}/bin/{b}',f'{d}/bin/{b}')
            v=d+'/verif'; shutil.copytree(B+'/verif',v)
            r=subprocess.run([d+'/bin/vh','C29'],env=dict(env,VERIF_DIR=v,VERIF_BINS=d+'/bin',VERIF_REPO='/repo',VERIF_SCRATCH=d,VERIF_SEED='1',VERIF_N=N),capture_output=True,text=True)
            res={0:'SURVIVED',1:'caught'}.get(r.returncode,'other '+r.stdout[-200:])
            if 'unknown browser' in r.stdout and res=='SURVIVED': res='unknown'
    shutil.rmtree(d,ignore_errors=True)
    return dict(f=f,i=i,old=old,new=new,res=res)
todo=[m for m in dict.fromkeys(mutants()) if m not in done]
print(len(todo),'mutants')
with ThreadPoolExecutor(W) as ex, open(OUT,'a') as o:
    for r in ex.map(run,enumerate(todo)):
        o.write(json.dumps(r)+'\n'); o.flush()
