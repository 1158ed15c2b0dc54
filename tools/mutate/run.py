#!/usr/bin/env python3
"""Mutation campaign: run.py MUTS.jsonl RESULTS.jsonl [WORKERS]: applies each mutation to a scratch copy of /repo, keeps those that
compile and pass the tests, and runs the checks of the mutated file on them. An evaluation of the checks; no check uses it."""
import json,os,random,shutil,subprocess,sys,threading,queue,time
V='/verif'; W='/tmp/mut'
MAP={
 'account.go':'C02 C03 C04 C11 C15 C25 C26 C27 C22 C06',
 'amount.go':'C09 C01 C06 C12 C22 C20 C05',
 'coin.go':'C01 C13 C15 C02 C03 C26 C12 C25 C06 C24',
 'commodity.go':'C12 C25 C15 C06 C22 C02 C05 C26 C20 C30',
 'date.go':'C10 C02 C06 C15 C17',
 'include.go':'C13 C15 C26 C23',
 'parser.go':'C15 C26 C06 C23',
 'posting.go':'C06 C27 C07 C22 C03 C14 C04',
 'pow10.go':'C09 C12 C20',
 'price.go':'C12 C15 C26 C22 C20 C13',
 'rules.go':'C19 C16 C17 C18',
 'tags.go':'C14 C07 C22 C04 C06',
 'test.go':'C23 C15 C26',
 'transaction.go':'C06 C15 C01 C18 C24 C27 C26 C22 C14 C07 C03',
 'cmd/coin/accounts.go':'C25 C11','cmd/coin/balance.go':'C02 C14 C10 C13','cmd/coin/commodities.go':'C25 C26 C12','cmd/coin/format.go':'C06 C08',
 'cmd/coin/main.go':'C02 C13 C15 C04 C25 C23 C06','cmd/coin/modify.go':'C07 C08 C26','cmd/coin/postings.go':'C04 C26','cmd/coin/register.go':'C04 C05 C14',
 'cmd/coin/stats.go':'C24 C26','cmd/coin/tags.go':'C14','cmd/coin/test.go':'C23 C08','cmd/coin/totals.go':'C05','cmd/coin/utils.go':'C02 C04 C05 C07 C14',
 'cmd/coin2html/main.go':'C22 C26','cmd/csv2coin/main.go':'C16 C19','cmd/csv2coin/rules.go':'C16 C19','cmd/csv2coin/utils.go':'C16',
 'cmd/gc2coin/main.go':'C20','cmd/gen2coin/dates.go':'C21','cmd/gen2coin/main.go':'C21','cmd/gen2coin/rule.go':'C21','cmd/gen2coin/rules_personal.go':'C21',
 'cmd/ofx2coin/bmo.go':'C17','cmd/ofx2coin/main.go':'C17 C18 C19','cmd/ofx2coin/utils.go':'C17 C18',
 'gnucash':'C20','rex/rex.go':'C15 C10 C06 C14','check/check.go':'C15 C01',
}
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod -buildvcs=false',CGO_ENABLED='0',TZ='UTC',LANG='C.UTF-8')
def sh(cmd,cwd,e=None,t=300):
    p=subprocess.Popen(cmd,shell=True,cwd=cwd,env=e or env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return -9,''
def fixtures(R,k):
    root=f'{W}/fx{k}'; shutil.rmtree(root,ignore_errors=True); os.makedirs(root)
    sh(f'cp -a tests examples {root}/ && go build -o {root}/coin ./cmd/coin',R)
    rc,o=sh(f'ulimit -v 6000000; python3 /opt/vp/fixtures.py {root}/coin {root}',R,t=60)
    return rc,{l for l in o.splitlines() if l.startswith('PASS')}
def worker(k,q,out,lock):
    R=f'{W}/r{k}'; VV=f'{W}/v{k}'
    for d in (R,VV): shutil.rmtree(d,ignore_errors=True)
    os.makedirs(W,exist_ok=True)
    subprocess.run(f'git clone -q --shared /repo {R}; mkdir {VV}; cp -a {V}/harness {V}/run.sh {V}/known-findings.txt {VV}/',shell=True,check=True)
    rc,good=fixtures(R,k)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        f=f'{R}/{m["file"]}'; src=open(f,'rb').read(); t0=time.time(); st=None; by=None
        try:
            old=m['old'].encode(); assert src[m['off']:m['off']+len(old)]==old
            open(f,'wb').write(src[:m['off']]+m['new'].encode()+src[m['off']+len(old):])
            rc,o=sh('go build $(go list -e ./... | grep -v coin2html)',R)
            if rc: st='nobuild'
            if not st:
                rc,o=sh('ulimit -v 8000000; go test -vet=off -timeout 60s $(go list -e ./... | grep -v coin2html)',R,t=120)
                if rc: st='tests'
            if not st:
                rc,got=fixtures(R,k)
                if not got>=good: st='tests'
            if not st:
                key=m['file'] if m['file'] in MAP else m['file'].split('/')[0]
                for n in (60,None):
                    for c in MAP[key].split():
                        e=dict(env,VERIF_REPO=R,VERIF_SEED='1',VERIF_TIER='quick',GOFLAGS='-buildvcs=false',TMPDIR=f'{W}/t{k}')
                        os.makedirs(f'{W}/t{k}',exist_ok=True)
                        if n: e['VERIF_N']=str(n)
                        rc,o=sh(f'ulimit -v 12000000; ./run.sh {c}',VV,e,t=400)
                        if rc: st={1:'caught',-9:'timeout'}.get(rc,'rc%d'%rc); by=c; break
                    if st: break
                if not st: st='SURVIVED'
        except Exception as x: st='error '+str(x)
        finally: open(f,'wb').write(src)
        m.update(status=st,by=by,time=round(time.time()-t0,1))
        with lock:
            out.write(json.dumps(m)+'\n'); out.flush()
ms=[json.loads(l) for l in open(sys.argv[1])]
done=set()
if os.path.exists(sys.argv[2]):
    for l in open(sys.argv[2]):
        d=json.loads(l); done.add((d['file'],d['off'],d['old'],d['new']))
ms=[m for m in ms if (m['file'],m['off'],m['old'],m['new']) not in done]
random.Random(7).shuffle(ms)
q=queue.Queue()
for m in ms: q.put(m)
out=open(sys.argv[2],'a'); lock=threading.Lock()
ts=[threading.Thread(target=worker,args=(k,q,out,lock)) for k in range(int(sys.argv[3]) if len(sys.argv)>3 else 5)]
[t.start() for t in ts]; [t.join() for t in ts]
