#!/usr/bin/env python3
"""Makes and checks planted bugs from tools/seeds.py: mkseed.py [ID...]

For each: copies /repo to a scratch folder, applies the edits, writes seeded/ID/{patch.diff,demo.sh,meta.json}, confirms that it
builds, passes the stable tests, that the demo tells it from the original, and runs the check of its property on it."""
import json,os,re,shutil,subprocess,sys,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS={}
HEAD='''#!/bin/bash
# exit 0: as it should be. Run in the repository.
set -u
export HOME="${HOME:-/root}" LANG=C.UTF-8 TZ=UTC GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false CGO_ENABLED=0
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
@BUILD@
mkdir -p "$t/db" && cd "$t" || exit 3
export COINDB=$t/db
same() { # same EXPECTED COMMAND...: the command succeeds and prints that (spaces do not matter)
    local want=$1 got; shift
    got=$("$@" 2>"$t/err") || { echo "$* failed:"; cat "$t/err"; exit 1; }
    [ "$(tr -s ' ' <<<"$got" | sed 's/^ //;s/ $//')" = "$(tr -s ' ' <<<"$want" | sed 's/^ //;s/ $//')" ] || { echo "$*: expected"; echo "$want"; echo "but got"; echo "$got"; exit 1; }
}
refused() { "$@" >"$t/out" 2>&1 && { echo "$*: not refused:"; cat "$t/out"; exit 1; }; return 0; }
'''
BASE='''cat > db/commodities.coin <<'X'
commodity CAD
  format 1.00 CAD
  default
commodity USD
  format 1.00 USD
X
cat > db/accounts.coin <<'X'
account Assets:Bank
  commodity CAD
account Expenses:Food
  commodity CAD
account Income:Job
  commodity CAD
account Assets:US
  commodity USD
account Expenses:US
  commodity USD
X
echo 'P 2000/01/01 USD 1.25 CAD' > db/prices.coin
'''
def seed(id,prop,edits,demo,needs,breaks,build="coin",base=True):
    SEEDS[id]=(prop,edits,demo,needs,breaks,build,base)
def build_lines(b):
    out=[]
    for p in b.split():
        if p=="coin2html":
            out.append('''mkdir -p "$t/ov"
{ printf '{"Replace":{'; sep=
  for f in "$PWD"/cmd/coin2html/*.go; do
      sed 's,^//go:embed .*,//,' "$f" > "$t/ov/${f##*/}"
      printf '%s"%s":"%s"' "$sep" "$f" "$t/ov/${f##*/}"; sep=,
  done
  printf '}}\\n'; } > "$t/ov/overlay.json"
go build -overlay "$t/ov/overlay.json" -o "$t/coin2html" ./cmd/coin2html || exit 3''')
        elif p=="viewer": # demo.txt is a TypeScript program that imports from @SRC
            out.append('''sed "s,@SRC,$PWD/cmd/coin2html/js/src," "$here/demo.txt" > "$t/demo.ts"
echo 'const f = new Proxy(function () { return f; }, { get: () => f });' > "$t/d3.js"
for n in select selectAll utcDay utcWeek utcMonth utcYear timeDay timeWeek timeMonth timeYear scaleLinear scaleOrdinal scaleTime scaleUtc scaleSequential \\
    axisTop axisLeft axisBottom axisRight stratify hierarchy treemap group groups sum max min extent bisector interpolateBlues schemeCategory10; do
    echo "export const $n = f;" >> "$t/d3.js"
done
a=; for m in d3-selection d3-time d3-scale d3-array d3-axis d3-hierarchy d3-scale-chromatic; do a="$a --alias:$m=$t/d3.js"; done
/opt/veriftools/node/node_modules/.bin/esbuild "$t/demo.ts" --bundle $a --log-level=error --outfile="$t/demo.js" || exit 3''')
        elif p=="lib":
            out.append('''cp "$here/main.txt" "$t/main.go"
printf '{"Replace":{"%s":"%s"}}\\n' "$PWD/cmd/zzdemo/main.go" "$t/main.go" > "$t/ov.json"
go build -overlay "$t/ov.json" -o "$t/lib" ./cmd/zzdemo || exit 3''')
        elif p=="quotes": # demo.txt is a test in cmd/coin that has quotes(answers by symbol) and run(db) as helpers
            out.append('''cp "$here/demo.txt" "$t/zz_demo_test.go"
printf '{"Replace":{"%s":"%s"}}\\n' "$PWD/cmd/coin/zz_demo_test.go" "$t/zz_demo_test.go" > "$t/ov.json"
go test -overlay "$t/ov.json" -c -o "$t/demo" ./cmd/coin || exit 3''')
        else: out.append(f'go build -o "$t/{p}" ./cmd/{p} || exit 3')
    return "\n".join(out)
def sh(cmd,cwd=None,env=None,timeout=900):
    e=dict(os.environ); e.update(env or {})
    r=subprocess.run(cmd,shell=True,cwd=cwd,env=e,capture_output=True,text=True,timeout=timeout)
    return r.returncode,r.stdout+r.stderr
exec(open(V+'/tools/seeds.py').read())
baseline=json.load(open('/opt/vp/BASELINE.json'))
def stable():
    b=baseline
    for k in ('stable','stable_pass','pass','passed','tests'):
        if isinstance(b,dict) and k in b: return set(b[k])
    return set(b)
def run(id,check=True):
    prop,edits,demo,needs,breaks,build,base=SEEDS[id]
    d=f'{V}/seeded/{id}'; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='seed-',dir='/tmp'); R=w+'/repo'
    try:
        subprocess.run(['git','clone','-q','--shared','/repo',R],check=True)
        base_sha=subprocess.run("git rev-list --max-parents=0 HEAD|tail -1",shell=True,cwd='/repo',capture_output=True,text=True).stdout.strip()
        for f,old,new in edits:
            s=open(R+'/'+f).read()
            if s.count(old)!=1: return f'{id}: edit of {f} matches {s.count(old)} times: {old!r}'
            open(R+'/'+f,'w').write(s.replace(old,new))
        rc,diff=sh('git diff',R)
        open(d+'/patch.diff','w').write(diff)
        # lines removed or neighbours must be of the original
        rc,bl=sh("git diff -U0|grep -E '^@@|^---'",R)
        mine=[];f=None
        for l in bl.splitlines():
            m=re.match(r'--- a/(.*)',l)
            if m: f=m[1]; continue
            m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
            if m:
                a=int(m[1]); n=int(m[2] or 1)
                for k in range(a,a+n):
                    rc,o=sh(f"git blame -l -s -L{k},{k} HEAD -- {f}",'/repo')
                    if not o.lstrip('^').startswith(base_sha[:39]): mine.append(f'{f}:{k}')
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        files={}
        if isinstance(demo,tuple): demo,files=demo
        open(d+'/demo.sh','w').write(HEAD.replace('@BUILD@',build_lines(build))+(BASE if base else '')+demo.lstrip('\n')+'\nexit 0\n')
        for n,s in files.items(): open(d+'/'+n,'w').write(s)
        os.chmod(d+'/demo.sh',0o755)
        rc,o=sh(f'bash {d}/demo.sh','/repo')
        if rc: return f'{id}: demo fails on the unchanged tree ({rc}): {o[-600:]}'
        rc,o=sh('go build ./... 2>&1 | grep -v coin2html | grep -E "^[a-z./]*:[0-9]+"; true',R,dict(GOPROXY='off',GOTOOLCHAIN='local',GOFLAGS='-mod=mod -buildvcs=false'))
        if o.strip(): return f'{id}: does not build: {o[-600:]}'
        rc,o=sh(f'bash {d}/demo.sh',R)
        if rc==0: return f'{id}: demo passes with the patch'
        why=o.strip()[-200:].replace('\n',' / ')
        # stable tests, through the scripts pointed at the copy
        for n in ('test.sh','env.sh'):
            s=open('/opt/vp/'+n).read().replace('/opt/vp/env.sh',w+'/env.sh').replace('cd /repo',f'cd {R}')
            open(w+'/'+n,'w').write(s)
        rc,o=sh(f'bash {w}/test.sh {w}/out.json',R)
        res=json.load(open(w+'/out.json'))
        passed=set(res.get('passed') or res.get('pass') or [k for k,v in res.items() if v in ('pass','PASS',True)])
        missing=stable()-passed
        if missing: return f'{id}: breaks stable tests {sorted(missing)[:3]} ({len(missing)})'
        note=f' [touches lines of my commits: {mine}]' if mine else ''
        if not check: return f'{id}: ok{note} ({why})'
        claimed={c['property'] for c in json.load(open(V+'/MANIFEST.json'))['checks']}
        rc,o=sh(f'./run.sh {prop}',V,dict(VERIF_REPO=R,VERIF_SEED='1',VERIF_TIER='quick',VERIF_EVIDENCE=w+'/ev'))
        v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
        verdict='CAUGHT' if rc==1 and any(f'property={prop}' in l for l in v) else f'MISSED rc={rc} {o[-200:]!r}'
        return f'{id} ({prop}): {verdict}{note} ({why})'
    finally: shutil.rmtree(w,ignore_errors=True)
if __name__=='__main__':
    ids=sys.argv[1:] or list(SEEDS)
    nocheck='-n' in ids; ids=[i for i in ids if i!='-n']
    for i in ids:
        for k in SEEDS:
            if k==i or k.startswith(i+'-'):
                m=run(k,not nocheck)
                print(m,flush=True)
                if not re.match(k+r'( \(C\d+\))?: (CAUGHT|MISSED|ok)',m): shutil.rmtree(f'{V}/seeded/{k}',ignore_errors=True)
