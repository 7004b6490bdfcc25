#!/usr/bin/env python3
"""mkseed.py ID... : (re)generate /verif/seeded/ID from tools/seeds/ID.py and confirm it:
patched tree builds, stable tests pass, demo passes unpatched and fails patched.
With -check also runs the property's check against the patched scratch copy."""
import sys,os,json,subprocess,shutil,tempfile,runpy
V=os.environ.get('VDIR','/verif')
ENV=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOCACHE='/root/.cache/go-build',GOMODCACHE='/root/go/pkg/mod')
DEMO='''#!/bin/bash
# run with cwd = the repository, after its build
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cp "$repo/go.mod" "$t/m.mod" && cp "$here/m.sum" "$t/m.sum" || exit 1
printf '{"Replace": {"%s/@PKG@zz_vf_demo_test.go": "%s/demo_test.go.txt"}}' "$repo" "$here" > "$t/o.json"
go test -vet=off -count=1 -timeout 120s -modfile="$t/m.mod" -overlay "$t/o.json" -run '^TestVfDemo$' ./@PKG@ 
'''
def run(cmd,cwd,env=ENV,timeout=600):
    return subprocess.run(cmd,cwd=cwd,env=env,shell=isinstance(cmd,str),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
def main():
    args=sys.argv[1:]; check='-check' in args; tier='quick'
    ids=[a for a in args if not a.startswith('-')]
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        sys.path.insert(0,f"{V}/tools/seeds"); spec=runpy.run_path(f'{V}/tools/seeds/{i}.py')
        d=f'{V}/seeded/{i}'; os.makedirs(d,exist_ok=True)
        w=tempfile.mkdtemp(prefix='seed-'); os.rmdir(w)
        shutil.copytree(os.environ.get('RDIR','/repo'),w,symlinks=True)
        try:
            for f,old,new in spec['edits']:
                s=open(f'{w}/{f}').read()
                n=s.count(old)
                if n!=1: print(i,'EDIT matches',n,'times in',f,':',old[:80]); raise SystemExit(1)
                open(f'{w}/{f}','w').write(s.replace(old,new))
            diff=subprocess.run(['git','diff'],cwd=w,stdout=subprocess.PIPE,text=True).stdout
            # lines removed or changed must be lines of the original repository
            pkg=spec.get('pkg','')
            open(f'{d}/patch.diff','w').write(diff)
            open(f'{d}/demo_test.go.txt','w').write(spec['demo'])
            open(f'{d}/demo.sh','w').write(DEMO.replace('@PKG@',pkg)); os.chmod(f'{d}/demo.sh',0o755)
            shutil.copy('/opt/vp/mint.sum',f'{d}/m.sum')
            json.dump({'property':spec['property'],'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(f'{d}/meta.json','w'),indent=1)
            r=run(f'{d}/demo.sh',os.environ.get('RDIR','/repo'))
            ok0=r.returncode==0
            if not ok0: print(r.stdout[-1500:])
            m=w+'.mod'; shutil.copy(f'{w}/go.mod',m); shutil.copy('/opt/vp/mint.sum',w+'.sum')
            r=run(['gofmt','-l','.'],w)
            fm=[l for l in r.stdout.split() if not l.endswith('_test.go')]
            r=run(['go','test','-json','-vet=off','-count=1','-modfile='+m,'./...'],w)
            passed=set()
            for l in r.stdout.splitlines():
                try: e=json.loads(l)
                except Exception: continue
                if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Package']+'/'+e['Test'])
            missing=sorted(stable-passed)
            r=run(f'{d}/demo.sh',w); ok1=r.returncode!=0
            tail=[l for l in r.stdout.splitlines() if 'zz_vf' in l or 'panic' in l or 'build failed' in l][:3]
            print(i,'OK' if ok0 and ok1 and not missing else 'BAD','demo-clean',ok0,'demo-patched-fails',ok1,'tests missing',missing[:4],'fmt',len(fm),tail,flush=True)
            if 'build failed' in r.stdout or 'setup failed' in r.stdout: print(r.stdout[-800:])
            if check:
                r=run([f'{V}/run.sh','-check',spec['property'],'-tier',tier,'-repo',w,'-noevidence'],V,timeout=1000)
                print('  CHECK',spec['property'],'exit',r.returncode,[l[:200] for l in r.stdout.splitlines() if 'VIOL' in l][:3],flush=True)
                if r.returncode not in (0,1): print(r.stdout[-800:])
        finally:
            shutil.rmtree(w,ignore_errors=True)
            for x in ('.mod','.sum'):
                if os.path.exists(w+x): os.remove(w+x)
main()
