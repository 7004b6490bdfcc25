#!/usr/bin/env python3
"""stage1.py OUT FILE... : which mutants compile and pass the existing tests"""
import sys,subprocess,os,shutil,random,threading,queue
BASE=os.environ.get('BASE','/repo')
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOFLAGS='',HOME='/root',GOCACHE='/tmp/mutcache')
out=sys.argv[1]; files=sys.argv[2:]
done=set()
if os.path.exists(out):
    for l in open(out): done.add(tuple(l.split('\t')[1:3]))
q=queue.Queue(); ms=[]
for f in files:
    for l in subprocess.run(['/tmp/mutate',f],cwd=BASE,capture_output=True,text=True).stdout.splitlines():
        p=l.split('\t')
        if (p[0],p[1]) not in done: ms.append(p)
random.Random(7).shuffle(ms)
for m in ms: q.put(m)
lock=threading.Lock()
def work(k):
    d=f'/tmp/mut1/{k}'
    shutil.rmtree(d,ignore_errors=True); shutil.copytree(BASE,d,ignore=shutil.ignore_patterns('.git'))
    shutil.copy('/opt/vp/mint.sum',f'{d}.sum'); shutil.copy(BASE+'/go.mod',f'{d}.mod')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        f=m[0]
        shutil.copy(f'{BASE}/{f}',f'{d}/{f}')
        r=subprocess.run(['/tmp/mutate','-apply',m[1],f],cwd=d,capture_output=True)
        st='survived'
        if r.returncode: st='noapply'
        else:
            pk=['./syntax','.'] if f.startswith('syntax') else ['.']
            for p in pk:
                try:
                    r=subprocess.run(['go','test','-vet=off','-failfast','-count=1','-timeout','40s','-skip','TestOverSocket','-modfile',f'{d}.mod',p],cwd=d,env=env,capture_output=True,text=True,timeout=120)
                except subprocess.TimeoutExpired:
                    st='killed'; break
                if r.returncode:
                    st='nobuild' if 'build failed' in r.stdout else 'killed'
                    break
        shutil.copy(f'{BASE}/{f}',f'{d}/{f}')
        with lock: open(out,'a').write('\t'.join([st]+m)+'\n')
ts=[threading.Thread(target=work,args=(k,)) for k in range(int(os.environ.get('J','8')))]
[t.start() for t in ts]; [t.join() for t in ts]
