#!/usr/bin/env python3
"""stage2.py IN OUT : which surviving mutants the checks of their file catch"""
import sys,subprocess,os,shutil,threading,queue,random
M={'record-layer.go':'C05 C07 C06 C08 C09 C33 C35','frame-reader.go':'C08 C10 C05','handshake-layer.go':'C10 C11 C12 C32 C28 C27','dtls.go':'C12 C11 C09 C32','timer.go':'C13 C32',
'negotiation.go':'C37 C17 C29 C20 C15 C22 C27','crypto.go':'C18 C30 C29 C14 C25','ffdhe.go':'C30','handshake-messages.go':'C01 C02 C03 C14 C27','extensions.go':'C01 C02 C03 C17 C27',
'syntax/decode.go':'C04 C01 C02 C03','syntax/encode.go':'C04 C01 C03','syntax/tags.go':'C04','client-state-machine.go':'C14 C16 C17 C18 C22 C23 C20 C26 C28 C27 C19 C37 C35 C36 C33 C32',
'server-state-machine.go':'C15 C16 C17 C18 C22 C23 C20 C26 C27 C19 C37 C35 C36 C33 C32','state-machine.go':'C24 C20 C16 C25 C18','conn.go':'C21 C28 C26 C24 C25 C23 C20 C22 C31 C14 C33 C37 C35 C34 C32','tls.go':'C34','cookie-protector.go':'C22','alert.go':'C28','common.go':'C01 C28 C17 C14'}
BASE=os.environ.get('BASE','/repo')
inp,out=sys.argv[1:3]
done=set()
if os.path.exists(out):
    for l in open(out): done.add(tuple(l.split('\t')[1:3]))
lim=os.environ.get('LIM','30')
ms=[]
for l in open(inp):
    p=l.rstrip('\n').split('\t')
    if p[0]=='survived' and (p[1],p[2]) not in done and p[1] in M: ms.append(p[1:])
random.Random(int(os.environ.get('SEED','3'))).shuffle(ms)
if os.environ.get('FILES'): ms=[m for m in ms if m[0] in os.environ['FILES'].split()]
ms=ms[:int(os.environ.get('N','100000'))]
q=queue.Queue()
for m in ms: q.put(m)
lock=threading.Lock()
env=dict(os.environ,GOSYM_HUNT='1',GOSYM_LIMIT=lim)
def work(k):
    d=f'/tmp/mut2/{k}'
    shutil.rmtree(d,ignore_errors=True); shutil.copytree(BASE,d,ignore=shutil.ignore_patterns('.git'))
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        f=m[0]
        shutil.copy(f'{BASE}/{f}',f'{d}/{f}')
        subprocess.run(['/tmp/mutate','-apply',m[1],f],cwd=d)
        res='MISSED'
        for c in M[f].split():
            r=subprocess.run(['/tmp/gosymh','-verif','/tmp/mutv','-check',c,'-repo',d,'-noevidence','-nonative','-workers',os.environ.get('W','3'),'-jobs','2','-budget',lim],capture_output=True,text=True,env=env)
            if r.returncode==1:
                h=[l for l in r.stdout.splitlines() if 'HUNT' in l]
                res='caught '+(h[0][5:120] if h else c); break
            if r.returncode not in (0,1):
                res='error '+c+' '+(r.stdout+r.stderr)[-200:].replace('\n',' ').replace('\t',' '); break
        shutil.copy(f'{BASE}/{f}',f'{d}/{f}')
        with lock: open(out,'a').write('\t'.join([res]+m)+'\n')
ts=[threading.Thread(target=work,args=(k,)) for k in range(int(os.environ.get('J','3')))]
[t.start() for t in ts]; [t.join() for t in ts]
