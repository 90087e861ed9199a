#!/usr/bin/env python3
"""seed.py add DEFS.py [ID...]   development only: (re)makes /verif/seeded/<id>/ from definitions and verifies each
   seed.py verify [ID...]         verifies what is in /verif/seeded against /repo's HEAD
   seed.py run [-a] [ID...]       runs the property's check (-a: every check) on each seed; results in build/seeds.json
Everything is done in scratch copies under /tmp."""
import json,os,subprocess,sys,shutil,tempfile,re
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S=V+'/seeded'; LIB=V+'/tools/seedlib'; BASE='900737f'
ENV=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOENV='off',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOSUMDB='off',GOPATH='/root/go')
STABLE=json.load(open('/opt/vp/BASELINE.json'))
def sh(c,d,t=900): 
    try: return subprocess.run(c,cwd=d,env=ENV,shell=isinstance(c,str),capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired as e:
        r=subprocess.CompletedProcess(c,124,'','timeout'); return r
def copy():
    d=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
    subprocess.run(['git','clone','-q','/repo',d+'/r'],check=True)
    return d,d+'/r'
def make(x):
    d,r=copy()
    try:
        for f,old,new in x['edits']:
            p=r+'/'+f; s=open(p).read()
            n=s.count(old)
            k=1
            if isinstance(new,tuple): new,k=new
            if k==1 and n!=1: return f"{x['id']}: {n} matches in {f}: {old[:60]!r}"
            if k>1: # replace the k'th (1-based) occurrence... k=100+i
                i=k-100; parts=s.split(old)
                if len(parts)<=i: return f"{x['id']}: only {n}"
                s=old.join(parts[:i])+new+old.join(parts[i:])
            else: s=s.replace(old,new)
            open(p,'w').write(s)
        sh('gofmt -w *.go',r)
        diff=sh('git diff',r).stdout
        o=S+'/'+x['id']; shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
        open(o+'/patch.diff','w').write(diff)
        shutil.copy(LIB+'/demo.sh',o); shutil.copy(LIB+'/help_test.go',o)
        open(o+'/demo_test.go','w').write(x['demo'])
        sh('gofmt -w demo_test.go',o)
        json.dump({'property':x['prop'],'needs':x['needs'],'what_it_breaks':x['breaks']},open(o+'/meta.json','w'),indent=1)
    finally: shutil.rmtree(d)
def verify(i):
    o=S+'/'+i; d,r=copy(); msg=[]
    try:
        x=d+'/x'; os.makedirs(x)
        for f in ('demo.sh','help_test.go','demo_test.go'):
            if os.path.exists(o+'/'+f): shutil.copy(o+'/'+f,x)
        q=sh(['bash',x+'/demo.sh'],r,300)
        if q.returncode: msg.append('demo fails on clean tree: '+(q.stdout+q.stderr)[-800:])
        q=sh(['git','apply',o+'/patch.diff'],r)
        if q.returncode: return i,['does not apply '+q.stderr]
        # removed lines must be original
        org=set()
        blame={}
        for f in re.findall(r'^--- a/(\S+)',open(o+'/patch.diff').read(),re.M):
            b=sh(['git','blame','-l','-s','HEAD','--',f],r).stdout.split('\n'); blame[f]=b
        baseset=set(sh(['git','rev-list',BASE],r).stdout.split())
        f=None; ln=0; n_org=0; n_mine=0
        for l in open(o+'/patch.diff'):
            m=re.match(r'--- a/(\S+)',l)
            if m: f=m.group(1); continue
            m=re.match(r'@@ -(\d+)',l)
            if m: ln=int(m.group(1)); continue
            if l.startswith('-') and not l.startswith('---'):
                c=blame[f][ln-1].split()[0].lstrip('^')
                if any(z.startswith(c) for z in baseset): n_org+=1
                else: n_mine+=1
                ln+=1
            elif l.startswith(' '): ln+=1
        if n_org==0 or n_mine: msg.append(f'removed lines: {n_org} original, {n_mine} from fix commits')
        q=sh('go build ./...',r)
        if q.returncode: return i,['does not build '+q.stderr[-500:]]
        q=sh(['bash',x+'/demo.sh'],r,300)
        if q.returncode==0: msg.append('demo passes with patch')
        elif q.returncode!=0 and 'build failed' in q.stdout+q.stderr: msg.append('demo build failed '+(q.stdout+q.stderr)[-600:])
        dm=(q.stdout+q.stderr)
        q=sh('go test -vet=off -count=1 -timeout 5m ./...',r)
        if q.returncode: msg.append('existing tests fail: '+(q.stdout)[-300:])
    finally: shutil.rmtree(d)
    return i,msg
def run(a):
    i,al=a
    o=S+'/'+i; d,r=copy()
    try:
        sh(['git','apply',o+'/patch.diff'],r)
        p=json.load(open(o+'/meta.json'))['property']
        ids=['C%02d'%k for k in range(1,25)] if al else [p]
        q=sh(['bash',V+'/tools/try.sh',r]+ids,V,3000)
        return i,p,sorted(set(re.findall(r'VIOLATION property=(C\d\d)',q.stdout))),q.stdout+q.stderr
    finally: shutil.rmtree(d)
cmd=sys.argv[1]; args=sys.argv[2:]
if cmd=='add':
    ns={}; exec(open(args[0]).read(),ns); ids=[]
    for x in ns['SEEDS']:
        if len(args)>1 and x['id'] not in args[1:]: continue
        e=make(x)
        if e: print(e)
        else: ids.append(x['id'])
    args=ids; cmd='verify'
    if not ids: sys.exit()
al=False
if '-a' in args: al=True; args.remove('-a')
ids=args or sorted(os.listdir(S))
if cmd=='verify':
    with ThreadPoolExecutor(3) as ex:
        for i,m in ex.map(verify,ids): print(i,'ok' if not m else '\n   '.join(['BAD']+m),flush=True)
else:
    res={}
    R=V+'/build/seeds.json'
    if os.path.exists(R): res=json.load(open(R))
    with ThreadPoolExecutor(3) as ex:
        for i,p,c,out in ex.map(run,[(i,al) for i in ids]):
            print(i,p,'CAUGHT' if p in c else 'missed',c,flush=True)
            if p not in c: print(out[-600:])
            if al: res[i]={'property':p,'by':c}
            else: res.setdefault(i,{'property':p,'by':[]}); res[i]['by']=sorted(set(res[i]['by'])-{p}|set(c))
            json.dump(res,open(R,'w'),indent=1)
