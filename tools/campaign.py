#!/usr/bin/env python3
"""campaign.py OUT.json [name-regex] : how the checks do against tools/mutants.py.
Works in scratch copies under /tmp/camp (a copy of /repo and of the simulator per worker); never touches /repo.
env: WORKERS (2), SECS (15) per property, TESTS=1 to run the repository's unit tests too,
SEEDED=1 for the patches in seeded/ instead of tools/mutants.py,
PATCHES=file with lines 'name PROP[,PROP] patch-file' for other patches (such as reverted fixes)."""
import json,os,re,shutil,subprocess,sys,threading,queue
sys.path.insert(0,os.path.dirname(__file__))
if os.environ.get('REFACTORS')=='1': from refactors import M
elif os.environ.get('AUTO')=='1': from automut import M
else: from mutants import M
out=sys.argv[1]; rx=re.compile(sys.argv[2] if len(sys.argv)>2 else '.')
W=int(os.environ.get('WORKERS','2')); SECS=os.environ.get('SECS','15'); TESTS=os.environ.get('TESTS','1')=='1'
V='/verif'; base=os.environ.get('BASE','/tmp/camp')
env=dict(os.environ); 
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env; echo MAIN_FLAGS=$MAIN_FLAGS; echo SSE2_FLAGS=$SSE2_FLAGS'],capture_output=True,text=True).stdout.splitlines():
    if '=' in l: k,v=l.split('=',1); env[k]=v
env['CARGO_INCREMENTAL']='0'
def setup(w):
    d=f'{base}/w{w}'
    if not os.path.isdir(d+'/repo'):
        os.makedirs(d,exist_ok=True)
        subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
        subprocess.run(['cp','-a',V+'/sim',d+'/sim'],check=True)
    subprocess.run(['git','-C',d+'/repo','fetch','-q','/repo','HEAD'],check=True)
    subprocess.run(['git','-C',d+'/repo','reset','-q','--hard','FETCH_HEAD'],check=True)
    subprocess.run(f'rsync -a --delete {V}/sim/src/ {d}/sim/src/ 2>/dev/null || (find {d}/sim/src -type f -delete; cp -a {V}/sim/src/. {d}/sim/src/)',shell=True,check=True)
    subprocess.run(f'cp -a {V}/sim/certs/. {d}/sim/certs/',shell=True,check=True)
    t=open(V+'/sim/Cargo.toml').read().replace('path = "/repo"',f'path = "{d}/repo"'); open(d+'/sim/Cargo.toml','w').write(t)
    shutil.copy(V+'/known-findings.txt',d)
    os.makedirs(d+'/evidence',exist_ok=True); os.makedirs(d+'/replays',exist_ok=True)
    return d
def run(cmd,cwd,e,t=900):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=e,shell=True,executable='/bin/bash',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,errors='replace')
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as x: return 124,(x.stdout or b'').decode(errors='replace') if isinstance(x.stdout,bytes) else (x.stdout or '')
def one(d,name,props,edits):
    r={'name':name,'props':props}
    repo=d+'/repo'
    subprocess.run(['git','-C',repo,'checkout','-q','--','.'],check=True)
    if isinstance(edits,str): subprocess.run(['git','-C',repo,'apply',edits],check=True); edits=[]
    for f,old,new in edits:
        p=f'{repo}/{f}'; s=open(p).read(); n=1
        if isinstance(old,tuple): old,n=old
        parts=s.split(old)
        if len(parts)<=n or (len(parts)!=2 and n==1 and not isinstance(edits[0][1],tuple) and s.count(old)!=1):
            r['status']=f'edit does not apply ({s.count(old)})'; return r
        s=old.join(parts[:n])+new+old.join(parts[n:])
        open(p,'w').write(s)
    e=dict(env); e['RUSTFLAGS']=env['MAIN_FLAGS']
    if TESTS:
        rc,o=run('cargo test --offline --lib --all-features 2>&1 | tail -30; exit ${PIPESTATUS[0]}',repo,e)
        r['tests']='pass' if rc==0 else ('nobuild' if 'error' in o and 'test result' not in o else 'FAIL')
        if r['tests']=='nobuild': r['status']='does not build: '+o[-600:]; return r
        if r['tests']=='FAIL' and os.environ.get('STOP'): r['status']='killed by the tests'; return r
        if any(p in ('C02','C03') for p in props) and r['tests']=='pass':
            rc,o=run('cargo test --offline --lib --no-default-features 2>&1 | tail -30; exit ${PIPESTATUS[0]}',repo,e)
            if rc: r['tests']='FAIL scalar'
    exes={}
    need=['main']+(['sse2','scalar'] if any(p in('C02','C03','C16') for p in props) else [])
    for b in need:
        e['RUSTFLAGS']=env['SSE2_FLAGS'] if b=='sse2' else env['MAIN_FLAGS']
        td='target' if b=='main' else 'target-'+b
        rc,o=run(f"cargo build --release --offline --target-dir {td} {'--no-default-features' if b=='scalar' else ''} 2>&1 | grep -E '^error' -A6 | tail -40; exit ${{PIPESTATUS[0]}}",d+'/sim',e)
        if rc: r['status']='sim does not build: '+o[-800:]; return r
        exes[b]=f'{d}/sim/{td}/release/tmisim'
    r['caught']={}
    for p in props:
        if os.environ.get('STOP') and any(x[0]==1 for x in r['caught'].values()): break
        bs=' '.join(f'{b}={x}' for b,x in exes.items() if b=='main' or p in('C02','C03','C16'))
        rc,o=run(f"{exes['main']} check {p} quick 100000000 {SECS} {d}/known-findings.txt {d} {bs}",d,e,300)
        v=[l for l in o.splitlines() if 'VIOLATION' in l]
        m=re.search(r'held on (\d+) runs',o)
        r['caught'][p]=(rc,(o.strip().splitlines() or [''])[-4:] if rc!=0 else ['held '+(m.group(1) if m else '')])
    r['status']='caught' if all(x[0]==1 for x in r['caught'].values()) else ('partly' if any(x[0]==1 for x in r['caught'].values()) else 'MISSED')
    return r
q=queue.Queue(); res=[]; lock=threading.Lock()
if os.environ.get('SEEDED')=='1':
    M=[]
    for n in sorted(os.listdir(V+'/seeded')):
        p=json.load(open(f'{V}/seeded/{n}/meta.json'))['property']
        M.append(('seeded-'+n,[p],f'{V}/seeded/{n}/patch.diff'))
if os.environ.get('PATCHES'): # lines: name PROP[,PROP] patch
    M=[(a[0],a[1].split(','),a[2]) for a in (l.split() for l in open(os.environ['PATCHES'])) if a]
for x in M:
    if rx.search(x[0]): q.put(x)
def worker(w):
    d=setup(w)
    while True:
        try: x=q.get_nowait()
        except queue.Empty: break
        try: r=one(d,*x)
        except Exception as ex: r={'name':x[0],'props':x[1],'status':f'error {ex!r}'}
        with lock:
            res.append(r); json.dump(res,open(out,'w'),indent=1)
            print(r['name'],r.get('tests'),r['status'][:60].replace(chr(10),' '),{p:(c[0]) for p,c in r.get('caught',{}).items()},flush=True)
    subprocess.run(['git','-C',d+'/repo','checkout','-q','--','.'])
ts=[threading.Thread(target=worker,args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
