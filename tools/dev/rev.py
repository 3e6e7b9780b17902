import sys,os,subprocess,time,json,re
W=int(sys.argv[1]); NW=int(sys.argv[2]); mode=sys.argv[3]
R=f'/tmp/w/mut/repo{W}'; H=f'/tmp/w/mut/h{W}'
env=dict(os.environ,RUSTUP_TOOLCHAIN='stable',CARGO_NET_OFFLINE='true',VERIF_TIER='quick',VERIF_SEED='1',CARGO_BUILD_JOBS='4')
def sh(c,cwd=None,t=1000,inp=None):
    p=subprocess.Popen(c,shell=True,cwd=cwd,env=env,stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True,errors='replace')
    try: o,_=p.communicate(inp,timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,''
sh('git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD; git clean -fdq',cwd=R)
sh(f"rsync -a --exclude target --exclude Cargo.toml /verif/harness/ {H}/harness/; cp /verif/known_findings.json /verif/properties.jsonl {H}/; mkdir -p {H}/evidence; sed 's#/repo/anothertls#{R}/anothertls#' /verif/harness/Cargo.toml > {H}/harness/Cargo.toml")
F=[]
for k in json.load(open('/verif/known_findings.json')):
    m=re.match(r'fixed: property=(C\d\d) (\w+) (.*)',k['what'])
    if m: F.append(m.groups())
jobs=[]
for prop,c,what in F:
    d=sh(f'git show --format= -U2 {c}',cwd='/repo')[1]
    files=re.split(r'(?m)^(?=diff --git)',d)[1:]
    hunks=[]
    for f in files:
        p=re.split(r'(?m)^(?=@@ )',f)
        for h in p[1:]: hunks.append(p[0]+h)
    if mode=='whole': jobs.append((prop,c,what,[d]))
    elif len(hunks)>1:
        for i,h in enumerate(hunks): jobs.append((prop,c,what+f' [{i+1}/{len(hunks)}]',[h]))
if len(sys.argv)>4: jobs=[j for j in jobs if j[1] in sys.argv[4:]]
for (prop,c,what,ds) in jobs[W::NW]:
    t=time.time()
    try:
        rc=1
        for opt in (['git apply -R','git apply -R -C1','git apply -R --3way','git apply -R --unidiff-zero -C0'] ):
            rc,o=sh(opt+' -',cwd=R,inp=ds[0])
            if rc==0: break
            sh('git reset -q --hard; git clean -fdq',cwd=R)
        if rc: print(prop,c,'NOAPPLY',what,flush=True); continue
        rc,o=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8',cwd=R,t=120)
        ok=sum(l.startswith('test ') and l.endswith('... ok') for l in o.splitlines())
        if ok<22:
            e=[l for l in o.splitlines() if l.startswith('error')]
            print(prop,c,'TESTS',ok,e[:1],what,flush=True); continue
        n=prop[1:]
        rc,o=sh(f'cargo clean -q --release --offline -p anothertls; cargo build -q --release --offline --bin c{n}',cwd=H+'/harness')
        if rc: print(prop,c,'NOBUILD',o[-200:],what,flush=True); continue
        rc,o=sh(f'timeout 800 ./target/release/c{n}',cwd=H+'/harness')
        v=[l for l in o.splitlines() if 'VIOLATION' in l or 'what' in l]
        print(prop,c,'rc',rc,'' if rc==1 else '<<<<<<<< MISSED',what,round(time.time()-t),flush=True)
    finally: sh('git reset -q --hard; git clean -fdq',cwd=R)
print('done',flush=True)
