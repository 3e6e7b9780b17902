#!/usr/bin/env python3
"""mk.py FILE.py... : each file defines SEEDS=[dict(id,prop,needs,breaks,edits=[(file,old,new)],demo=rust main body or None,sh=extra)]"""
import sys,os,subprocess,json,shutil,importlib.util
SW='/tmp/w/sw'
V='/verif/seeded'
env=dict(os.environ,RUSTUP_TOOLCHAIN='stable',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never')
def sh(c,cwd=None,t=900,e=None):
    return subprocess.run(c,shell=True,cwd=cwd,env=e or env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
def reset():
    head=sh('git rev-parse HEAD',cwd='/repo').stdout.strip()
    if not os.path.exists(SW): sh(f'cp -a /repo {SW}')
    sh(f'git fetch -q /repo HEAD; git checkout -q -f {head}; git checkout -q -- .; git clean -fdq',cwd=SW)
    if not os.path.exists('/tmp/w/vs'):
        sh('mkdir -p /tmp/w/vs; cp -a /verif/harness /tmp/w/vs/')
def sync():
    sh("rsync -a --exclude target --exclude Cargo.toml /verif/harness/ /tmp/w/vs/harness/; cp /verif/known_findings.json /verif/properties.jsonl /tmp/w/vs/; mkdir -p /tmp/w/vs/evidence")
    sh("sed 's#/repo/anothertls#/tmp/w/sw/anothertls#' /verif/harness/Cargo.toml > /tmp/w/vs/harness/Cargo.toml")
DEMO='''#!/bin/bash
# cwd: the repository, built. exit 0: behaves as it should
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
mkdir -p "$t/src" && cp "$here"/*.rs "$t/src/" || exit 3
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
anothertls = { path = "$repo/anothertls" }
ibig = { version = "0.3.6", default-features = false }
[workspace]
X
cp "$repo/Cargo.lock" "$t/" 2>/dev/null
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTC_WRAPPER=
cd "$t" || exit 3
cargo build -q --offline || exit 3
timeout 120 ./target/debug/demo "$here" "$t"
'''
def stable():
    r=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8',cwd=SW,e=dict(env,CARGO_TARGET_DIR=SW+'/target',CARGO_INCREMENTAL='1'))
    ok=[l for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok')]
    return len(ok),r.stdout
def check(prop,seed='1'):
    b=prop.lower()
    sh('cargo clean -q --release --offline -p anothertls',cwd='/tmp/w/vs/harness')
    r=sh(f'cargo build -q --release --offline --bin {b}',cwd='/tmp/w/vs/harness')
    if r.returncode: return 'NOBUILD '+r.stdout[-2000:]
    import time
    t=time.time()
    r=sh(f'timeout 900 ./target/release/{b}',cwd='/tmp/w/vs/harness',e=dict(env,VERIF_SEED=seed,VERIF_TIER='quick'))
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    m=[l for l in r.stdout.splitlines() if 'failing case' not in l and l.startswith('[') and not l.startswith('[C')]
    return f"rc={r.returncode} {time.time()-t:.0f}s {v[:1]} {m[:1]}"[:500]
def main(fs):
    reset(); sync()
    only=[a for a in fs if not a.endswith('.py')]
    for f in [a for a in fs if a.endswith('.py')]:
        spec=importlib.util.spec_from_file_location('x',f); mod=importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
        for s in mod.SEEDS:
            if only and s['id'] not in only: continue
            reset()
            bad=None
            for (p,a,b) in s['edits']:
                fp=f'{SW}/anothertls/src/{p}'; x=open(fp).read()
                if x.count(a)!=1: bad=f'{p}: {x.count(a)} matches of {a[:60]!r}'; break
                open(fp,'w').write(x.replace(a,b))
            if bad: print(s['id'],'EDIT',bad,flush=True); reset(); continue
            d=f"{V}/{s['id']}"; os.makedirs(d,exist_ok=True)
            open(d+'/patch.diff','w').write(sh('git diff',cwd=SW).stdout)
            open(d+'/main.rs','w').write(s['demo'])
            for x in s.get('files',[]): shutil.copy(x,d)
            if 'common.rs' in s['demo'] or 'mod common' in s['demo']: shutil.copy('/tmp/w/seedtool/common.rs',d)
            open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
            json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
            import own; 
            if not own.counts(open(d+'/patch.diff').read()): print(s['id'],'NOT ORIGINAL',flush=True)
            n,o=stable()
            r1=sh(f'bash {d}/demo.sh',cwd=SW,t=300)
            c=check(s['prop'])
            cs=[check(s['prop'],str(k)) for k in s.get('seeds',[])]
            reset()
            r0=sh(f'bash {d}/demo.sh',cwd='/repo',t=300)
            print(f"{s['id']} tests={n} clean={r0.returncode} patched={r1.returncode} check: {c} {cs}",flush=True)
            if n!=22: print(o[-1500:])
            if r0.returncode: print('CLEAN:',r0.stdout[-1500:])
            if r1.returncode in(0,3): print('PATCHED:',r1.stdout[-1500:])
main(sys.argv[1:])
