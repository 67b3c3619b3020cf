"""plant(id, prop, edits, demo, needs, breaks, deps): verify in a scratch copy and keep under /verif/seeded"""
import os,subprocess,shutil,json,sys
R='/tmp/seed/repo'
DEMO='''#!/bin/bash
# exit 0: the property holds on the demonstration's input; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd) || exit 99
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_TARGET_DIR="$w/target"
export PATH=/root/.cargo/bin:$PATH
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
japanese_law_xml_schema = { path = "$repo" }
DEPS
EOF
cd "$w" && cargo build --offline --quiet && timeout 60 ./target/debug/demo
rc=$?
cd / && rm -rf "$w"
exit $rc
'''
def sh(c,cwd=None,t=600):
    p=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
    return p.returncode,p.stdout+p.stderr
def plant(id,prop,edits,demo,needs,breaks,deps=''):
    if not os.path.exists(R):
        sh('mkdir -p /tmp/seed && cp -a /repo '+R)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',R)
    for f,a,b in edits:
        p=R+'/'+f; s=open(p).read()
        assert s.count(a)==1,(id,f,s.count(a),a)
        open(p,'w').write(s.replace(a,b))
    rc,o=sh('cargo test --offline 2>&1',R)
    import re
    m=re.findall(r'test result: (\w+)\. (\d+) passed; (\d+) failed',o)
    n=sum(int(x[1]) for x in m)
    if rc or n<10:
        print(id,'TESTS FAIL',o[-3000:]); return False
    d=os.environ.get('SEEDED','/verif/seeded')+'/'+id
    os.makedirs(d,exist_ok=True)
    open(d+'/demo.sh','w').write(DEMO.replace('DEPS',deps)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.rs','w').write(demo)
    rc,o=sh('git diff',R); open(d+'/patch.diff','w').write(o)
    rc1,o1=sh(f'bash {d}/demo.sh',R)
    sh('git checkout -q -- .',R)
    rc0,o0=sh(f'bash {d}/demo.sh',R)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),ensure_ascii=False,indent=1)
    ok = rc0==0 and rc1!=0 and 'error[' not in o1 and 'could not compile' not in o1
    print(id,'OK' if ok else 'BAD','clean',rc0,'patched',rc1, (o1.strip().splitlines() or [''])[-1][:150])
    if not ok: print(o0[-1500:],o1[-1500:])
    return ok
