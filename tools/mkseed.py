#!/usr/bin/env python3
"""developer helper: mkseed.py SPEC.py ; SPEC defines id, property, edits=[(file, old, new)], needs, breaks, main (rust), [deps]"""
import sys,os,json,subprocess
for f in sys.argv[1:]:
    g={}; exec(open(f).read(),g)
    d='/verif/seeded/'+g['id']; os.makedirs(d,exist_ok=True)
    subprocess.check_call(['git','-C','/tmp/sw','checkout','-q','--','.'])
    for path,old,new in g['edits']:
        p='/tmp/sw/'+path; s=open(p).read()
        assert s.count(old)==1,(g['id'],path,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C','/tmp/sw','diff']).decode()
    open(d+'/patch.diff','w').write(diff)
    subprocess.check_call(['git','-C','/tmp/sw','checkout','-q','--','.'])
    json.dump({'property':g['property'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(d+'/meta.json','w'),indent=1)
    open(d+'/main.rs','w').write(g['main'])
    ex=g.get('typegen')
    dep=g.get('deps','')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = the repository; builds main.rs against it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export RUSTUP_TOOLCHAIN=1.79.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 3
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bluejay-core = { path = "$repo/bluejay-core", features = ["serde_json"] }
bluejay-parser = { path = "$repo/bluejay-parser" }
bluejay-printer = { path = "$repo/bluejay-printer" }
bluejay-validator = { path = "$repo/bluejay-validator" }
bluejay-schema-comparator = { path = "$repo/bluejay-schema-comparator" }
bluejay-visibility = { path = "$repo/bluejay-visibility" }
'''+dep+'''serde_json = "1"
[profile.dev]
debug = false
EOF
''' + (g['demo_run'] if 'demo_run' in g else '''cd "$d" && cargo build --offline --quiet || exit 3
timeout 60 "$d/target/debug/demo"
'''))  # demo_env
