#!/usr/bin/env python3
"""Development helper: turn the entries of a seeds file into /verif/seeded/<id>/.

Each planted change is applied to a scratch copy of /repo, built, tested against the
baseline, and its demonstration run with and without it; only a change that builds,
passes the tests and fails its demonstration is written.  No check uses this file.
usage: mkseed.py SEEDS.py [id...]
"""
import json, os, subprocess, sys, shutil, runpy, shlex
SR='/tmp/sr'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
seeds=runpy.run_path(sys.argv[1])['SEEDS']
only=sys.argv[2:]
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])
sh(f'mkdir -p {SR}; rsync -a --delete --exclude target /repo/ {SR}/ 2>/dev/null || (rm -rf /tmp/sr/src && cp -a /repo/. {SR}/)')
BUILD=lambda d: sh(f'cd {d} && CARGO_TARGET_DIR={SR}t cargo build --offline -q 2>&1 | grep -v warning | head -30; test ${{PIPESTATUS[0]}} -eq 0', executable='/bin/bash')
def demo_text(s):
    out=['#!/bin/bash','# exit 0 when the program behaves as the property says, 1 otherwise','t=$(mktemp -d)','trap \'rm -rf "$t"\' EXIT','L=${LOUIS:-./target/debug/louis}','fail=0','export LOUIS_TABLE_PATH="$t"']
    if 'cases' in s:
        out+=['case_() { # name, expected, arguments...',
              '  local n="$1" e="$2"; shift 2; local g; g=$("$L" translate "$@" 2>"$t/err"); local r=$?',
              '  if [ $r -ne 0 ] || [ "$g" != "$e" ]; then echo "FAIL $n: got \'$g\' (rc $r), expected \'$e\'"; fail=1; fi','}']
        tabs={}
        for i,(tab,inp,exp,*fl) in enumerate(s['cases']):
            if tab not in tabs:
                tabs[tab]=f't{len(tabs)}.ctb'
                out+=[f"cat > \"$t/{tabs[tab]}\" <<'EOT'"]+tab.strip('\n').split('\n')+['EOT']
            for fn,txt in s.get('files',{}).items():
                if i==0: out+=[f"cat > \"$t/{fn}\" <<'EOT'"]+txt.strip('\n').split('\n')+['EOT']
            out+=[f"case_ {shlex.quote(inp)} {shlex.quote(exp)} \"$t/{tabs[tab]}\" {shlex.quote(inp)} {' '.join(fl)}"]
    if 'rs' in s:
        out+=["cat > \"$t/demo.rs\" <<'EOT'"]+s['rs'].strip('\n').split('\n')+['EOT',
              'D=${LOUIS_DIR:-./target/debug}',
              'rustc --edition 2024 -A warnings "$t/demo.rs" -o "$t/demo" -L "dependency=$D/deps" --extern "louis=$D/liblouis.rlib" || exit 2',
              'timeout 60 "$t/demo" || fail=1']
    if 'script' in s: out+=s['script'].strip('\n').split('\n')
    out+=['exit $fail']
    return '\n'.join(out)+'\n'
def auto(s):
    import tempfile
    if 'cases' not in s: return
    r=[]
    for (tab,inp,exp,*fl) in s['cases']:
        if exp is None:
            with tempfile.TemporaryDirectory() as t:
                open(t+'/t.ctb','w').write(tab.strip('\n')+'\n')
                for fn,txt in s.get('files',{}).items(): open(t+'/'+fn,'w').write(txt.strip('\n')+'\n')
                g=subprocess.run([f'{SR}t/debug/louis','translate',t+'/t.ctb',inp]+fl,capture_output=True,text=True,env={**os.environ,'LOUIS_TABLE_PATH':t})
                exp=g.stdout.rstrip('\n'); print('   auto',s['id'],repr(inp),'->',exp,g.stderr[:200])
        r.append((tab,inp,exp,*fl))
    s['cases']=r
def rundemo(path):
    return sh(f'cd {SR} && LOUIS={SR}t/debug/louis LOUIS_DIR={SR}t/debug timeout 250 bash {path}')
for s in seeds:
    if only and s['id'] not in only: continue
    d=f"/verif/seeded/{s['id']}"
    sh(f'cd {SR} && git checkout -q -- .')
    sh(f'cp -a /repo/src {SR}/; find {SR}/src -name "*.rs" -exec touch {{}} +')
    tmp='/tmp/seeddemo.sh'
    b=BUILD(SR); auto(s); open(tmp,'w').write(demo_text(s))
    r=rundemo(tmp)
    if r.returncode!=0: print(s['id'],'DEMO FAILS ON UNCHANGED',r.stdout,r.stderr[-300:]); continue
    ok=True
    for f,old,new in s['edits']:
        p=f'{SR}/{f}'; t=open(p).read()
        if t.count(old)!=1: print(s['id'],'EDIT matches',t.count(old),f,repr(old)); ok=False;break
        open(p,'w').write(t.replace(old,new))
    if not ok: continue
    b=sh(f'cd {SR} && CARGO_TARGET_DIR={SR}t cargo build --offline -q 2>&1 | grep -A8 "^error" | head -40')
    if b.stdout.strip(): print(s['id'],'BUILD',b.stdout); continue
    r=rundemo(tmp)
    if r.returncode==0: print(s['id'],'DEMO PASSES WITH CHANGE'); continue
    why=r.stdout.strip()
    r=sh(f'cd {SR} && CARGO_TARGET_DIR={SR}t cargo test --offline -q 2>&1')
    import re
    failed=[l.strip() for l in r.stdout.splitlines() if re.match(r'^    [a-z_:]+$',l)]
    bad=sorted(set(failed))
    if r.returncode!=0:
        print(s['id'],'TESTS FAIL',bad[:6], r.stdout[-300:] if not bad else ''); continue
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh(f'cd {SR} && git diff').stdout)
    open(d+'/demo.sh','w').write(demo_text(s)); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    print(s['id'],'OK',why[:200])
sh(f'cp -a /repo/src {SR}/')
