#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specifications in tools/seeds/*.py (development tool, no check reads it).

A specification is a call  bug(id, prop, needs, breaks, edits=[(file, old, new), ...], demo=go_body, imports=[...]).
The demo's go_body is the body of func main of a program that calls fail(...) when the property is broken."""
import glob, json, os, subprocess, sys, tempfile, shutil, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
only = set(sys.argv[1:])
DEMO_SH = '''#!/bin/bash
# Exit 0: the property holds on the demonstrated case. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here/main.go" "$d/main.go"
printf 'module demo\\n\\ngo 1.23\\n\\ngodebug default=go1.20\\n\\nrequire github.com/ZZMarquis/gm v0.0.0\\n\\nreplace github.com/ZZMarquis/gm => %s\\n' "$repo" > "$d/go.mod"
cd "$d" && GOFLAGS="-buildvcs=false -mod=mod" go build -o demo . && timeout 250 ./demo
'''
PRE = '''
func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "property broken: "+f+"\\n", a...)
	os.Exit(1)
}
'''
specs = []
def bug(id, prop, needs, breaks, edits, demo, imports=(), top='', sh=None):
    specs.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=imports, top=top, sh=sh))

for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
ids = [s['id'] for s in specs]
assert len(ids) == len(set(ids)), 'duplicate id'
for s in specs:
    if only and s['id'] not in only: continue
    out = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(out, exist_ok=True)
    with tempfile.TemporaryDirectory() as d:
        diff = ''
        files = {}
        for f, old, new in s['edits']:
            src = files.get(f) or open(os.path.join(REPO, f)).read()
            if src.count(old) != 1:
                sys.exit('%s: %d matches in %s of %r' % (s['id'], src.count(old), f, old))
            files[f] = src.replace(old, new)
        for f, src in sorted(files.items()):
            p = os.path.join(d, 'b', f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(src)
            q = os.path.join(d, 'a', f); os.makedirs(os.path.dirname(q), exist_ok=True); shutil.copy(os.path.join(REPO, f), q)
            r = subprocess.run(['gofmt', '-l', p], capture_output=True, text=True)
            if r.returncode: sys.exit(s['id'] + ': ' + r.stderr)
            diff += subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=d, capture_output=True, text=True).stdout
        import re
        diff = re.sub(r'^(---|\+\+\+) (\S+)\t.*$', r'\1 \2', diff, flags=re.M)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    imps = sorted(set(['fmt', 'os'] + list(s['imports'])))
    ali = {'certpkg': '"github.com/ZZMarquis/gm/sm2/cert"'}
    go = 'package main\n\nimport (\n' + ''.join('\t%s\n' % (i if i.startswith(('.', '_')) or ' ' in i else '"%s"' % i) for i in imps) + ')\n' + PRE + s['top'] + '\nfunc main() {\n' + s['demo'] + '\n}\n'
    r = subprocess.run(['gofmt'], input=go, capture_output=True, text=True)
    if r.returncode: sys.exit(s['id'] + ' demo: ' + r.stderr)
    open(os.path.join(out, 'main.go'), 'w').write(r.stdout)
    open(os.path.join(out, 'demo.sh'), 'w').write(s['sh'] or DEMO_SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
print(len(specs), 'seeds')
