"""Writes and confirms planted bugs: a seed is (id, property, edits, needs, breaks, demo, files)."""
import json, os, subprocess, shutil, sys, tempfile, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
# changes to the templates, which vcheck doesn't count as source code
TEMPLATES = os.path.join(os.path.dirname(HERE), 'planted_templates')

PRE = r'''#!/bin/bash
# Runs with cwd /repo after the build. Exit 0: the property holds for the case below.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
go build -o "$S/gowrap" ./cmd/gowrap || exit 3
T="$repo/templates"
fail() { echo "FAIL: $*"; exit 1; }
mkdir -p "$S/m" && cd "$S/m" || exit 3
'''
PLAIN = 'printf "module demo\\n\\ngo 1.22\\n" > go.mod\n'
THIRD = '''cp "$repo/templates_tests/go.mod" "$repo/templates_tests/go.sum" . && go mod edit -module demo || exit 3
'''

def heredoc(name, text):
    return "mkdir -p \"$(dirname '%s')\" && cat > '%s' <<'EOF_DEMO'\n%s\nEOF_DEMO\n" % (name, name, text.strip('\n'))

SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, third=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + (THIRD if third else PLAIN) + demo))

def sh(cmd, **kw):
    return subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, errors='replace', **kw)

def confirm(s):
    d = os.path.join(TEMPLATES if any(e[0].startswith('templates/') for e in s['edits']) else SEEDED, s['id'])
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/r'], check=True)
        r = w + '/r'
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], 'edit matches %d times: %r' % (t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = sh('cd %s && git diff' % r).stdout
        orig = 0
        for f, old, new in s['edits']:
            pass
        # removed lines that belong to the original repository
        blame = 0
        for f in {e[0] for e in s['edits']}:
            b = {}
            for i, l in enumerate(sh('cd /repo && git blame -s %s' % f).stdout.splitlines(), 1):
                b[i] = l.startswith('^')
            n = 0
            for l in diff.splitlines():
                if l.startswith('+++ '):
                    cur = l[6:]
                elif l.startswith('@@'):
                    n = int(l.split()[1].split(',')[0][1:])
                elif l.startswith('-') and not l.startswith('---'):
                    if cur == f and b.get(n): blame += 1
                    n += 1
                elif l.startswith(' '):
                    n += 1
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(s['demo'])
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        out = []
        if not blame: out.append('NO ORIGINAL LINE REMOVED')
        b = sh('. /opt/vp/env.sh; cd %s && go build ./... && cd templates_tests && go test -vet=off -c -o /dev/null .' % r)
        if b.returncode: out.append('BUILD ' + b.stderr[:300])
        t = sh('. /opt/vp/env.sh; cd %s && go test -json -vet=off -count=1 ./... 2>/dev/null' % r)
        failed = set()
        for l in t.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'fail' and e.get('Test'): failed.add(e['Package'] + '/' + e['Test'])
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        # the copy lies elsewhere: tests that depend on the directory's name fail in it
        bad = sorted(failed & stable)
        if bad: out.append('TESTS ' + ' '.join(bad)[:200])
        dd = w + '/demo'
        shutil.copytree(d, dd); os.remove(dd + '/patch.diff'); os.remove(dd + '/meta.json')
        g = sh('cd /repo && timeout 300 bash %s/demo.sh' % dd)
        if g.returncode: out.append('DEMO GOOD rc=%d %s' % (g.returncode, (g.stdout + g.stderr)[-600:]))
        m = sh('cd %s && timeout 300 bash %s/demo.sh' % (r, dd))
        if not m.returncode or m.returncode == 3: out.append('DEMO BAD rc=%d %s' % (m.returncode, (m.stdout + m.stderr)[-600:]))
        return s['id'], '; '.join(out) or 'ok: ' + (m.stdout + m.stderr).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(w)

def main():
    sel = sys.argv[1:]
    jobs = [s for s in SEEDS if not sel or any(s['id'].startswith(x) for x in sel)]
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for r in ex.map(confirm, jobs):
            print('%-28s %s' % r, flush=True)
