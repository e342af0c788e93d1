#!/usr/bin/env python3
"""Measures the checks with systematic small changes (tools/mutate) of /repo.

mutants.py survive OUT.json [FILE...]   which changes compile and pass the existing tests
mutants.py check IN.json OUT.json       which of those the checks report
Works on copies below /tmp/mut; /repo is only read. Not used by the checks.
"""
import json, os, subprocess, sys, shutil, concurrent.futures as cf, queue, glob, signal

REPO, WORK = '/repo', '/tmp/mut'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-vet=off', GOENV='off', GOSUMDB='off')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'plurals/': 'C03 C02 C01 C04 C28',
    'f/': 'C07 C22 C28',
    'locale/': 'C39 C26 C27 C25',
    'http.go': 'C38 C27 C28', 'tag.go': 'C27 C26 C28', 'matcher.go': 'C27',
    'context.go': 'C25 C38', 'fs.go': 'C24 C23',
    'translator/mo.go': 'C16 C14 C13 C18 C19 C15',
    'translator/po.go': 'C09 C17 C40 C08 C12 C11 C19 C10 C18',
    'translator/pot.go': 'C17 C12 C40 C18 C11 C19',
    'translator/entry.go': 'C17 C12 C08 C18 C11 C10 C31',
    'translator/file.go': 'C05 C06 C17 C34 C18 C04 C12 C37 C28',
    'translator/util.go': 'C09 C08 C05 C11 C10',
    'translator/wrap.go': 'C12 C17 C11',
    'translator/plural.go': 'C06 C04 C34 C28',
    'translator/reader.go': 'C09 C40 C08 C10',
    'translator/': 'C09 C05 C06 C17 C16 C08 C12 C13 C14 C11 C10 C04 C15 C18 C19',
    'errors/': 'C40 C10 C23 C33 C31',
    'cmd/xtemplate/main.go': 'C40 C35',
    'cmd/xtemplate/internal/keyword.go': 'C29 C40 C33',
    'cmd/xtemplate/internal/param.go': 'C31 C32 C33 C35 C40',
    'cmd/': 'C31 C30 C40 C32 C36 C33',
    '': 'C20 C22 C34 C25 C21 C26 C27 C24 C23 C05 C38 C28',
}

def copy(name):
    d = f'{WORK}/{name}'
    if os.path.exists(d):
        shutil.rmtree(d)
    subprocess.run(['cp', '-a', REPO, d], check=True)
    os.makedirs(d + '.work', exist_ok=True)
    with open(d + '.work/go.work', 'w') as w:
        w.write(f'go 1.25.0\nuse (\n\t{d}\n\t{d}/cmd/xtemplate\n)\n')
    if os.path.exists('/opt/vp/go.work.sum'):
        shutil.copy('/opt/vp/go.work.sum', d + '.work/go.work.sum')
    return d

def mutants(files):
    subprocess.run(['go', 'build', '-o', f'{WORK}/mutate', 'main.go'], cwd=f'{HERE}/tools/mutate', env=dict(ENV, GOWORK='off'), check=True)
    for f in files:
        for l in subprocess.run([f'{WORK}/mutate', f'{REPO}/{f}'], capture_output=True, text=True, check=True).stdout.splitlines():
            yield dict(json.loads(l), file=f)

def apply(d, m):
    b = open(f'{REPO}/{m["file"]}', 'rb').read()
    open(f'{d}/{m["file"]}', 'wb').write(b[:m['Pos']] + m['Text'].encode() + b[m['End']:])

def restore(d, m):
    shutil.copy(f'{REPO}/{m["file"]}', f'{d}/{m["file"]}')

def run(cmd, cwd, timeout, **kw):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors='replace', **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 'timeout', ''

def survive(out, files):
    if not files:
        files = [os.path.relpath(f, REPO) for f in glob.glob(f'{REPO}/**/*.go', recursive=True) if not f.endswith('_test.go') and '/parser/' not in f]
    pool = queue.Queue()
    for i in range(8):
        pool.put((i, copy(f'w{i}')))
    def one(m):
        i, d = pool.get()
        try:
            apply(d, m)
            for cwd in (d, f'{d}/cmd/xtemplate'):
                rc, o = run(['taskset', '-c', str(i), 'go', 'build', './...'], cwd, 120, env=dict(ENV, GOWORK=d + '.work/go.work'))
                if rc != 0:
                    return 'broken'
            for cwd in (d, f'{d}/cmd/xtemplate'):
                rc, o = run(['taskset', '-c', str(i), 'go', 'test', '-timeout', '60s', './...'], cwd, 90, env=dict(ENV, GOWORK=d + '.work/go.work'))
                if rc != 0:
                    return 'tests'
            return 'survives'
        finally:
            restore(d, m)
            pool.put((i, d))
    ms = list(mutants(sorted(files)))
    left, n = [], {}
    with cf.ThreadPoolExecutor(8) as ex:
        for m, r in zip(ms, ex.map(one, ms)):
            n[r] = n.get(r, 0) + 1
            if r == 'survives':
                left.append(m)
                json.dump(left, open(out, 'w'), indent=1)
    print(n)

def check(inp, out):
    ms = json.load(open(inp))
    if not os.path.exists(f'{WORK}/verif'):
        subprocess.run(['git', 'clone', '-q', HERE, f'{WORK}/verif'], check=True)
    d = copy('c')
    done = json.load(open(out)) if os.path.exists(out) else []
    seen = {(m['file'], m['Pos'], m['End'], m['Text']) for m in done}
    for m in ms:
        if (m['file'], m['Pos'], m['End'], m['Text']) in seen:
            continue
        apply(d, m)
        ids = next(v for k, v in CHECKS.items() if m['file'].startswith(k)).split()
        if m['file'].startswith('translator/') and os.path.exists(f'{WORK}/fast'):
            pass
        m['result'] = 'missed'
        for c in ids:
            if c in os.environ.get('SKIP', '').split():
                continue
            rc, o = run([f'{WORK}/verif/check.sh', c], d, 900, env=dict(os.environ, VERIF_REPO=d))
            if rc != 0:
                m['result'] = f'{c}: {rc} ' + ' '.join(l for l in o.splitlines() if 'scenario' in l or 'VIOLATION' in l)[:300]
                break
        restore(d, m)
        done.append(m)
        json.dump(done, open(out, 'w'), indent=1)
        print(m['file'], m['Line'], m['What'][:100].replace('\n', ' '), '=>', m['result'][:60], flush=True)

if sys.argv[1] == 'survive':
    survive(sys.argv[2], sys.argv[3:])
else:
    check(sys.argv[2], sys.argv[3])
