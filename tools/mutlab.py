#!/usr/bin/env python3
"""Mutation laboratory (development aid; not part of any check).

mutlab.py gen OUT.json [seed]         list syntactic mutants of /repo's source
mutlab.py run LIST.json OUT.jsonl N   try mutants in N scratch copies under
                                      /tmp/lab: stable tests first, then the
                                      checks at a reduced scale
Each result line: file, line, old, new, outcome (build, tests, caught:<ids>,
survived).
"""
import json, os, random, re, shutil, subprocess, sys, threading, time, queue

FILES = """src/cfg.rs src/checker.rs src/domtree.rs src/index.rs src/indexset.rs src/lib.rs src/moves.rs
src/postorder.rs src/serialize.rs src/ssa.rs src/fastalloc/iter.rs src/fastalloc/lru.rs src/fastalloc/mod.rs
src/fastalloc/vregset.rs src/ion/data_structures.rs src/ion/liveranges.rs src/ion/merge.rs src/ion/mod.rs
src/ion/moves.rs src/ion/process.rs src/ion/redundant_moves.rs src/ion/reg_traversal.rs src/ion/requirement.rs
src/ion/spill.rs""".split()
ORDER = {
    'checker': ['C14', 'C13', 'C18', 'C11'], 'moves': ['C15', 'C01', 'C07', 'C02'], 'cfg': ['C11', 'C16', 'C01', 'C02'],
    'domtree': ['C16', 'C11'], 'postorder': ['C16', 'C01', 'C11'], 'ssa': ['C11', 'C16'], 'index': ['C19', 'C22', 'C21'],
    'indexset': ['C21', 'C01'], 'lib': ['C19', 'C20', 'C22', 'C18', 'C14', 'C01'], 'serialize': ['C18', 'C14'],
    'fast': ['C02', 'C03', 'C10', 'C09', 'C17', 'C12', 'C07', 'C08', 'C04', 'C05', 'C06'],
    'ion': ['C01', 'C03', 'C09', 'C10', 'C17', 'C12', 'C07', 'C08', 'C04', 'C05', 'C06', 'C23'],
}
ALL = ['C%02d' % i for i in range(1, 24)]

def order(f):
    if 'fastalloc' in f: k = 'fast'
    elif '/ion/' in f: k = 'ion'
    else: k = os.path.basename(f)[:-3]
    o = list(ORDER[k])
    skip = {'fast': 'C11 C13 C14 C15 C16 C18 C19 C20 C21 C23', 'ion': 'C11 C13 C14 C15 C16 C18 C19 C20 C21 C02',
            'checker': 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12 C15 C16 C17 C19 C20 C21 C22 C23'}.get(k, '').split()
    return o + [c for c in ALL if c not in o and c not in skip]

SUBS = [
    (r' < ', [' <= ']), (r' <= ', [' < ']), (r' > ', [' >= ']), (r' >= ', [' > ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ 1\b', ['']), (r' - 1\b', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'OperandPos::Early', ['OperandPos::Late']), (r'OperandPos::Late', ['OperandPos::Early']),
    (r'OperandKind::Def', ['OperandKind::Use']), (r'OperandKind::Use', ['OperandKind::Def']),
    (r'InstPosition::Before', ['InstPosition::After']), (r'InstPosition::After', ['InstPosition::Before']),
    (r'ProgPoint::before', ['ProgPoint::after']), (r'ProgPoint::after', ['ProgPoint::before']),
    (r'\.from\b', ['.to']), (r'\.to\b(?!_)', ['.from']), (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']),
    (r'\.next\(\)', ['']), (r'\.prev\(\)', ['']), (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']),
    (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;', ';']), (r'\breturn;', [';']), (r' \+= ', [' -= ']),
    (r' & ', [' | ']), (r' \| ', [' & ']), (r'\bif (?!let)(.*) \{$', [r'if !(\1) {', r'if false && (\1) {']),
    (r'\bif let (.*) \{$', []), (r'\.rev\(\)', ['']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
    (r'\.is_empty\(\)', ['.is_empty() == false']), (r'!(?=[a-z_]+[.(])', ['']),
]

def gen(seed):
    out = []
    for f in FILES:
        lines = open('/repo/' + f).read().split('\n')
        depth_macro = 0
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith('mod tests') or s.startswith('mod test '): break
            if s.startswith('//') or s.startswith('#[') or 'trace!' in s or 'assert' in s or 'use ' == s[:4] or 'write!' in s or 'info!' in s: continue
            code = l.split('//')[0].rstrip()
            for pat, reps in SUBS:
                for m in re.finditer(pat, code):
                    for rep in reps:
                        new = code[:m.start()] + m.expand(rep) + code[m.end():]
                        if new != code: out.append(dict(file=f, line=n + 1, old=l, new=new))
            if re.match(r'^\s+[a-z_.]+.*;$', code) and not re.match(r'^\s*(let|return|break|continue|use|pub|type|const)\b', code):
                out.append(dict(file=f, line=n + 1, old=l, new=re.match(r'^\s*', l).group(0) + '();' if False else '{}'))
    random.Random(seed).shuffle(out)
    return out

ENV = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:/usr/local/cargo/bin:' + os.environ['PATH'],
           RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
STABLE = [t.split('::', 1)[1] for t in json.load(open('/opt/vp/BASELINE.json'))['stable']]

def setup(w):
    os.makedirs(w, exist_ok=True)
    if not os.path.exists(w + '/repo'):
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    subprocess.run(['git', '-C', w + '/repo', 'checkout', '-q', '--', '.'])
    os.makedirs(w + '/verif', exist_ok=True)
    subprocess.run(['rsync', '-a', '--exclude', 'harness/target', '--exclude', '.git', '--exclude', 'seeded', '/verif/', w + '/verif/'], check=True) if shutil.which('rsync') else \
        subprocess.run('cd /verif && tar cf - --exclude=harness/target --exclude=.git --exclude=seeded --exclude=replays --exclude=evidence . | tar xf - -C %s/verif' % w, shell=True, check=True)
    for t in ['harness/Cargo.toml', 'toolbuild/Cargo.toml']:
        p = w + '/verif/' + t
        s = open(p).read().replace('"/repo', '"' + w + '/repo')
        open(p, 'w').write(s)

    # One flavour (assertions on, lightly optimised) is enough here.
    p = w + '/verif/run.sh'
    s = open(p).read()
    if os.environ.get('LAB_ONE'):
        s = s.replace('build_one harness target/plain$1 "$log.p" --profile plain & local p=$!', 'true & local p=$!')
        s = s.replace('plain=$root/harness/target/plain$sfx/plain/check', 'plain=$root/harness/target/checked$sfx/release/check')
    open(p, 'w').write(s)

def tests(w):
    env = dict(ENV, CARGO_TARGET_DIR=w + '/repo/target')
    r = subprocess.run('cd %s/repo && timeout 300 cargo test --workspace --all-features --no-run --offline' % w, shell=True, env=env, capture_output=True, text=True)
    if r.returncode: return 'build'
    r = subprocess.run('cd %s/repo && timeout -k 5 60 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8' % w, shell=True, env=env, capture_output=True, text=True)
    ok = set(re.findall(r'^test (\S+)(?: - should panic)? \.\.\. ok', r.stdout, re.M))
    miss = [t for t in STABLE if t not in ok]
    return 'tests' if miss else 'ok'

def checks(w, f, stop, scale, threads, ids=None):
    caught, odd = [], []
    if os.environ.get('LAB_ONE'): ENV.update(CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_DEBUG='0')
    env = dict(ENV, RV_SCALE=str(scale), RV_THREADS=str(threads), VERIF_SEED='1', RV_SHRINK='0')
    for c in ids or order(f):
        r = subprocess.run('cd %s/verif && timeout -k 5 1500 ./run.sh %s quick' % (w, c), shell=True, env=env, capture_output=True, text=True)
        if r.returncode == 1 and 'VIOLATION property=%s ' % c in r.stdout:
            caught.append(c)
            if stop: break
        elif r.returncode != 0:
            odd.append('%s:%d:%s' % (c, r.returncode, (r.stdout + r.stderr)[-200:]))
    return caught, odd

def apply(w, m):
    p = w + '/repo/' + m['file']
    lines = open(p).read().split('\n')
    assert lines[m['line'] - 1] == m['old'], m
    lines[m['line'] - 1] = m['new']
    open(p, 'w').write('\n'.join(lines))

def worker(k, q, out, lock):
    w = '/tmp/lab/w%d' % k
    setup(w)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        if os.path.exists('/tmp/lab/stop'): return
        t0 = time.time()
        subprocess.run(['git', '-C', w + '/repo', 'checkout', '-q', '--', '.'])
        try: apply(w, m)
        except AssertionError: continue
        r = tests(w)
        odd = []
        if r == 'ok':
            c, odd = checks(w, m['file'], True, float(os.environ.get('LAB_SCALE', '0.1')), int(os.environ.get('LAB_THREADS', '1')))
            r = 'caught:' + ','.join(c) if c else 'survived'
        with lock:
            out.write(json.dumps(dict(m, outcome=r, odd=odd, secs=round(time.time() - t0))) + '\n'); out.flush()

if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        l = gen(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
        json.dump(l, open(sys.argv[2], 'w'))
        print(len(l))
    else:
        q = queue.Queue()
        done = set()
        if os.path.exists(sys.argv[3]):
            for l in open(sys.argv[3]):
                d = json.loads(l); done.add((d['file'], d['line'], d['new']))
        for m in json.load(open(sys.argv[2])):
            if (m['file'], m['line'], m['new']) not in done: q.put(m)
        lock, out = threading.Lock(), open(sys.argv[3], 'a')
        ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(int(sys.argv[4]))]
        [t.start() for t in ts]; [t.join() for t in ts]
