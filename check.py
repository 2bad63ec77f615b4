#!/usr/bin/env python3
"""Build /repo's current tree and explore one property.

usage: check.py ID [--tier quick|thorough]      decide property ID
       check.py replay FILE                     re-run a recorded violation
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: no verdict.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ['VERIF_REPO'] = REPO
SRC, DATA, EVID = f'{VERIF}/src', f'{VERIF}/data', f'{VERIF}/evidence'
NPROC = os.cpu_count() or 4
ALL = list(range(7, 17))
sys.path.insert(0, VERIF)

# driver, Unicode versions built, extra options
from registry import PROPS

class NoVerdict(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)

def inc(v):
    return [f'-I{REPO}/source/bits{v % 100}', f'-I{REPO}/source', f'-I{REPO}/interface', f'-I{SRC}']

def compile_jobs(jobs):
    def one(j):
        r = sh(j)
        return j, r
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode:
                sys.stderr.write(' '.join(j) + '\n' + r.stderr[-6000:])
                raise NoVerdict('the tree (or a harness against it) does not compile')

def lib_sources(v):
    core = sorted(glob.glob(f'{REPO}/source/*.cxx'))
    bits = sorted(glob.glob(f'{REPO}/source/bits{v % 100}/*.cxx'))
    if not core or not bits: raise NoVerdict('sources not found')
    return core, bits

def build(prop, work):
    """returns {build: executable}; build = Unicode version + 100 * index of the variant's flags"""
    P = PROPS[prop]
    var = lambda v: P['variants'][v // 100] if 'variants' in P else []
    flags = ['-std=gnu++11', '-DNDEBUG'] + P.get('flags', ['-O2'])
    libflags = flags + P.get('libflags', [])
    cxx = P.get('cxx', 'g++')
    jobs, exes = [], {}
    link = []
    tag = lambda p: re.sub(r'\W', '_', os.path.relpath(p, '/'))
    core_done = {}
    for v in P['versions']:
        core, bits = lib_sources(v)
        objs = []
        for s in core + bits:
            # core sources are compiled per version too: include paths differ
            o = f'{work}/{tag(s)}.{v}.o'
            jobs.append([cxx, *libflags, *var(v), *inc(v), '-c', s, '-o', o]); objs.append(o)
        for d in P.get('libdrivers', []):      # harness code compiled like the library
            o = f'{work}/{d}.{v}.lo'
            jobs.append([cxx, *libflags, *inc(v), '-c', f'{SRC}/{d}', '-o', o]); objs.append(o)
        link.append((v, objs))
    drv = {}                                   # the driver does not depend on the version
    for v in P['versions']:
        if v // 100 in drv: continue
        drv[v // 100] = []
        for d in P['drivers']:
            o = f'{work}/{d}.{v // 100}.o'
            jobs.append([cxx, *flags, *P.get('drvflags', []), *var(v), *inc(v), '-c', f'{SRC}/{d}', '-o', o]); drv[v // 100].append(o)
    compile_jobs(jobs)
    ljobs = []
    if P.get('shared'):         # library (and libdrivers) as a shared object of its own
        for k, (v, objs) in enumerate(link):
            so = f'{work}/libut{v}.so'
            ljobs.append([cxx, *flags, '-shared', '-Wl,-Bsymbolic', '-Wl,-z,now', *objs, '-o', so])
            link[k] = (v, [so, '-Wl,-rpath,$ORIGIN'])
        compile_jobs(ljobs); ljobs = []
    for v, objs in link:
        e = f'{work}/{prop}.{v}'
        ljobs.append([cxx, *flags, *var(v), *drv[v // 100], *objs, '-o', e, *P.get('ldflags', [])]); exes[v] = e
        if 'tool' in P:             # a program of the repository, driven from outside
            ljobs.append([cxx, *flags, *inc(v), f'{REPO}/{P["tool"]}', *objs, '-o', f'{work}/tool.{v}'])
    for s in P.get('preload', []):
        ljobs.append(['gcc', '-O1', '-shared', '-fPIC', f'{SRC}/{s}', '-o', f'{work}/{s[:-2]}.so'])
    compile_jobs(ljobs)
    return exes

def run_all(prop, exes, tier, work, budget):
    P = PROPS[prop]
    nv = len(exes)
    per = lambda v: P.get('shards') or (NPROC if nv == 1 or v % 100 == 16 else 2)
    tasks = [(v, i, per(v)) for v in sorted(exes, reverse=True) for i in range(per(v))]
    deadline = time.time() + budget
    def one(t):
        v, i, n = t
        out = f'{work}/out.{v}.{i}.json'
        cmd = [*P.get('wrap', {}).get(v // 100, []), exes[v], '--shard', f'{i}/{n}', '--tier', tier, '--version', str(v % 100), '--data', DATA, '--out', out, '--prop', prop]
        try:
            r = sh(cmd, timeout=max(5, deadline - time.time()), cwd=work)
        except subprocess.TimeoutExpired:
            return t, None, 'timeout', ''
        res = None
        if os.path.exists(out):
            try: res = json.load(open(out))
            except ValueError: pass
        return t, res, r.returncode, r.stderr[-3000:]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(one, tasks))

def known_list(prop):
    out = {}
    p = f'{VERIF}/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3).strip()
    return out

def write_replay(prop, kind, args, units, v, tier, msg):
    d = f'{EVID}/replay'; os.makedirs(d, exist_ok=True)
    path = f'{d}/{prop}.txt'
    with open(path, 'w') as f:
        f.write(f'property={prop}\nversion={v}\ntier={tier}\nkind={kind}\nargs={args}\nunits={units}\nmessage={msg}\n'
                f'# re-run: python3 {VERIF}/check.py replay {path}\n')
    return path

def parse_case(c):
    m = re.match(r'kind=(\S+) args=(\S*) units=(.*)$', c, re.S)
    return (m.group(1), m.group(2), m.group(3)) if m else ('?', '', '')

def replay_once(prop, exe, v, kind, args, units, work, tier):
    out = f'{work}/replay.json'
    if os.path.exists(out): os.remove(out)
    with open(f'{work}/units', 'w') as f: f.write(units + '\n')
    try:
        r = sh([*PROPS[prop].get('wrap', {}).get(v // 100, []), exe, '--version', str(v % 100), '--data', DATA, '--out', out, '--prop', prop, '--tier', tier, '--replay', kind, args, '', '--units', f'{work}/units'], cwd=work, timeout=400)
    except subprocess.TimeoutExpired:
        return True, 'does not return'
    if os.path.exists(out):
        j = json.load(open(out))
        return j['status'] == 'violation', j.get('message', '')
    return r.returncode != 0, r.stdout + r.stderr

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == 'replay':
        kv = {}
        for l in open(sys.argv[2]):
            if '=' in l and not l.startswith('#'):
                k, x = l.rstrip('\n').split('=', 1); kv[k] = x
        work = tempfile.mkdtemp(prefix='ansakmc.')
        try:
            v = int(kv['version']); P = PROPS[kv['property']]; P['versions'] = [v]
            exes = build(kv['property'], work)
            bad, msg = replay_once(kv['property'], exes[v], v, kv['kind'], kv['args'], kv['units'], work, kv.get('tier', 'quick'))
            print('REPRODUCED: ' + msg if bad else 'not reproduced')
            return 1 if bad else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix='ansakmc.')
    rc = 2
    try:
        exes = build(prop, work)
        tb = time.time() - t0
        res = run_all(prop, exes, tier, work, 780 if tier == 'quick' else 6 * 3600)
        viol, infra = [], []
        agg = dict(states=0, transitions=0, calls=0); samples = []; notes = {}; known = {}
        for (v, i, n), r, code, err in res:
            if r is None:
                infra.append(f'version {v} shard {i}/{n}: exit {code} {err[-800:]}'); continue
            for k in agg: agg[k] += r[k]
            for k, x in r['notes'].items(): notes[k] = notes.get(k, 0) + x
            for s in r['samples'][:3]:
                if len(samples) < 14: samples.append(f'u{v} {s}')
            for k, (c, ex) in r['known'].items():
                known.setdefault(k, [0, ex, v]); known[k][0] += c
            if r['status'] == 'violation': viol.append((v, i, r))
        klist = known_list(prop)
        lines = []
        nviol = 0
        # known findings: listed ones are reported, unlisted ones are violations
        for k, (c, ex, v) in sorted(known.items()):
            if k in klist: lines.append(f'KNOWN-FINDING: property={prop} {klist[k]} ({c} explored inputs; e.g. {ex})')
            else:
                m = re.search(r'\[(kind=.*)\]$', ex)
                kind, args, units = parse_case(m.group(1)) if m else ('?', '', '')
                path = write_replay(prop, kind, args, units, v, tier, f'{k}: {ex}')
                lines.append(f'{k}: {ex}'); lines.append(f'VIOLATION property={prop} replay={path}'); nviol += 1
        if viol:
            viol.sort(key=lambda x: (len(x[2]['case']), x[0], x[1]))
            v, i, r = viol[0]
            kind, args, units = parse_case(r['case'])
            again, msg2 = replay_once(prop, exes[v], v, kind, args, units, work, tier)
            path = write_replay(prop, kind, args, units, v, tier, r['message'])
            lines.append(f'{prop} (Unicode {v}): {r["message"]}')
            lines.append(f'  case: {r["case"][:400]}')
            lines.append(f'  replayed alone: {"reproduced" if again else "not reproduced on its own: depends on earlier calls or timing"}')
            lines.append(f'VIOLATION property={prop} replay={path}')
            nviol += len(viol)
        ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'model_checking'),
                  coverage=dict(states=agg['states'], transitions=agg['transitions'], traces_validated_against_impl=agg['calls'],
                                samples=samples, exhaustive=not viol and not infra, unicode_versions=sorted({v % 100 for v in exes}), build_s=round(tb, 1),
                                rule=P['rule'], **notes),
                  assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
        json.dump(ev, open(f'{EVID}/{prop}.json', 'w'), indent=1)
        if nviol: rc = 1
        elif infra:
            sys.stderr.write('\n'.join(infra) + '\n'); rc = 2
        else: rc = 0
        for l in lines: print(l)
        print(f'{prop} {tier}: {agg["states"]} states, {agg["transitions"]} transitions, {agg["calls"]} comparisons, '
              f'{len(exes)} build(s), {time.time()-t0:.1f}s -> ' + ('held' if rc == 0 else 'VIOLATED' if rc == 1 else 'no verdict'))
    except NoVerdict as e:
        print(f'{prop}: no verdict: {e}')
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc

if __name__ == '__main__':
    sys.exit(main())
