#!/usr/bin/env python3
"""Runner of the checks: builds the units of a property from /repo's working tree, runs them, judges their event logs.

usage: vt.py check <property> [--tier quick|thorough] | vt.py list | vt.py setup | vt.py replay <file>
"""
import sys, os, json, subprocess, time, shutil, re, signal, hashlib
import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VH_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
JOBS = int(os.environ.get('VH_JOBS', '8'))
sys.path.insert(0, os.path.join(HERE, 'tools'))

# name -> (compiler flags, cpu features it needs)
ISAS = {
    'sse2': ('-msse2', ['sse2']),
    'sse3': ('-msse3', ['pni']),
    'ssse3': ('-mssse3', ['ssse3']),
    'sse41': ('-msse4.1', ['sse4_1']),
    'sse42': ('-msse4.2', ['sse4_2']),
    'avx': ('-mavx', ['avx']),
    'avx2': ('-mavx2', ['avx2']),
    'fma': ('-mavx2 -mfma', ['avx2', 'fma']),
    'avx512': ('-mavx512f -mfma', ['avx512f', 'fma']),
    'avx512v': ('-mavx512f -mavx512cd -mavx512bw -mavx512dq -mavx512vl -mfma', ['avx512f', 'avx512cd', 'avx512bw', 'avx512dq', 'avx512vl', 'fma']),
    'nosimd': (f'-include {HERE}/harness/nosimd.hpp', []),
}
DEFS = '-DDPM_INLINE_EXTENSIONS -DDPM_HANDLE_ERRORS -DDPM_PROPAGATE_NAN'
COMMON = '-std=gnu++20 -w -ffp-contract=off -g0'

def cpu_flags():
    try:
        for l in open('/proc/cpuinfo'):
            if l.startswith('flags'): return set(l.split(':')[1].split())
    except OSError: pass
    return set()
CPU = cpu_flags()
def isa_ok(isa): return all(f in CPU for f in ISAS[isa][1])

class Unit:
    """One executable. src: file under harness/; defs: -D flags; args: arguments of the run; lib: True links the dpm library
    sources built for the same ISA; flags: extra compiler flags; cxx: compiler; timeout: seconds of one run."""
    def __init__(self, name, src, isa, defs='', args='', lib=False, flags='', opt='-O1', cxx='g++', timeout=300, dpmdefs=None, libflags='', env=None, ldflags='', libcxx=None, wrap='', cost=1, libopt='-O2'):
        self.__dict__.update(locals()); del self.__dict__['self']
    @property
    def id(self): return f'{self.name}@{self.isa}'

def sh(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, start_new_session=True, cwd=cwd)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return 'timeout', o, e

def incs(bdir):
    """The export header is generated by the build of /repo (and ignored by git): take ours when it is absent."""
    return f'-I{REPO}' + ('' if os.path.exists(f'{REPO}/dpm/detail/export.gen.hpp') else f' -I{HERE}/harness/fallback') + f' -I{HERE}/harness'

def lib_key(u): return hashlib.sha1(f'{u.isa}|{u.libflags}|{u.libcxx or "g++"}|{u.dpmdefs}|{u.libopt}'.encode()).hexdigest()[:10]

def build_lib(bdir, u, pool):
    d = os.path.join(bdir, 'lib-' + lib_key(u)); os.makedirs(d, exist_ok=True)
    srcs = []
    for root, _, files in os.walk(f'{REPO}/dpm'):
        srcs += [os.path.join(root, f) for f in files if f.endswith('.cpp')]
    def one(s):
        o = os.path.join(d, os.path.basename(s)[:-4] + '.o')
        rc, out, err = sh(f'{u.libcxx or "g++"} {incs(bdir)} {u.dpmdefs or DEFS} -Ddpm_EXPORTS -std=gnu++20 -w {u.libopt} -DNDEBUG {ISAS[u.isa][0]} {u.libflags} -c {s} -o {o}')
        return o, rc, err
    return [pool.submit(one, s) for s in sorted(srcs)], d

def build_units(bdir, units):
    """Compiles and links everything; returns {unit id: (exe, error)}."""
    os.makedirs(bdir, exist_ok=True)
    res = {}
    with cf.ThreadPoolExecutor(JOBS) as pool:
        libs = {}
        for u in units:
            if u.lib and lib_key(u) not in libs: libs[lib_key(u)] = build_lib(bdir, u, pool)
        def comp(u):
            o = os.path.join(bdir, re.sub(r'\W', '_', u.id))
            cmd = f'{u.cxx} {incs(bdir)} {u.dpmdefs or DEFS} {COMMON} {u.opt} {ISAS[u.isa][0]} {u.flags} -DVH_ISA=\\"{u.isa}\\" {u.defs} -c {HERE}/harness/{u.src} -o {o}.o'
            rc, out, err = sh(cmd, timeout=850)
            if rc and ' error: ' not in err: rc, out, err = sh(cmd, timeout=850)  # not a diagnosis of the program: the compiler itself was ended
            return o, rc, err
        futs = {u.id: pool.submit(comp, u) for u in sorted(units, key=lambda u: -u.cost)}
        libobjs = {}
        for k, (fs, d) in libs.items():
            objs, bad = [], None
            for f in fs:
                o, rc, err = f.result()
                objs.append(o)
                if rc: bad = f'{o}: {err[-1500:]}'
            libobjs[k] = (objs, bad)
        def link(u):
            o, rc, err = futs[u.id].result()
            if rc: return u.id, None, f'compile: {err[-3000:]}'
            objs = ''
            if u.lib:
                ol, bad = libobjs[lib_key(u)]
                if bad: return u.id, None, bad
                objs = ' '.join(ol)
            rc, out, err = sh(f'{u.cxx} {u.flags} {o}.o {objs} -o {o} {u.ldflags} -lm')
            try: os.remove(o + '.o')
            except OSError: pass
            return u.id, (None if rc else o), (f'link: {err[-3000:]}' if rc else None)
        for i, exe, err in pool.map(link, units): res[i] = (exe, err)
    return res

def run_unit(u, exe, seed):
    env = dict(os.environ); env.update(u.env or {})
    cmd = f'{u.wrap} {exe} --seed {seed} {u.args}'
    rc, out, err = sh(cmd, timeout=u.timeout, env=env)
    cells, viol, last, end, extra = [], [], None, False, []
    for l in out.splitlines():
        if not l.startswith('{'): continue
        try: d = json.loads(l)
        except ValueError: continue
        t = d.get('t')
        if t == 'v': viol.append(d)
        elif t == 's': cells.append(d)
        elif t == 'in': last = d
        elif t == 'x': extra.append(d)
        elif t == 'end': end = True
    if rc == 'timeout': viol.append(dict(last or {}, t='v', isa=u.isa, cls='hang', detail=f'no answer within {u.timeout} s'))
    elif rc != 0 or not end:
        viol.append(dict(last or {}, t='v', isa=u.isa, cls='crash', detail=f'exit status {rc}: ' + err.strip()[-1200:]))
    return cells, viol, extra, cmd, err

def known_findings():
    p = os.path.join(HERE, 'known-findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []
def matches(f, prop, v):
    if f['property'] != prop: return False
    for k, pat in f['match'].items():
        if not re.fullmatch(pat, str(v.get(k, ''))): return False
    return True

def check(prop, tier):
    import plan
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    bdir = os.path.join(BUILD, prop)
    shutil.rmtree(bdir, ignore_errors=True)
    units = [u for u in plan.units(prop, tier, Unit)]
    skipped = sorted({u.isa for u in units if not isa_ok(u.isa)})
    units = [u for u in units if isa_ok(u.isa)]
    assert len({u.id for u in units}) == len(units), 'duplicate unit'
    built = build_units(bdir, units)
    errors = [(i, e) for i, (x, e) in built.items() if e]
    t1 = time.time()
    cells, viol, extra, cmds, errs = [], [], [], {}, {}
    with cf.ThreadPoolExecutor(JOBS) as pool:
        todo = [u for u in units if built[u.id][0]]
        for u, r in zip(todo, pool.map(lambda u: run_unit(u, built[u.id][0], seed), todo)):
            c, v, x, cmd, err = r
            for d in c: d['unit'] = u.id
            for d in v: d['unit'] = u.id
            cells += c; viol += v; extra += [dict(e, unit=u.id) for e in x]; cmds[u.id] = cmd
    for f in plan.CUSTOM.get(prop, []):
        try: c, v = f(bdir, tier, seed, REPO, incs(bdir), DEFS, HERE)
        except RuntimeError as e: errors.append((f'{f.__module__}@-', str(e))); continue
        cells += c; viol += v
    for post in plan.offline(prop): viol += post(cells, extra)
    for i, e in errors:
        # the units use the documented interface only and compile on the pinned tree: a diagnosed error takes an operation away from its users
        m = re.search(r'^.* error: .*$', e, re.M)
        if m: viol.append(dict(t='v', unit=i, op='build', isa=i.split('@')[1], type=i, abi='-', cls='build', detail=m.group(0)[:600]))
    errors = [(i, e) for i, e in errors if ' error: ' not in e]
    wall = time.time() - t0
    kf = known_findings()
    hit, new = {}, []
    for v in viol:
        m = [f for f in kf if matches(f, prop, v)]
        if m: hit.setdefault(m[0]['id'], (m[0], []))[1].append(v)
        else: new.append(v)
    for fid, (f, vs) in sorted(hit.items()): print(f'KNOWN-FINDING: property={prop} {fid}: {f["what"]} ({len(vs)} reports in this run)')
    nviol = len(new)
    if new:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        keys = {}
        for v in new: keys.setdefault((v.get('op'), v.get('type'), v.get('isa'), v.get('cls')), []).append(v)
        rp = os.path.join(HERE, 'replays', f'{prop}.json')
        json.dump(dict(property=prop, tier=tier, seed=seed, commands={v['unit']: cmds.get(v['unit']) for v in new if v.get('unit')}, violations=new[:400]), open(rp, 'w'), indent=1)
        for k, vs in list(keys.items())[:40]:
            print('  %s: %s' % (' '.join(str(x) for x in k), '; '.join(f"{v.get('abi')}: {v.get('detail')}" for v in vs[:2]))[:700])
        print(f'VIOLATION property={prop} replay={rp}')
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=nviol,
              assumptions=plan.ASSUME + plan.XASSUME.get(prop, []), coverage=plan.coverage(prop, cells, extra, units, built, skipped))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1)
    print(f'{prop} {tier}: {len(units)} units ({t1 - t0:.0f} s build), {ev["coverage"]["evaluations"]} evaluations, {nviol} violations, {wall:.0f} s')
    if not os.environ.get('VH_KEEP'): shutil.rmtree(bdir, ignore_errors=True)
    if nviol: return 1
    if errors:
        for i, e in errors[:6]: print(f'ERROR: unit {i}: {e[:1500]}', file=sys.stderr)
        return 2
    if not cells and not extra:
        print('ERROR: nothing was observed', file=sys.stderr); return 2
    return 0

def main():
    a = sys.argv[1:]
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a: tier = a[a.index('--tier') + 1]
        sys.exit(check(a[1], tier))
    elif a[0] == 'setup':
        for t in ('g++', 'clang++', 'python3'):
            if not shutil.which(t): sys.exit(f'{t} is missing')
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        print('nothing to prepare: every check builds its units from /repo itself')
    elif a[0] == 'replay':
        d = json.load(open(a[1]))
        for v in d['violations'][:20]: print(json.dumps(v))
        os.environ['VERIF_SEED'] = str(d['seed'])
        sys.exit(check(d['property'], d['tier']))
    elif a[0] == 'list':
        import plan
        for p in plan.PROPS: print(p, len(list(plan.units(p, 'quick', Unit))), len(list(plan.units(p, 'thorough', Unit))))
if __name__ == '__main__': main()
