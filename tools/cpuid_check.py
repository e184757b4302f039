"""Monitor of the CPU feature detection: the real code runs on modelled processors (the cpuid and xgetbv instructions of the compiled
code are replaced by stand-ins, so it does not matter how the source is written) and on the processor at hand."""
import os, re, random, subprocess
import concurrent.futures as cf
BITS = {'msr': ('d', 5), 'cx8': ('d', 8), 'sep': ('d', 11), 'cmov': ('d', 15), 'clfsh': ('d', 19), 'xsave': ('c', 27), 'f16c': ('c', 29), 'cmpxchg16b': ('c', 13), 'sse': ('d', 25), 'sse2': ('d', 26), 'sse3': ('c', 0), 'ssse3': ('c', 9),
        'sse4_1': ('c', 19), 'sse4_2': ('c', 20), 'avx': ('c', 28), 'avx2': ('b', 5), 'fma': ('c', 12), 'avx512f': ('b', 16), 'avx512cd': ('b', 28), 'avx512bw': ('b', 30), 'avx512dq': ('b', 17), 'avx512vl': ('b', 31)}
SSE = {'sse': 'sse', 'sse2': 'sse2', 'sse3': 'pni', 'ssse3': 'ssse3', 'sse4_1': 'sse4_1', 'sse4_2': 'sse4_2'}
AVX = ['avx', 'avx2', 'fma', 'f16c']
def expected(m):
    r = {'intel': m['vendor'] == 0, 'amd': m['vendor'] == 1}
    reg = {'c': m['l1c'] if m['max'] >= 1 else 0, 'd': m['l1d'] if m['max'] >= 1 else 0, 'b': m['l7b'] if m['max'] >= 7 else 0}
    osx = reg['c'] >> 27 & 1
    for f, (w, b) in BITS.items():
        on = bool(reg[w] >> b & 1)
        if f in SSE: on = on and bool(m['xcr0'] & 2 if osx else SSE[f] in m['info'])
        elif f in AVX: on = on and bool(osx) and m['xcr0'] & 6 == 6
        elif f.startswith('avx512'): on = on and bool(osx) and m['xcr0'] & 0xe6 == 0xe6
        r[f] = on
    return r
REAL = [  # leaf 1 ecx, edx, leaf 7 ebx: Pentium M, Core 2, Nehalem, Sandy Bridge, Haswell, Skylake-X, Zen 2, Sapphire Rapids
    (0x00000180, 0xafe9f9bf, 0), (0x0000e3bd, 0xbfebfbff, 0), (0x00bce3bd, 0xbfebfbff, 0), (0x1fbae3ff, 0xbfebfbff, 0), (0x7ffafbff, 0xbfebfbff, 0x27ab), (0x7ffefbff, 0xbfebfbff, 0xd39ffffb), (0x7ed8320b, 0x178bfbff, 0x219c91a9), (0x7ffefbff, 0xbfebfbff, 0xf3bfb7ef)]
def models(seed, n):
    r = random.Random(seed)
    for i in range(n):
        c, d, b = r.choice(REAL) if r.random() < 0.5 else (r.getrandbits(32), r.getrandbits(32), r.getrandbits(32))
        if r.random() < 0.5:
            w, k = r.choice(list(BITS.values()))
            if w == 'c': c ^= 1 << k
            elif w == 'd': d ^= 1 << k
            else: b ^= 1 << k
        if r.random() < 0.3: c &= ~(1 << 27)
        elif r.random() < 0.7: c |= 1 << 27
        info = [x for x in ['fpu', 'vme', 'msr', 'cx8', 'sep', 'cmov', 'fxsr', 'sse', 'sse2', 'ht', 'lm', 'pni', 'ssse3', 'cx16', 'sse4_1', 'sse4_2', 'popcnt', 'avx'] if r.random() < 0.8]
        # a name found within another one is no ground for a verdict: the plain "sse" is listed whenever a longer name contains it
        if any(x in info for x in ('sse2', 'ssse3', 'sse4_1', 'sse4_2')) and 'sse' not in info: info.append('sse')
        yield dict(max=r.choice([0, 1, 2, 4, 6, 7, 7, 7, 13, 22, 31]), vendor=r.choice([0, 0, 1, 1, 2, 3, 4]), l1c=c & 0xffffffff, l1d=d, l7b=b, l7max=r.choice([0, 0, 1, 2]),
                   xcr0=r.choice([0, 1, 2, 3, 6, 7, 7, 0xe7, 0xe7, 0xe6, 0x67, 0xa7, 0x87, 0xe5, 0x2e7, 0x207, r.getrandbits(8)]), garbage=r.getrandbits(32), info=info)
def run(bdir, tier, seed, repo, incs, defs, here):
    d = os.path.join(bdir, 'cpuid'); os.makedirs(d, exist_ok=True)
    cells, viol = [], []
    h = f'{here}/harness/cpuid'
    def sh(c):
        p = subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace')
        if p.returncode: raise RuntimeError(f'{c}: {p.stderr[-1500:]}')
        return p.stdout
    exes = []
    cfgs = [('g++', '-O0'), ('g++', '-O2'), ('clang++', '-O1')] + ([('g++', '-O1'), ('g++', '-O3'), ('clang++', '-O0'), ('clang++', '-O3')] if tier == 'thorough' else [])
    for cxx, o in cfgs:
        n = f'{d}/{cxx[0]}{o}'
        f = f'{cxx} {incs} {defs} -std=gnu++20 -w -mno-red-zone -fno-pic'
        try: sh(f'{f} {o} -S {repo}/dpm/detail/x86/cpuid.cpp -o {n}.s')
        except RuntimeError as e:
            if ' error: ' in str(e): viol.append(dict(op='build', type='-', isa='-', abi=cxx, cls='build', detail=str(e)[-600:], unit=n)); continue
            raise
        s = open(n + '.s').read()
        s, k1 = re.subn(r'\bcpuid\b(?=[\s;#\\]|$)', 'call vh_cpuid', s)
        s, k2 = re.subn(r'xgetbv\b(?!_)|\.byte\s+(0x0f|15)(\s*,|\s*\n\s*\.byte)\s*(0x0?1|1)(\s*,|\s*\n\s*\.byte)\s*(0xd0|208|-48)\b', 'call vh_xgetbv', s, flags=re.I)
        if not k1 or not k2: continue  # the instructions cannot be told apart here: judged on the processor at hand only
        open(n + '.s', 'w').write(s)
        sh(f'{cxx} -c {n}.s -o {n}.o && gcc -O1 -mgeneral-regs-only -w -fno-pic -c {h}/hook.c -o {n}h.o && {f} {o} -c {h}/main.cpp -o {n}m.o && g++ -no-pie {n}.o {n}h.o {n}m.o -o {n}')
        exes.append((n, f'{cxx}{o}', k1, k2))
    ms = list(models(seed, 20000 if tier == "thorough" else 1500))
    def one(a):
        (exe, tag, _, _), m = a
        env = dict(os.environ, VH_MODEL=f"{m['max']},{m['vendor']},{m['l1c']:x},{m['l1d']:x},{m['l7b']:x},{m['l7max']},{m['xcr0']:x},{m['garbage']:x}",
                   VH_CPUINFO='processor\t: 0\nvendor_id\t: X\nmodel name\t: test\nflags\t\t: ' + ' '.join(m['info']) + '\nbogomips\t: 1\n')
        p = subprocess.run([exe], env=env, capture_output=True, text=True, timeout=60)
        return tag, m, p.returncode, p.stdout
    seen, n, queries = set(), 0, {}
    with cf.ThreadPoolExecutor(8) as pool:
        for tag, m, rc, out in pool.map(one, [(e, m) for e in exes for m in ms]):
            want, got = expected(m), {}
            bad = lambda cls, det: viol.append(dict(op='cpuid', type='model', isa='-', abi=tag, cls=cls, detail=det + ' model ' + str({k: (hex(v) if isinstance(v, int) else v) for k, v in m.items()}), unit='cpuid'))
            for l in out.splitlines():
                w = l.split()
                if w[0] == 'F': got[w[1]] = w[2] != '0'
                elif w[0] == 'Q': queries[l] = queries.get(l, 0) + 1
                elif w[0] == 'UD': bad('xgetbv', 'xgetbv executed on a processor without it')
            if rc: bad('crash', f'exit status {rc}')
            for f in want:
                n += 1
                if got.get(f) != want[f] and not rc: bad(f, f'has {f}: got {got.get(f)} want {want[f]}')
            seen.add((m['max'], m['vendor'], m['xcr0'], m['l1c'] >> 27 & 1) + tuple(want[f] for f in sorted(want)))
    cells.append(dict(op='cpuid', type='model', abi='modelled processors', isa='-', calls=len(ms) * len(exes), lanes=n, classes=len(seen), viol=len(viol), digest=f'{len(queries)} different queries'))
    k = 0
    for cxx in ('g++', 'clang++'):
        sh(f'{cxx} {incs} {defs} -std=gnu++20 -w -O2 {h}/real.cpp {repo}/dpm/detail/x86/cpuid.cpp -o {d}/real')
        for l in sh(f'{d}/real').splitlines():
            w = l.split(); k += 1
            if w[2] != w[3]: viol.append(dict(op='cpuid', type='real', isa='-', abi=cxx, cls=w[1], detail=f'has {w[1]}: got {w[2]}, the compiler\'s detection says {w[3]}', unit='cpuid'))
    cells.append(dict(op='cpuid', type='real', abi='this processor', isa='-', calls=2, lanes=k, classes=k // 2, viol=0, digest=''))
    return cells, viol
