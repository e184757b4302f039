"""Which units decide which property, per tier."""
import os
INTS = ['std::int8_t', 'std::uint8_t', 'std::int16_t', 'std::uint16_t', 'std::int32_t', 'std::uint32_t', 'std::int64_t', 'std::uint64_t']
FPS = ['float', 'double']
SHORT = {'std::int8_t': 'i8', 'std::uint8_t': 'u8', 'std::int16_t': 'i16', 'std::uint16_t': 'u16', 'std::int32_t': 'i32', 'std::uint32_t': 'u32', 'std::int64_t': 'i64', 'std::uint64_t': 'u64',
         'long double': 'ld', 'long long': 'll', 'unsigned long long': 'ull', 'char': 'char'}
SIZE = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64}
ONLY = os.environ.get('VH_ONLY_ISAS')  # development aid: the quick workload on other instruction sets
def Q(isas): return ONLY.split(',') if ONLY else isas
def sn(t): return SHORT.get(t, t)
MAIN = ['sse2', 'sse42', 'avx', 'fma', 'avx512v']
ALL = ['sse2', 'sse3', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2', 'fma', 'avx512', 'avx512v', 'nosimd']
if ONLY: MAIN = ALL = ONLY.split(',')
XASSUME = {'P20': ['the sanitizers report no false alarms on this code (none seen)', 'reads of indeterminate values are not judged: unused register parts are legitimately uninitialised; P05, P09 and P19 vary them instead'],
 'P21': ['interleavings are those the scheduler produced on 8 cores after a start barrier; the overlap is counted in the coverage'],
 'P22': ['a modelled processor answers cpuid consistently and leaves above the highest one with arbitrary data'],
 'P23': ['g++ only: clang 18 cannot evaluate vector casts in constant expressions'],
 'P25': ['an architecture without supported vector instructions is modelled by withdrawing the predefined x86 macros after the standard headers were included'],
 'P12': ['built with -frounding-math, g++ only (clang 18 evaluates the scalar reference itself wrongly under other rounding modes)'],
 'P14': ['reference: glibc in long double / quad-checked tolerances stated in harness/ops_acc.hpp'], 'P15': ['reference: glibc in long double']}
ASSUME = ['g++ 13 with the flags of the official build (instruction set varied), IEEE-754 binary32/64, glibc libm as scalar reference',
          'signalling NaNs are not generated (the documentation allows them to lose their value); NaN payloads are not compared',
          'instruction sets which this CPU lacks are skipped and named under skipped_isas']
PLANS, OFFLINE, CUSTOM = {}, {}, {}
def plan(p):
    def d(f): PLANS[p] = f; return f
    return d
def iters(tier, q, t): return f'--iters {t if tier == "thorough" else q}'
def lane(U, name, T, isa, L, args, **kw):
    return U(f'{name}_{sn(T)}', 'unit_lane.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_L={L}"', args=args, **kw)

AVXISA = ('avx', 'avx2', 'fma', 'avx512', 'avx512v')
def count_sweep(U, group, isa, types, tier, other=None):
    """Every element count: unit_sweep over fixed-size vectors and, with 256-bit registers, 32-byte aligned ones."""
    for T in types:
        n = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'float': 4}.get(sn(T), 8)
        al = '0,32' if isa in AVXISA else '0'
        hi = min(64, 64 // n + 1) if isa in AVXISA or tier == 'thorough' or n > 1 else 33
        parts = [(1, hi)] if n > 1 else [(1, 32), (33, hi)] if hi > 33 else [(1, hi)]
        for u in (other or {}).get(T, '').split(','):
            for lo, h in parts:
                yield U(f'n{group}{lo}_{sn(T)}' + (f'_{sn(u)}' if u else ''), 'unit_sweep.cpp', isa, defs=f'"-DVH_T={T}" -DVH_G={group} -DVH_AL={al} -DVH_LO={lo} -DVH_HI={h}' + (f' "-DVH_U={u}"' if u else ''), args=iters(tier, 200, 20000), opt='-O1', cost=20 if n == 1 else 8)
def every_lane(U, name, T, isa, ops, args, tier, **kw):
    """Every element count for lane-wise operations."""
    n = 4 if T == 'float' else 8
    a = '32' if isa in AVXISA else '0'
    return U(f'{name}_{sn(T)}', 'unit_lane.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_L=list<{ops}>" "-DVH_ABIS=every<{a},2,{64 // n + 1}>"', args=args, **dict(dict(opt='-O1', lib=True, cost=6), **kw))
SWU = {'std::uint8_t': 'std::int32_t', 'std::int8_t': 'float', 'std::int16_t': 'float', 'std::uint16_t': 'std::uint8_t', 'std::int32_t': 'double', 'std::uint32_t': 'std::uint16_t', 'std::int64_t': 'double', 'std::uint64_t': 'std::uint32_t', 'float': 'std::int32_t', 'double': 'std::int64_t'}
SW8 = ['std::uint8_t', 'std::int16_t', 'std::int32_t', 'std::int64_t', 'float', 'double']

@plan('P01')
def p01(tier, U):
    isas = ALL if tier == 'thorough' else Q(['sse2', 'ssse3', 'sse42', 'avx', 'fma'])
    for isa in isas:
        for T in INTS:
            a = iters(tier, 400, 20000) + ' --sweep ' + ('1048576' if tier == 'thorough' else '4096')
            yield lane(U, 'a1', T, isa, 'arith::iarith', a)
            yield lane(U, 'a2', T, isa, 'arith::integral', a)
            n = SIZE[sn(T)]; s = T.startswith('std::i')
            L = [f'arith::{k}shifts{w}' for w in (8, 16, 32, 64) if w <= n for k in ('la' if s else 'l')]
            yield lane(U, 'sh', T, isa, ','.join(L), a)

def sweep(tier, q=8192, t=2097152): return f' --sweep {t if tier == "thorough" else q}'
@plan('P02')
def p02(tier, U):
    for isa in ALL if tier == 'thorough' else MAIN:
        for T in FPS:
            a = iters(tier, 1500, 60000) + sweep(tier)
            yield lane(U, 'ar', T, isa, 'arith::fparith', a)
            yield lane(U, 'sq', T, isa, 'mbase::exact', a)
            if tier == 'thorough' or isa in ('sse2', 'fma'): yield every_lane(U, 'n', T, isa, 'mbase::sqrt,mbase::fma,mbase::rcp', iters(tier, 500, 50000), tier, lib=False)
    yield lane(U, 'ar', 'long double', 'sse2', 'arith::fparith', iters(tier, 1500, 60000))

@plan('P03')
def p03(tier, U):
    for isa in ALL if tier == 'thorough' else Q(MAIN + ['ssse3', 'sse41']):
        for T in INTS + FPS:
            yield lane(U, 'cmp', T, isa, 'cmp::common', iters(tier, 4000, 300000))
    yield lane(U, 'cmp', 'long double', 'sse2', 'cmp::common', iters(tier, 4000, 60000))

@plan('P04')
def p04(tier, U):
    for isa in ALL if tier == 'thorough' else Q(MAIN + ['avx512']):
        for T in FPS: yield lane(U, 'cls', T, isa, 'cmp::fp', iters(tier, 4000, 200000) + sweep(tier))

def typed(U, name, src, T, isa, args, **kw): return U(f'{name}_{sn(T)}', src, isa, defs=f'"-DVH_T={T}" ' + kw.pop('more', ''), args=args, **kw)
@plan('P05')
def p05(tier, U):
    for isa in ALL if tier == 'thorough' else Q(MAIN + ['ssse3']):
        for T in ['std::int8_t', 'std::uint16_t', 'std::int32_t', 'std::uint64_t'] + FPS + (['std::uint8_t', 'std::int16_t', 'std::uint32_t', 'std::int64_t'] if tier == 'thorough' else []):
            yield typed(U, 'mask', 'unit_mask.cpp', T, isa, iters(tier, 3000, 300000))
    for isa in ALL if tier == 'thorough' else Q(['sse2', 'sse42', 'avx', 'fma']):
        yield from count_sweep(U, 'Mask', isa, INTS + FPS if tier == 'thorough' else SW8 if isa != 'avx' else ['std::uint8_t', 'float', 'double'], tier)

MEMU = {'std::int8_t': 'std::int8_t,std::uint8_t,bool,std::int32_t,float', 'std::uint8_t': 'std::uint8_t,std::int8_t,bool,char,double', 'std::int16_t': 'std::int16_t,std::uint16_t,std::int64_t,float',
        'std::uint16_t': 'std::uint16_t,std::int16_t,std::uint8_t,bool', 'std::int32_t': 'std::int32_t,std::uint32_t,float,double,std::int8_t', 'std::uint32_t': 'std::uint32_t,std::int32_t,float,std::uint64_t',
        'std::int64_t': 'std::int64_t,std::uint64_t,double,float,long long', 'std::uint64_t': 'std::uint64_t,std::int64_t,double,std::uint16_t',
        'float': 'float,std::int32_t,std::uint32_t,double,std::int8_t,bool', 'double': 'double,std::int64_t,std::uint64_t,float,std::int32_t,bool'}
ASAN = '-fsanitize=address,undefined -fno-sanitize-recover=undefined'
ASANENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0', 'UBSAN_OPTIONS': 'print_stacktrace=0'}
@plan('P06')
def p06(tier, U):
    th = tier == 'thorough'
    def mem(n, T, isa, it, **kw): return U(f'{n}_{sn(T)}', 'unit_mem.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_U={MEMU[T]}"', args=it, cost=10, **kw)
    for isa in ALL if th else Q(['sse2', 'sse42', 'fma']):
        for T in (INTS + FPS) if th or isa != 'sse42' else ['std::int32_t', 'std::int64_t', 'float', 'std::uint8_t', 'double']:
            yield mem('mem', T, isa, iters(tier, 200, 10000))
    for isa in ['sse2', 'sse42', 'fma'] if th else Q(['fma']):
        for T in (INTS + FPS) if th else ['float']:
            yield mem('asan', T, isa, iters(tier, 40, 1000), flags='-fsanitize=address', env=ASANENV)
    for isa in ALL if th else Q(['sse2', 'fma']):
        yield from count_sweep(U, 'Mem', isa, INTS + FPS if th else SW8, tier, SWU)

@plan('P07')
def p07(tier, U):
    for isa in ALL if tier == 'thorough' else Q(MAIN + ['ssse3']):
        for T in (INTS + FPS) if tier == 'thorough' else ['std::int8_t', 'std::uint16_t', 'std::int32_t', 'std::uint64_t'] + FPS:
            yield typed(U, 'blend', 'unit_blend.cpp', T, isa, iters(tier, 3000, 300000))
    for isa in ALL if tier == 'thorough' else Q(['sse2', 'avx', 'fma']):
        yield from count_sweep(U, 'Elem', isa, INTS + FPS if tier == 'thorough' else SW8 if isa != 'avx' else ['std::uint8_t', 'float', 'double'], tier)

@plan('P08')
def p08(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else Q(['sse2', 'ssse3', 'sse42', 'avx', 'fma']):
        for T in (INTS + FPS) if th else ['std::int8_t', 'std::uint16_t', 'std::int32_t', 'std::uint64_t'] + FPS:
            for seed in range(1, 9 if th else 2):
                yield typed(U, f'shuf{seed}', 'unit_shuf.cpp', T, isa, iters(tier, 200, 2000), more=f'-DVH_SEED={seed} -DVH_K={6 if th else 2}')
    for isa in ALL if th else Q(['ssse3', 'fma']):
        yield from count_sweep(U, 'Shuf', isa, INTS + FPS if th else SW8, tier)
    for isa in ['ssse3', 'sse42', 'avx', 'fma'] if th else Q(['sse42', 'fma']):
        for T in (INTS + FPS) if th else ['std::int8_t', 'std::int16_t', 'float', 'std::int64_t']:
            yield typed(U, 'asan', 'unit_shuf.cpp', T, isa, iters(tier, 10, 50), more='-DVH_SEED=7 -DVH_K=1', flags='-fsanitize=address', env=ASANENV)

@plan('P09')
def p09(tier, U):
    for isa in ALL if tier == 'thorough' else Q(MAIN + ['ssse3']):
        for T in INTS + FPS:
            yield typed(U, 'red', 'unit_reduce.cpp', T, isa, iters(tier, 3000, 200000))
    for isa in ALL if tier == 'thorough' else Q(['sse2', 'ssse3', 'sse42', 'fma']):
        yield from count_sweep(U, 'Red', isa, INTS + FPS if tier == 'thorough' else SW8 if isa in ('sse2', 'fma') else ['std::int8_t', 'std::uint16_t', 'std::uint32_t'], tier)

CASTU = {'std::int8_t': 'std::int8_t,std::uint8_t,std::int64_t,float,double', 'std::uint8_t': 'std::uint8_t,std::int8_t,std::uint16_t,std::int32_t,float', 'std::int16_t': 'std::int16_t,std::uint16_t,std::int8_t,std::int64_t,float',
         'std::uint16_t': 'std::uint16_t,std::int16_t,std::uint8_t,std::uint64_t,double', 'std::int32_t': 'std::int32_t,std::uint32_t,float,double,std::int8_t', 'std::uint32_t': 'std::uint32_t,std::int32_t,float,double,std::uint64_t',
         'std::int64_t': 'std::int64_t,std::uint64_t,double,float,std::int32_t', 'std::uint64_t': 'std::uint64_t,std::int64_t,double,float,std::uint16_t',
         'float': 'float,std::int32_t,std::uint32_t,std::int64_t,std::uint64_t,double,std::int8_t', 'double': 'double,std::int64_t,std::uint64_t,float,std::int32_t,std::uint32_t,std::uint16_t'}
@plan('P10')
def p10(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else Q(['sse2', 'sse42', 'fma']):
        for T in CASTU if th else ['std::int8_t', 'std::uint16_t', 'std::int32_t', 'std::uint32_t', 'std::int64_t', 'std::uint64_t', 'float', 'double']:
            if not th and isa == 'sse42' and sn(T) in ('i8', 'u16', 'i32'): continue
            us = CASTU[T].split(',')
            for k in range(0, len(us), 4 if th else 8): yield U(f'cast{k}_{sn(T)}', 'unit_cast.cpp', isa, defs=('' if th else '-DVH_FEW ') + f'"-DVH_T={T}" "-DVH_U={",".join(us[k:k + (4 if th else 8)])}"', args=iters(tier, 250, 20000), cost=10)
    for isa in ALL if th else Q(['sse2', 'fma']):
        yield from count_sweep(U, 'Cast', isa, INTS + FPS if th else SW8, tier, SWU)

@plan('P11')
def p11(tier, U):
    for isa in ALL if tier == 'thorough' else MAIN:
        for T in FPS:
            a = iters(tier, 6000, 300000)
            for n, L, sw in (('scal', 'scal', ''), ('parts', 'parts', sweep(tier, 32768, 8388608)), ('logbs', 'logbs', sweep(tier, 32768, 8388608)), ('sign', 'sign', '')):
                yield lane(U, n, T, isa, 'fmanip::' + L, a + sw, lib=True, opt='-O1')
    for isa in ALL if tier == 'thorough' else Q(['sse2', 'fma']):
        for T in FPS:
            yield every_lane(U, 'n1', T, isa, 'fmanip::ldexp,fmanip::scalbln', iters(tier, 500, 50000), tier)
            yield every_lane(U, 'n2', T, isa, 'fmanip::frexp_frac,fmanip::frexp_exp,fmanip::modf_int,fmanip::ilogb,fmanip::nextafter', iters(tier, 500, 50000), tier)

@plan('P12')
def p12(tier, U):
    for isa in ALL if tier == 'thorough' else Q(MAIN + ['ssse3']):
        for T in FPS:
            a = iters(tier, 4000, 200000) + sweep(tier, 65536, 8388608)
            yield lane(U, 'rnd', T, isa, 'rnd::fp', a, flags='-frounding-math -fno-fp-int-builtin-inexact')
            yield lane(U, 'conv', T, isa, 'rnd::conv', a, flags='-frounding-math -fno-fp-int-builtin-inexact')
            yield lane(U, 'iconv', T, isa, 'iconv::fp', a, flags='-frounding-math -fno-fp-int-builtin-inexact')
    for isa in ALL if tier == 'thorough' else Q(['sse2', 'fma']):
        for T in FPS: yield every_lane(U, 'n', T, isa, 'rnd::floor,rnd::rint,rnd::lround,rnd::llrint,iconv::iround16,iconv::irint32', iters(tier, 500, 50000), tier, flags='-frounding-math -fno-fp-int-builtin-inexact', lib=False)

@plan('P13')
def p13(tier, U):
    for isa in ALL if tier == 'thorough' else MAIN:
        a = iters(tier, 1500, 60000) + sweep(tier)
        for T in INTS: yield lane(U, 'mm', T, isa, ('mbase::absl,' if T.startswith('std::i') else '') + 'arith::mm', a)
        for T in FPS:
            yield lane(U, 'mm', T, isa, 'arith::mm,mbase::mmfp', a)
            yield lane(U, 'rem', T, isa, 'mbase::rem', a, opt='-O1')
            if tier == 'thorough' or isa in ('sse2', 'fma'): yield every_lane(U, 'n', T, isa, 'mbase::fmod,mbase::fmax,mbase::fdim,mbase::lerp', iters(tier, 500, 50000), tier, lib=False)
            yield lane(U, 'remq', T, isa, 'mbase::remq', a, opt='-O1')

@plan('P14')
def p14(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else MAIN:
        for T in FPS: yield lane(U, 'trig', T, isa, 'trig::all', iters(tier, 12000, 600000) + sweep(tier, 65536, 16777216), lib=True, timeout=900 if th else 300)
    for isa in (ALL if th else Q(['sse42', 'fma'])):
        for T in FPS: yield lane(U, 'trigc', T, isa, 'trig::all', iters(tier, 6000, 300000) + sweep(tier, 16384, 4194304), lib=True, cxx='clang++', libcxx='clang++')
    for isa in ALL if th else Q(['sse2', 'fma']):
        for T in FPS: yield every_lane(U, 'n', T, isa, 'trig::sin,trig::tan,trig::acos', iters(tier, 500, 50000), tier)
    yield lane(U, 'trig', 'long double', 'sse2', 'trig::all', iters(tier, 2000, 60000), lib=True)

@plan('P15')
def p15(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else MAIN:
        for T in FPS: yield lane(U, 'log', T, isa, 'logs::all', iters(tier, 12000, 600000) + sweep(tier, 65536, 16777216), lib=True, timeout=900 if th else 300)
    for isa in (ALL if th else Q(['sse2', 'fma'])):
        for T in FPS: yield lane(U, 'logc', T, isa, 'logs::all', iters(tier, 6000, 300000) + sweep(tier, 16384, 4194304), lib=True, cxx='clang++', libcxx='clang++')
    for isa in ALL if th else Q(['sse2', 'fma']):
        for T in FPS: yield every_lane(U, 'n', T, isa, 'logs::log,logs::log1p', iters(tier, 500, 50000), tier)
    yield lane(U, 'log', 'long double', 'sse2', 'logs::all', iters(tier, 2000, 60000), lib=True)

@plan('P16')
def p16(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else MAIN:
        for T in FPS:
            yield lane(U, 'hyp', T, isa, 'pows::hyp', iters(tier, 40000, 2000000), lib=True)
            if th or isa in ('sse2', 'fma'): yield lane(U, 'pow', T, isa, 'pows::p2', iters(tier, 4000, 200000), lib=True)
    for isa in ALL if th else Q(['sse2', 'fma']):
        for T in FPS: yield every_lane(U, 'n', T, isa, 'pows::hypot,pows::atan2', iters(tier, 2000, 50000), tier)
    for T in FPS: yield lane(U, 'hypc', T, 'fma', 'pows::hyp', iters(tier, 20000, 1000000), lib=True, cxx='clang++', libcxx='clang++')
    yield lane(U, 'hyp', 'long double', 'sse2', 'pows::hyp,pows::p2', iters(tier, 2000, 60000), lib=True)

PROMO2 = [('std::int32_t', 'float'), ('double', 'float'), ('long double', 'float'), ('std::int8_t', 'std::int32_t'), ('float', 'std::int32_t'), ('float', 'std::uint64_t'), ('double', 'long double')]
@plan('P17')
def p17(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else Q(['sse2', 'fma']):
        for T in FPS: yield lane(U, 'elem', T, isa, 'elem::all', iters(tier, 1500, 60000), lib=True)
    yield lane(U, 'elem', 'long double', 'sse2', 'elem::all', iters(tier, 1000, 20000), lib=True)
    for isa in ALL if th else Q(['sse2', 'fma']):
        for T in ['std::int8_t', 'std::int32_t', 'std::uint64_t'] + (['std::uint8_t', 'std::int16_t', 'std::int64_t'] if th else []):
            if not th and isa == 'fma' and T != 'std::int32_t': continue
            yield U(f'one_{sn(T)}', 'unit_promo.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_L=promo::one"', args=iters(tier, 300, 20000), lib=True, cost=5)
        for T, P in PROMO2:
            if not th and isa == 'fma' and (T, P) not in PROMO2[:2] + [('float', 'std::int32_t')]: continue
            yield U(f'two_{sn(T)}_{sn(P)}', 'unit_promo.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_P={P}" "-DVH_L=promo::two"', args=iters(tier, 300, 20000), lib=True, cost=5)

PROPAGATE, NOERR, NOINLINE = '-DDPM_INLINE_EXTENSIONS -DDPM_PROPAGATE_NAN', '-DDPM_INLINE_EXTENSIONS', '-DDPM_HANDLE_ERRORS -DDPM_PROPAGATE_NAN'
ERRL = [('trig', 'trig::all', 4000), ('log', 'logs::all', 6000), ('hyp', 'pows::hyp', 20000), ('man', 'fmanip::scal,fmanip::parts,fmanip::logbs', 2500)]
@plan('P18')
def p18(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else MAIN:
        for T in FPS:
            for n, L, it in ERRL:
                for e, d in ((0, NOERR), (1, PROPAGATE)):
                    if not th and isa in ('sse42', 'avx') and n == 'man' and e == 0: continue
                    yield U(f'{n}{e}_{sn(T)}', 'unit_err.cpp', isa, defs=f'-DVH_ERR={e} "-DVH_T={T}" "-DVH_L={L}"', args=iters(tier, it, it * 50) + sweep(tier, 16384, 4194304), lib=True, dpmdefs=d, cost=3 if n == 'man' else 1)
    # the extension namespace declared without inline
    for isa in ('sse2', 'fma'):
        yield lane(U, 'noinl', 'float' if isa == 'fma' else 'double', isa, 'trig::all,logs::all,arith::fparith,arith::mm,cmp::fp,fmanip::scal', iters(tier, 300, 50000), lib=True, dpmdefs=NOINLINE, cost=6)
        yield typed(U, 'noinlb', 'unit_blend.cpp', 'float' if isa == 'fma' else 'std::int16_t', isa, iters(tier, 500, 50000), dpmdefs=NOINLINE)
        yield typed(U, 'noinlm', 'unit_mask.cpp', 'std::int32_t' if isa == 'fma' else 'double', isa, iters(tier, 500, 50000), dpmdefs=NOINLINE)
        yield typed(U, 'noinls', 'unit_shuf.cpp', 'float' if isa == 'fma' else 'std::int32_t', isa, iters(tier, 50, 500), more='-DVH_SEED=3 -DVH_K=1', dpmdefs=NOINLINE)

UBSAN = '-fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vptr -fno-sanitize-recover=undefined,float-cast-overflow'
SANENV = {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1:strict_init_order=1', 'UBSAN_OPTIONS': 'print_stacktrace=0'}
@plan('P20')
def p20(tier, U):
    th = tier == 'thorough'
    def san(cxx): return dict(flags=UBSAN, libflags=UBSAN, env=SANENV, cxx=cxx, libcxx=cxx, libopt='-O1', cost=8, opt='-O0')
    FPL = [('t', 'trig::all', 300), ('l', 'logs::all', 300), ('p', 'pows::hyp,pows::p2', 300), ('m', 'fmanip::scal,fmanip::parts,fmanip::logbs', 100), ('a', 'arith::fparith,mbase::exact,arith::mm,mbase::mmfp,cmp::common,cmp::fp', 60), ('r', 'mbase::rem,mbase::remq', 60), ('n', 'rnd::fp,rnd::conv,iconv::fp', 60)]
    isas = ALL if th else Q(['sse42', 'fma'])
    for k, isa in enumerate(isas):
        for cxx in ('g++', 'clang++'):
            c = cxx[0]
            for T in FPS if th else [FPS[(k + (c == 'c')) % 2]]:
                for n, L, it in FPL:
                    if n == 'n':
                        if c == 'g': yield lane(U, f'{c}{n}', T, isa, L, iters(tier, it, it * 50), **dict(san(cxx), flags=UBSAN + ' -frounding-math -fno-fp-int-builtin-inexact'))
                        continue
                    yield lane(U, f'{c}{n}', T, isa, L, iters(tier, it, it * 50), lib=True, **san(cxx))
            for i, T in enumerate(INTS):
                if not th and i != [0, 3, 4, 7][k * 2 + (c == 'c')]: continue
                n = SIZE[sn(T)]; s = T.startswith('std::i')
                yield lane(U, f'{c}i', T, isa, 'arith::iarith,arith::integral,arith::mm,' + ','.join(f'arith::{x}shifts{n}' for x in ('la' if s else 'l')), iters(tier, 40, 2000), **san(cxx))
            for T in (INTS + FPS) if th else ([['float'], ['std::int64_t'], ['double'], ['std::uint8_t']][2 * k + (c == 'c')]):
                sk = san(cxx)
                yield typed(U, f'{c}mask', 'unit_mask.cpp', T, isa, iters(tier, 200, 5000), **sk)
                yield typed(U, f'{c}blend', 'unit_blend.cpp', T, isa, iters(tier, 200, 5000), **sk)
                yield typed(U, f'{c}red', 'unit_reduce.cpp', T, isa, iters(tier, 200, 5000), **sk)
                if th or T != 'float': yield typed(U, f'{c}shuf', 'unit_shuf.cpp', T, isa, iters(tier, 10, 50), more='-DVH_SEED=11 -DVH_K=1', **sk)
                yield U(f'{c}mem_{sn(T)}', 'unit_mem.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_U={",".join(MEMU[T].split(",")[:5 if th else 2])}"', args=iters(tier, 10, 200), **dict(sk, cost=20))
                if th or T in ('float', 'std::int64_t', 'double'): yield U(f'{c}cast_{sn(T)}', 'unit_cast.cpp', isa, defs=f'-DVH_FEW "-DVH_T={T}" "-DVH_U={",".join(CASTU[T].split(",")[1:5 if th else 3])}"', args=iters(tier, 30, 1000), **dict(sk, cost=20))
    yield U('gone_i32', 'unit_promo.cpp', 'fma', defs='"-DVH_T=std::int32_t" "-DVH_L=promo::one"', args=iters(tier, 30, 1000), lib=True, **san('g++'))
    yield U('gtwo_i32', 'unit_promo.cpp', 'fma', defs='"-DVH_T=std::int32_t" "-DVH_P=float" "-DVH_L=promo::two"', args=iters(tier, 30, 1000), lib=True, **san('g++'))

@plan('P19')
def p19(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else MAIN:
        for T in FPS:
            k = dict(lib=True)
            yield U(f'meta1_{T}', 'unit_meta.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_L=trig::all,logs::all,pows::hyp"', args=iters(tier, 2500, 200000), **k)
            yield U(f'meta2_{T}', 'unit_meta.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_L=fmanip::scal,fmanip::parts,fmanip::logbs,mbase::exact"', args=iters(tier, 2500, 200000), **k)
            if th or isa in ('sse2', 'fma'): yield U(f'meta3_{T}', 'unit_meta.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_L=mbase::mmfp,mbase::rem,rnd::fp,cmp::fp,elem::all,pows::p2"', args=iters(tier, 1500, 100000), **k)

CONC = [('trig::all,logs::all', 'a'), ('pows::hyp,pows::p2,fmanip::scal,fmanip::parts,fmanip::logbs', 'b'), ('mbase::mmfp,mbase::rem,rnd::fp,arith::fparith,elem::all', 'c')]
@plan('P21')
def p21(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else Q(['sse2', 'fma']):
        for T in FPS:
            for L, n in CONC:
                yield U(f'conc{n}_{T}', 'unit_conc.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_L={L}"', args=iters(tier, 2000, 50000), lib=True)
                if th or n != 'c':
                    for cxx in ('g++', 'clang++') if th else ['g++' if T == 'float' else 'clang++']:
                        yield U(f'tsan{n}{cxx[0]}_{T}', 'unit_conc.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_L={L}"', args=iters(tier, 200, 5000), lib=True, cxx=cxx, libcxx=cxx, flags='-fsanitize=thread', libflags='-fsanitize=thread', env={'TSAN_OPTIONS': 'halt_on_error=1'})

CEXF = [('a', 'arith::fparith,cx::fma,mbase::rem', 1), ('q', 'cx::sq,logs::all', 2), ('m', 'arith::mm,mbase::mmfp,cx::rnd,cx::rndc', 0), ('c', 'cmp::common,cmp::fp,mbase::sign', 4), ('p', 'cx::man,cx::two', 1), ('t', 'cx::trig', 0), ('u', 'cx::itrig', 3)]
@plan('P23')
def p23(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else Q(['sse2', 'fma']):
        for T in FPS if th else [FPS[isa == 'fma']]:
            for n, L, dom in CEXF: yield U(f'cxf{n}_{T}', 'unit_cexpr.cpp', isa, defs=f'-DVH_DOM={dom} -DVH_K={24 if th else 6} "-DVH_T={T}" "-DVH_L={L}"', lib=True)
        for T in INTS if th else [['std::int8_t', 'std::uint64_t'], ['std::uint16_t', 'std::int32_t']][isa == 'fma']:
            n = SIZE[sn(T)]; s = T.startswith('std::i')
            L = 'arith::iarith,arith::integral,arith::mm,cmp::common,' + ','.join(f'arith::{x}shifts{n}' for x in ('la' if s else 'l')) + (',mbase::absl' if s else '')
            yield U(f'cxi_{sn(T)}', 'unit_cexpr.cpp', isa, defs=f'-DVH_K={24 if th else 6} "-DVH_T={T}" "-DVH_L={L}"')
    for isa in ALL if th else Q(['sse2', 'ssse3', 'sse42', 'fma']):
        for T, u in [('std::int8_t', 'float'), ('std::uint16_t', 'std::int32_t'), ('std::int32_t', 'double'), ('std::uint64_t', 'float'), ('float', 'std::int16_t'), ('double', 'float')] + ([('std::int64_t', 'double'), ('std::uint8_t', 'std::uint64_t')] if th else []):
            yield U(f'cxm_{sn(T)}', 'unit_cexpr2.cpp', isa, defs=f'-DVH_K={8 if th else 4} "-DVH_T={T}" "-DVH_U={u}"', opt='-O0')

@plan('P24')
def p24(tier, U):
    th = tier == 'thorough'
    for isa in ALL if th else Q(MAIN + ['nosimd']):
        for T in (INTS + FPS if th else ['std::int8_t', 'std::uint16_t', 'std::int32_t', 'std::uint64_t'] + FPS) + (['long double'] if isa in ('sse2', 'fma', 'nosimd') else []):
            yield typed(U, 'abi', 'unit_abi.cpp', T, isa, iters(tier, 300, 20000))
    for T in ['float', 'std::int16_t']:
        yield typed(U, 'abic', 'unit_abi.cpp', T, 'fma', iters(tier, 300, 20000), cxx='clang++')
        yield typed(U, 'abis', 'unit_abi.cpp', T, 'fma', iters(tier, 20, 2000), flags=UBSAN, env=SANENV)

@plan('P25')
def p25(tier, U):
    th = tier == 'thorough'
    isa = 'nosimd'
    FL = [('t', 'trig::all,logs::all', 2000), ('p', 'pows::hyp,pows::p2,elem::all', 1000), ('m', 'fmanip::scal,fmanip::parts,fmanip::logbs,mbase::sign', 2000), ('a', 'arith::fparith,mbase::exact,arith::mm,mbase::mmfp,cmp::common,cmp::fp', 1000), ('r', 'mbase::rem,mbase::remq,rnd::fp,rnd::conv,iconv::fp', 2000)]
    for cxx in ['g++', 'clang++'] if th else ['g++']:
        c = cxx[0]
        for T in FPS + ['long double']:
            for n, L, it in FL:
                if T == 'long double' and n == 'r': L = 'mbase::rem,mbase::remq'
                if c == 'c' and n == 'r': L = 'mbase::rem,mbase::remq'
                yield lane(U, c + n, T, isa, L, iters(tier, it, it * 60), lib=True, cxx=cxx, flags='-frounding-math -fno-fp-int-builtin-inexact' if n == 'r' and c == 'g' else '')
        for T in INTS:
            n = SIZE[sn(T)]; s = T.startswith('std::i')
            yield lane(U, c + 'i', T, isa, 'arith::iarith,arith::integral,arith::mm,cmp::common,' + ','.join(f'arith::{x}shifts{n}' for x in ('la' if s else 'l')) + (',mbase::absl' if s else ''), iters(tier, 300, 20000), cxx=cxx)
        for T in (INTS + FPS) if th else ['std::int8_t', 'std::uint16_t', 'std::int32_t', 'std::uint64_t'] + FPS:
            yield typed(U, c + 'mask', 'unit_mask.cpp', T, isa, iters(tier, 1000, 100000), cxx=cxx)
            yield typed(U, c + 'blend', 'unit_blend.cpp', T, isa, iters(tier, 1000, 100000), cxx=cxx)
            yield typed(U, c + 'red', 'unit_reduce.cpp', T, isa, iters(tier, 1000, 100000), cxx=cxx)
            if th or T in ('float', 'std::int8_t'):
                yield typed(U, c + 'shuf', 'unit_shuf.cpp', T, isa, iters(tier, 100, 1000), more='-DVH_SEED=5 -DVH_K=1', cxx=cxx)
                yield U(f'{c}mem_{sn(T)}', 'unit_mem.cpp', isa, defs=f'"-DVH_T={T}" "-DVH_U={",".join(MEMU[T].split(",")[:5 if th else 3])}"', args=iters(tier, 60, 5000), cost=10, cxx=cxx)
                yield U(f'{c}cast_{sn(T)}', 'unit_cast.cpp', isa, defs=f'-DVH_FEW "-DVH_T={T}" "-DVH_U={",".join(CASTU[T].split(",")[:5])}"', args=iters(tier, 100, 5000), cost=10, cxx=cxx)
    yield U('gone_i32', 'unit_promo.cpp', isa, defs='"-DVH_T=std::int32_t" "-DVH_L=promo::one"', args=iters(tier, 300, 10000), lib=True)
    yield U('gtwo_i32', 'unit_promo.cpp', isa, defs='"-DVH_T=std::int32_t" "-DVH_P=float" "-DVH_L=promo::two"', args=iters(tier, 300, 10000), lib=True)

import cpuid_check
@plan('P22')
def p22(tier, U): return []
CUSTOM['P22'] = [cpuid_check.run]

def units(p, tier, U): return list(PLANS[p](tier, U))
def offline(p): return OFFLINE.get(p, [])
PROPS = sorted(PLANS)
def coverage(p, cells, extra, units, built, skipped):
    isas = {}
    ops = {}
    for c in cells:
        isas[c['isa']] = isas.get(c['isa'], 0) + c['lanes']
        ops[c['op']] = ops.get(c['op'], 0) + c['lanes']
    ev = sum(c['lanes'] for c in cells)
    dn = sum(c['classes'] for c in cells)
    samples = [dict((k, c[k]) for k in ('op', 'type', 'abi', 'isa', 'calls', 'lanes', 'classes', 'digest')) for c in cells[::max(1, len(cells) // 12)]][:14]
    ov = [x for x in extra if 'overlapping' in x]
    more = dict(concurrent_calls=sum(x['calls'] for x in ov), calls_overlapping_another_thread=sum(x['overlapping'] for x in ov)) if ov else {}
    return dict(more, evaluations=ev, distinct_nontrivial=dn,
                rule=RULE.get(p, 'one evaluation = one observed result element judged by the oracle; distinct = (operation, type, shape, ISA) cell x class of the operand values (sign, kind, exponent range / bit width) actually observed'),
                samples=samples, cells=len(cells), calls=sum(c['calls'] for c in cells), operations=len(ops), types=sorted({c['type'] for c in cells}), shapes=sorted({c['abi'] for c in cells}),
                elements_by_isa=isas, units=len(units), units_not_built=[i for i, (x, e) in built.items() if e], skipped_isas=skipped)
RULE = {'P19': 'one evaluation = one element of a repeated / moved / re-embedded call compared with the first call; distinct = (operation, type, shape, ISA) cell x (class of the operand value, position)',
 'P20': 'one evaluation = one observed result element of code built with AddressSanitizer and UndefinedBehaviorSanitizer (value also judged by the oracle); distinct = (operation, type, shape, ISA) cell x operand class',
 'P21': 'one evaluation = one element computed by one of eight threads compared with the single-threaded result (a part of the units under ThreadSanitizer); distinct = cell x (operand class or overlap count)',
 'P22': 'one evaluation = one feature query answered on one modelled processor; distinct = distinct (leaf, vendor, state, features) processors',
 'P23': 'one evaluation = one element of a constant computed by the compiler compared with the element computed at run time and judged by the scalar oracle; distinct = cell x operand class',
 'P24': 'one evaluation = one judged size, alignment, tag, element or byte range; distinct = (type, shape, ISA) cell x value class'}
RM = 'runtime monitoring: '
TECH = {'P05': RM + 'exhaustive masks (up to 12 elements) and generated ones with hostile register padding, online oracle on the elements and reductions',
 'P06': RM + 'memory transfers against guard pages, canaries and poisoned destinations; oracle over every byte of the destination',
 'P18': RM + 'the library built in each documented option set, hostile neighbours, scalar oracle restricted to what the option set promises',
 'P19': RM + 'metamorphic monitor (same call again / moved / among other neighbours and padding) plus monitors of operands and floating-point environment',
 'P20': 'sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer (gcc and clang, -O0) over the workloads of the behavioural checks',
 'P21': 'sanitizers: ThreadSanitizer, and an online comparison of eight threads with a single one under a start barrier',
 'P22': RM + 'the compiled detection code runs with cpuid/xgetbv replaced by stand-ins which model processors and trap illegal queries; oracle from the processor manuals',
 'P23': RM + 'results recorded by the compiler evaluating the real code compared with recorded executions and the scalar oracle',
 'P24': RM + 'monitors of layout, tags, native views and copies of generated values, a part under sanitizers',
 'P25': RM + 'the real code built with the x86 macros withdrawn, same oracles as for the native code'}
NOTE, NA = {}, {}
