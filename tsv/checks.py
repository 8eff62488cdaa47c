"""Which obligations decide which property."""
from . import prog
from .check import Group

TRUSTED = [
    'clang 18 -O0 + mem2reg as the meaning of the C source (LLVM IR regenerated from /repo on every run)',
    'the IR executor and term normaliser in /verif/tsv (machine.py, term.py, facts.py, autocut.py)',
    'z3 for the conditions the normaliser leaves open',
    'the specification text in /verif/tsv (hspec.py from FIPS 180-4 and FIPS 202, spec.py from the SPHINCS+ submission)',
    'C library memcpy, memset, memmove, memcmp as specified by the C standard',
]
ASSUME = [
    'target data model of x86-64 (little endian, 64-bit size_t, 32-bit int)',
    'message and output lengths stay below 2^60 bytes',
    'buffers passed by the caller are valid for the stated lengths and do not overlap the context',
]


class Check(object):
    combine = None        # what the failures of several proofs mean together

    def __init__(self, groups, replay, configs=('default',), assume=(), combine=None):
        if combine:
            self.combine = combine
        self._groups = groups
        self._replay = replay
        self._configs = configs
        self.assume = list(assume)

    def groups(self, tier):
        return self._groups(tier)

    def configs(self, tier):
        return list(self._configs)

    def replay(self, rep, seed, tier):
        return self._replay(rep, seed, tier)


# ------------------------------------------------------------------ hashes
PARTS = {'SHA256': 4, 'SHA512': 8, 'SHAKE': 16}


def stream_group(name, cfg='default'):
    n = PARTS[name]

    def tasks(havoc):
        return [('streams.task', (cfg, name, i, n, havoc)) for i in range(n)]
    state = {'havoc': ()}

    def judge(results):
        new = set(state['havoc'])
        for rep, extra in results:
            new |= set(extra or ())
        new = tuple(sorted(new))
        if new != state['havoc']:
            state['havoc'] = new
            return tasks(new)
        return None
    g = Group('%s stream (%s)' % (name, cfg), tasks(()), judge)
    g.weight = 5
    return g


def variant_group(name, cfg, base='default'):
    """a configuration that differs from base in the block function only; the full proof otherwise"""
    full = stream_group(name, cfg)
    state = {'full': False}

    def judge(results):
        if state['full']:
            return full.judge(results)
        if results[0][1] == 'full':
            state['full'] = True
            return full.tasks
        return None
    g = Group('%s stream (%s)' % (name, cfg), [('streams.variant', (cfg, name, base))], judge)
    g.weight = 4
    return g


def hash_replay(names, cfgs=('default',)):
    def rp(rep, seed, tier):
        from . import native, battery
        from .check import T0
        found, runs = [], 0
        for c in cfgs:
            b = native.Battery(prog.CONFIGS[c], seed, stop=T0 + battery.NATIVE)
            b.hashes(names)
            found += b.found
            runs += b.runs
        return found, runs
    return rp


CHECKS = {}
CHECKS['C01'] = Check(lambda t: [stream_group('SHA256')], hash_replay(['SHA256']))
CHECKS['C02'] = Check(lambda t: [stream_group('SHA512')], hash_replay(['SHA512']))
CHECKS['C03'] = Check(lambda t: [stream_group('SHAKE'), variant_group('SHAKE', 'shake_opt1'), variant_group('SHAKE', 'shake_opt2')],
                      hash_replay(['SHAKE'], ('default', 'shake_opt1', 'shake_opt2')), ('default', 'shake_opt1', 'shake_opt2'))


# ------------------------------------------------------------------ roles
MEM = ('mem', 'ub', 'init')


def role_group(cfg, roles, value=True, ex=MEM + ('spec', 'precondition')):
    """equality with the definition (value) and execution failures of kinds ex"""
    from . import roles as R
    g = Group('roles %s (%s)' % ('/'.join(roles), cfg), [('tasks.roles', a + (value, ex)) for _, a in R.tasks(cfg, roles)])
    g.weight = 3
    return g


def huge1(cfgname, name, which, seed, stop):
    from . import native
    b = native.Battery(prog.CONFIGS[cfgname], seed, stop=stop)
    try:
        b.huge(name, which)
    finally:
        b.nat.close()
    return b.found, b.runs


def role_replay(which, cfgs):
    def rp(rep, seed, tier):
        from . import native, battery
        from .check import T0
        found, runs = [], 0
        if set(which) & {'prf_msg', 'hash_msg'}:
            stop = T0 + battery.NATIVE
            found, runs = battery.gather([(huge1, ('default', p, w, seed, stop)) for p in ('sha2_128f', 'sha2_192f', 'shake_128f') for w in which if w.endswith('_msg')], rep)
            if found:
                return found, runs
        for c in cfgs:
            b = native.Battery(prog.CONFIGS[c], seed, stop=T0 + battery.NATIVE)
            b.roles(which)
            found += b.found
            runs += b.runs
        return found, runs
    return rp


CHECKS['C04'] = Check(lambda t: [role_group('default', ('prf', 'f', 't')), role_group('small_ram', ('prf', 'f', 't'))],
                      role_replay(('prf', 'f', 't'), ('default', 'small_ram')), ('default', 'small_ram'))
CHECKS['C05'] = Check(lambda t: [role_group('default', ('prf_msg', 'hash_msg')), role_group('small_ram', ('prf_msg', 'hash_msg'))],
                      role_replay(('prf_msg', 'hash_msg'), ('default', 'small_ram')), ('default', 'small_ram'))


# ------------------------------------------------------------------ API calls
def api_group(name, cfgs, directions, kinds, ex, parts=('prove', 'calls'), weight=0, only=None):
    """kinds: obligations counted, per direction; only(cfg, set): leave the others out"""
    from . import tasks as K
    ts = []
    for d in directions:
        for c in cfgs:
            for p in prog.CONFIGS[c].sets():
                if only and not only(c, p):
                    continue
                w = {'128f': 1, '192f': 2, '256f': 4, '128s': 4, '192s': 12, '256s': 13}[p.size] if d == 'sign' else \
                    {'128f': 2, '192f': 3, '256f': 5, '128s': 2, '192s': 4, '256s': 5}[p.size] if d == 'verify' else .3
                k = kinds[d] if type(kinds) is dict else kinds
                ts.append((w, ('tasks.call', (d, c, p.name, k, ex, parts))))
    ts.sort(key=lambda x: -x[0])
    g = Group(name, [t for _, t in ts])
    g.weight = 10 + weight
    return g


def all_roles(cfgs=('default',)):
    return [role_group(c, ('prf', 'f', 't', 'prf_msg', 'hash_msg')) for c in cfgs]


def api_replay(what, cfgs=('default',), budget=60, san=False, sets=None, enough=3):
    from . import battery
    return battery.replay(what, cfgs, budget, sets, san, enough)


ROLEASSUME = ['the random source writes inside the buffer it is given and answers at will']
PRE = ('spec', 'precondition')
VAL = ('randomiser', 'random', 'secret', 'position', 'path', 'wots', 'order', 'leaf')

CHECKS['C06'] = Check(lambda t: [api_group('digest', ('default',), ('sign', 'verify'), ('secret', 'position'), (), ('prove', 'fors'))],
                      api_replay([('sign', ('secret',)), ('verify', 30, 0, 1)]), assume=ROLEASSUME)
CHECKS['C07'] = Check(lambda t: [api_group('WOTS+', ('default',), ('sign', 'verify', 'keygen'), {'sign': ('wots', 'leaf'), 'verify': ('wots',), 'keygen': ('keygen',)}, (), ('prove',))],
                      api_replay(['extremes', ('sign', ('wots',)), 'keygen', ('verify', 30, 0, 1)]), assume=ROLEASSUME)
CHECKS['C08'] = Check(lambda t: [api_group('trees', ('default',), ('sign', 'verify', 'keygen'), {'sign': ('path', 'order', 'leaf'), 'verify': ('path', 'order'), 'keygen': ('keygen',)}, (), ('prove',))],
                      api_replay([('sign', ('path', 'wots')), 'keygen', ('verify', 30, 0, 1)]), assume=ROLEASSUME)
CHECKS['C09'] = Check(lambda t: [api_group('key generation', ('default', 'small_ram'), ('keygen',), ('keygen',), PRE)],
                      api_replay(['keygen'], ('default', 'small_ram')), ('default', 'small_ram'), ROLEASSUME)
CHECKS['C10'] = Check(lambda t: [api_group('signing', ('default',), ('sign',), VAL + ('length', 'emission'), PRE)] + all_roles(),
                      api_replay(['sign']), assume=ROLEASSUME)
CHECKS['C11'] = Check(lambda t: [api_group('requests', ('default',), ('sign',), ('length', 'emission', 'entry'), ())],
                      api_replay(['chunked']), assume=ROLEASSUME)
CHECKS['C12'] = Check(lambda t: [api_group('verification', ('default',), ('verify',), VAL + ('length', 'verdict', 'join', 'entry'), PRE)] + all_roles(),
                      api_replay(['verify']), assume=ROLEASSUME)
CHECKS['C13'] = Check(lambda t: [api_group('pieces', ('default',), ('verify',), ('length', 'verdict', 'join', 'entry'), ())],
                      api_replay(['joined']), assume=ROLEASSUME)


# ------------------------------------------------------------------ round trip
def lemma_group():
    g = Group('composition', [('compose.lemma', (p.name,)) for p in sorted(prog.SETS, key=lambda p: -p.t)])
    g.weight = 12
    return g


def roundtrip(rep):
    """one side proved and the other one off: they disagree. Otherwise the round trip is left to the real code"""
    S, V, L, O = [], [], [], []
    for f in rep.fails:
        n = f[0]
        if ' composition' in n:
            L.append(f)
        elif 'signing' in n or 'key generation' in n:
            S.append(f)
        elif 'verification' in n:
            (V if any(x in n for x in ('/position', '/secret', '/path', '/wots', '/order', '/length', 'failure only if')) else O).append(f)
        else:
            O.append(f)
    keep = L
    if not O and not rep.limits and bool(S) != bool(V):
        keep = L + S + V
    rep.limits += [f for f in rep.fails if f not in keep]
    rep.fails = keep


CHECKS['C14'] = Check(lambda t: [api_group('both sides', ('default',), ('sign', 'verify', 'keygen'),
                                           {'sign': VAL + ('length', 'emission', 'entry'), 'verify': VAL + ('length', 'verdict', 'join', 'entry'), 'keygen': ('keygen',)}, ('spec',)),
                                 lemma_group()] + all_roles(),
                      api_replay(['roundtrip']), assume=ROLEASSUME, combine=roundtrip)


# ------------------------------------------------------------------ memory, frames, phases
MINS = tuple('min_' + p.name for p in prog.SETS)
MINOPT = tuple('min_%s_opt' % p.name for p in prog.SETS if p.sha2)
# one of each level and family: the role functions see neither tree heights nor counts
FASTS = tuple(c for c in MINS + MINOPT if '28f' in c or '92f' in c or '56f' in c)
COMBOS = tuple(c for c in prog.CONFIGS if c.startswith('sets_'))
ALLDIR = ('sign', 'verify', 'keygen')
EVERY = ('prove', 'calls', 'misuse')
ROLES5 = ('prf', 'f', 't', 'prf_msg', 'hash_msg')


def tight(c, p):
    """the set a smallest configuration is made for, and the fast ones it enables besides"""
    return c == 'min_' + p.name or p.size == '128f' and c[-1] == 's'


def memory(t):
    ex = MEM + ('precondition',)
    g = [api_group('smallest contexts', MINS, ALLDIR, (), ex, EVERY, only=None if t == 'thorough' else tight)]
    cs = MINS + MINOPT + ('default', 'small_ram', 'all_parm_sets')
    if t == 'thorough':
        g.append(api_group('other configurations', MINOPT + ('default', 'small_ram', 'all_parm_sets', 'shake_opt1') + COMBOS, ALLDIR, (), ex, EVERY))
        cs += COMBOS
    else:
        g.append(api_group('key generation', ('default', 'small_ram') + MINOPT, ('keygen',), (), ex))
    rc = cs if t == 'thorough' else ('default', 'small_ram') + FASTS
    return g + [role_group(c, ROLES5, False, ex) for c in rc] + [table_group(cs)]


def table_group(cfgs):
    return Group('tables', [('tables.check', (c,)) for c in cfgs])


def named(rep, cfgs):
    """the configurations the verifier's complaints name, first"""
    import re
    txt = ' '.join(a for a, b in rep.fails + rep.limits)
    w = set(re.findall(r'[a-z0-9_]+', txt))
    return [c for c in cfgs if c in w], [c for c in cfgs if c not in w]


def memory_replay(rep, seed, tier):
    found, runs = [], 0
    a, b = named(rep, MINS + MINOPT)
    for what, cfgs, budget in ((['touch'], a, 30), (['touch'], ('default',), 40), (['touch'], b, 20)):
        f, r = api_replay(what, cfgs, budget, True, enough=1)(rep, seed, tier)
        found += f
        runs += r
        if found:
            break
    return found, runs


CHECKS['C15'] = Check(memory, memory_replay, MINS + MINOPT + ('default', 'small_ram', 'all_parm_sets'), ROLEASSUME)


def frame_replay(rep, seed, tier):
    found, runs = api_replay(['reuse', 'inter', ('sign', None, 3), ('verify', 2, 3, 3)], ('default',), 60, True)(rep, seed, tier)
    return found, runs


FRAME = ('frame', 'ext', 'message-use')
CHECKS['C16'] = Check(lambda t: [api_group('frames', ('default', 'small_ram') if t == 'thorough' else ('default',), ALLDIR, (), FRAME, EVERY)]
                      + [role_group(c, ROLES5, False, FRAME) for c in ('default', 'small_ram')],
                      frame_replay, assume=ROLEASSUME)
CHECKS['C17'] = Check(lambda t: [api_group('phases', ('default', 'small_ram') if t == 'thorough' else ('default',), ('sign', 'verify'), ('misuse', 'verdict'), (), ('prove', 'misuse'))],
                      api_replay(['misuse', ('joined', 3)]), assume=ROLEASSUME)
TABCFG = ('default', 'all_parm_sets', 'small_ram') + MINS + COMBOS
CHECKS['C18'] = Check(lambda t: [table_group(TABCFG + MINOPT), role_group('default', ROLES5)],
                      api_replay(['sizes', ('sign', None, 1)], ('default', 'small_ram', 'all_parm_sets') + MINS, 30), TABCFG)


# ------------------------------------------------------------------ build settings
def settings(t):
    allk = VAL + ('length', 'verdict', 'join', 'entry', 'emission', 'misuse', 'keygen')
    g = [api_group('restricted sets', MINS, ALLDIR, allk, PRE, ('prove', 'calls') if t == 'thorough' else ('prove',),
                   only=None if t == 'thorough' else tight)]
    g += [role_group(c, ROLES5) for c in ('default', 'small_ram') + (MINS + MINOPT if t == 'thorough' else FASTS)]
    if t == 'thorough':
        g += [api_group('other settings', ('small_ram', 'all_parm_sets') + MINOPT, ALLDIR, allk, PRE)]
    return g + [variant_group('SHAKE', 'shake_opt1'), variant_group('SHAKE', 'shake_opt2')]


def settings_replay(rep, seed, tier):
    from . import battery
    return battery.across(('small_ram', 'all_parm_sets', 'shake_opt1', 'shake_opt2') + MINS + MINOPT, seed, 40, rep)


CHECKS['C19'] = Check(settings, settings_replay, ('default', 'small_ram', 'shake_opt1', 'shake_opt2') + MINS + MINOPT, ROLEASSUME)
