"""Proof tasks for the API calls, with the obligations a property asks for."""
import re
import traceback
from . import prog, scheme
from .machine import Fail
from .facts import Limit
from .report import Report

VALUE = ('randomiser', 'random', 'secret', 'position', 'path', 'wots', 'order', 'verdict', 'leaf')
MEM = ('mem', 'ub', 'init')
FRAME = ('frame', 'ext')


def kindof(name):
    if ' misuse: ' in name:
        return 'misuse'
    if '/' in name and ': ' in name:
        return name.split('/', 1)[1].split(':', 1)[0]
    if 'random source' in name or 'optional randomness' in name:
        return 'random'
    return None


def keep(src, kinds):
    """the obligations of the given kinds (None: all)"""
    rep = Report()
    for k, (a, b) in src.ob.items():
        kd = kindof(k)
        if kinds is None or kd in kinds:
            o = rep.ob.setdefault(k, [0, 0])
            o[0] += a
            o[1] += b
    rep.fails = [(a, b) for a, b in src.fails if kinds is None or kindof(a) in kinds]
    rep.limits = list(src.limits)
    rep.notes = list(src.notes)
    rep.bounded = list(src.bounded)
    # an obligation that failed but belongs to another property leaves this one undecided only when the proof stopped there
    return rep


EXEC = re.compile(r'(mem|ub|init|frame|ext|spec|precondition) at ')


def counts(msg, kind, ex):
    """does an execution failure of this kind, with this text, belong to the property (ex: kinds, or None for all)"""
    if ex is None or kind in ex:
        return True
    return 'message-use' in ex and ('message that need not exist' in msg or 'inaccessible object message' in msg)


def roles(cfgname, names, which, value, ex):
    """value: equality with the definition counts; ex: kinds of execution failures that count"""
    from . import roles as R
    src = R.task(cfgname, names, which)
    rep = Report()
    rep.st, rep.funcs, rep.notes, rep.bounded, rep.limits = src.st, src.funcs, src.notes, src.bounded, list(src.limits)
    mine = lambda k: value and not ('changes nothing' in k or 'leaves its input' in k) or k.startswith('memory')
    for k, v in src.ob.items():
        if mine(k):
            rep.ob[k] = v
    for a, b in src.fails:
        x = EXEC.match(str(b))
        if x and counts(str(b), x.group(1), ex) or not x and mine(a):
            rep.fails.append((a, b))
        elif x or 'changes nothing' in a:
            rep.limits.append((a, b))
    if cfgname != 'default':
        rep.fails = [('%s (%s)' % (a, cfgname), b) for a, b in rep.fails]
        rep.limits = [('%s (%s)' % (a, cfgname), b) for a, b in rep.limits]
    return rep


def judge(e, rep, where, ex):
    if isinstance(e, Fail):
        if counts(str(e), e.kind, ex):
            rep.fail(where, str(e))
        else:
            rep.limit(where, str(e))
    elif isinstance(e, Limit):
        rep.limit(where, str(e))
    else:
        rep.limit(where, 'internal: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])


def call(direction, cfgname, setname, kinds, ex, parts=('prove', 'calls')):
    """direction 'sign', 'verify' or 'keygen'; kinds: obligations kept; ex: kinds of execution failures that count"""
    cfg, ps = prog.CONFIGS[cfgname], prog.BYNAME[setname]
    where = '%s %s' % (setname, {'sign': 'signing', 'verify': 'verification', 'keygen': 'key generation'}[direction])
    if cfgname != 'default':
        where += ' (%s)' % cfgname
    if direction == 'keygen':
        r = Report()
        try:
            src = scheme.keygen(cfgname, setname)
            rep = src if kinds is None or 'keygen' in kinds else keep(src, kinds)
            for k, v in src.ob.items():
                if k.startswith('memory'):
                    rep.ob[k] = v
            rep.st, rep.funcs = src.st, src.funcs
            return rep
        except (Fail, Limit, Exception) as e:
            judge(e, r, where, ex)
        return r
    from . import sign, verify
    def prove(anyadr):
        s = None
        try:
            s = sign.Sign(cfg, ps) if direction == 'sign' else verify.Verify(cfg, ps)
            s.parts = parts
            s.anyadr = anyadr
            s.prove()
            if direction == 'sign' and 'calls' in parts:
                s.emission()
                s.entry()
            if 'misuse' in parts:
                from . import misuse
                misuse.prove(s, direction)
        except (Fail, Limit, Exception) as e:
            return s, e
        return s, None
    s, err = prove(False)
    if isinstance(err, Fail) and err.kind == 'init' and s is not None and not counts(str(err), err.kind, ex) and not s.rep.fails:
        # reading what was never written is for other properties; this one asks what follows for any value there
        s2, e2 = prove(True)
        if s2 is not None and (keep(s2.rep, kinds).fails or e2 is None):
            s, err = s2, e2 if e2 is None or not isinstance(e2, Fail) or counts(str(e2), e2.kind, ex) else err
    if s is None:
        rep = Report()
    else:
        rep = keep(s.rep, kinds)
        rep.stats(s.m)
        if err is None and s.suspect and (kinds is None or s.suspect[0] in kinds):
            pass
    if err is not None:
        judge(err, rep, where, ex)
    return rep
