"""Obligation book-keeping: counts per named obligation, failures with the verifier's explanation."""


class Report(object):
    def __init__(self, name=''):
        self.name = name
        self.ob = {}            # name -> [generated, discharged]
        self.fails = []         # (obligation, explanation)
        self.limits = []        # (obligation, explanation): not decided
        self.st = {}            # solver / executor statistics
        self.funcs = set()      # functions executed under proof
        self.notes = []
        self.bounded = []       # bounded stand-ins used

    def add(self, name, ok, msg=''):
        o = self.ob.setdefault(name, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
        else:
            self.fails.append((name, msg))
        return ok

    def fail(self, name, msg):
        return self.add(name, False, msg)

    def limit(self, name, msg):
        o = self.ob.setdefault(name, [0, 0])
        o[0] += 1
        self.limits.append((name, msg))

    def stats(self, m):
        for k, v in m.stats.items():
            self.st[k] = self.st.get(k, 0) + v
        for k in m.covered:
            self.funcs.add(k if type(k) is str else k[1])
        self.ob.setdefault('memory, initialisation and arithmetic checks along every path', [0, 0])
        o = self.ob['memory, initialisation and arithmetic checks along every path']
        n = m.stats['mem'] + m.stats['init'] + m.stats['ub'] + m.stats['frame']
        o[0] += n
        o[1] += n

    def merge(self, r):
        for k, (a, b) in r.ob.items():
            o = self.ob.setdefault(k, [0, 0])
            o[0] += a
            o[1] += b
        self.fails += r.fails
        self.limits += r.limits
        self.funcs |= r.funcs
        self.notes += r.notes
        self.bounded += r.bounded
        for k, v in r.st.items():
            self.st[k] = self.st.get(k, 0) + v

    def total(self):
        return sum(a for a, b in self.ob.values()), sum(b for a, b in self.ob.values())
