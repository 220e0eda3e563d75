"""What a case reports: counters, abstract states, violations of the running property."""
import os
import random
import zlib


class StopCase(Exception):
    """Enough has gone wrong in this case."""


class CaseTimeout(Exception):
    pass


class Ctx(object):
    MAX_PER_CASE = 6

    def __init__(self, prop, tier, seed, case):
        self.prop, self.tier, self.seed, self.case = prop, tier, seed, case
        self.counters = {}
        self.states = set()
        self.viol = []          # messages about the running property
        self.foreign = {}       # tag -> number of violations of other properties
        self.foreign_msg = []
        self.known = {}         # known finding id -> number of sightings
        self.nontrivial = True
        self.desc = None        # what this case was, for the samples
        self.sig = None
        self.rng = random.Random('%s/%s/%s/%s' % (prop, seed, case, tier))
        self.np_seed = zlib.crc32(('%s/%s/%s' % (prop, seed, case)).encode())

    def violation(self, tags, msg):
        if isinstance(tags, str):
            tags = (tags,)
        if self.prop in tags:
            self.viol.append(msg)
            if len(self.viol) >= self.MAX_PER_CASE:
                raise StopCase()
        else:
            for t in tags:
                self.foreign[t] = self.foreign.get(t, 0) + 1
            if len(self.foreign_msg) < 5:
                self.foreign_msg.append('%s: %s' % ('/'.join(tags), msg))
            if sum(self.foreign.values()) > 400:
                raise StopCase()

    def check(self, ok, msg, tags=None):
        """Violation of the running property unless ok."""
        self.count('oracle_evaluations')
        if not ok:
            self.violation(tags or self.prop, msg() if callable(msg) else msg)
        return ok

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def high(self, name, n):
        name = 'max_' + name
        if n > self.counters.get(name, 0):
            self.counters[name] = n

    def state(self, s):
        if len(self.states) < 20000:
            self.states.add(s)


def quick(ctx):
    return ctx.tier == 'quick'


def in_library(path):
    b = os.environ['QT_BUILD']
    return path.startswith(b) or path.startswith('queueing_tool/') or \
        path.startswith('queueing_tool.')
