"""Runs the cases of one shard:  worker PROP TIER SEED SHARD NSHARDS NCASES OUT [ONLY]"""
import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import traceback

from vlib.ctx import Ctx, StopCase, CaseTimeout, in_library

CASE_CPU = 40.0      # far above what any case needs


def on_alarm(signum, frame):
    raise CaseTimeout()


def explain(exc):
    """(is it the library that failed, text)"""
    tb = traceback.extract_tb(exc.__traceback__)
    inner = None
    for f in tb:
        if in_library(f.filename) or f.filename.startswith(os.environ['VERIF_HOME']):
            inner = f
    text = ''.join(traceback.format_exception_only(type(exc), exc)).strip()
    loc = ''
    touched = [f for f in tb if in_library(f.filename)]
    if inner is not None:
        loc = ' at %s:%s in %s' % (os.path.basename(inner.filename), inner.lineno, inner.name)
    if inner is not None and in_library(inner.filename):
        return True, 'unexpected %s%s' % (text, loc)
    # the harness tripped over something the library gave it or called it with
    if isinstance(exc, (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError,
                        OverflowError)):
        return True, 'unusable result or call: %s%s%s' % (
            text, loc, ' (called from the library)' if touched else '')
    return False, text + loc + '\n' + ''.join(traceback.format_tb(exc.__traceback__)[-6:])


def main():
    prop, tier, seed, shard, nshards, ncases, out = sys.argv[1:8]
    seed, shard, nshards, ncases = int(seed), int(shard), int(nshards), int(ncases)
    only = int(sys.argv[8]) if len(sys.argv) > 8 else None
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if 'LD_PRELOAD' not in os.environ:      # sanitizers reserve address space
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import numpy as np
    import queueing_tool as qt
    build = os.environ['QT_BUILD']
    assert os.path.realpath(qt.__file__).startswith(os.path.realpath(build)), qt.__file__
    for ext in ('network.priority_queue', 'queues.choice'):
        m = importlib.import_module('queueing_tool.' + ext)
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(build)), m.__file__
    np.seterr(all='ignore')
    mod = importlib.import_module('props.' + prop.lower())
    signal.signal(signal.SIGPROF, on_alarm)
    res = {'counters': {}, 'foreign': {}, 'foreign_msg': [], 'viol': [], 'errors': [],
           'samples': [], 'sigs': [], 'states': [], 'cases': 0, 'known': {}}
    states, sigs = set(), set()
    cases = [only] if only is not None else range(shard, ncases, nshards)
    for i in cases:
        with open(out + '.progress', 'w') as f:
            f.write(str(i))
        ctx = Ctx(prop, tier, seed, i)
        np.random.seed(ctx.np_seed)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
        try:
            mod.run_case(ctx, i)
        except StopCase:
            pass
        except CaseTimeout as e:
            lib = any(in_library(f.filename) for f in traceback.extract_tb(e.__traceback__))
            if lib:
                ctx.viol.append('no progress: %d s of processor time inside one call'
                                % CASE_CPU)
            else:
                res['errors'].append('case %d: harness used too much time: %s' % (
                    i, ''.join(traceback.format_tb(e.__traceback__)[-3:])))
        except Exception as e:
            is_lib, text = explain(e)
            if is_lib:
                ctx.viol.append(text)
            elif ctx.viol or ctx.foreign:
                pass        # a consequence of what was reported already
            else:
                res['errors'].append('case %d: %s' % (i, text))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        res['cases'] += 1
        for a in ('counters', 'foreign', 'known'):
            for k, n in getattr(ctx, a).items():
                res[a][k] = max(res[a].get(k, 0), n) if k.startswith('max_') else \
                    res[a].get(k, 0) + n
        res['foreign_msg'] = (res['foreign_msg'] + ctx.foreign_msg)[:5]
        states.update(map(repr, ctx.states))
        if ctx.nontrivial and ctx.sig is not None:
            sigs.add(hashlib.sha1(repr(ctx.sig).encode()).hexdigest()[:16])
        if len(res['samples']) < 2 and ctx.desc is not None:
            res['samples'].append({'case': i, 'what': str(ctx.desc)[:600]})
        if ctx.viol:
            res['viol'].append({'case': i, 'messages': [str(m)[:600] for m in ctx.viol[:8]],
                                'what': str(ctx.desc)[:2000]})
            if len(res['viol']) >= 4 or 'no progress' in str(ctx.viol):
                break
        if len(res['errors']) >= 3:
            break
    res['sigs'] = sorted(sigs)
    res['states'] = sorted(states)[:50000]
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.rename(tmp, out)


if __name__ == '__main__':
    main()
