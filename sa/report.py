"""Obligations of one property and their outcome."""
import contextlib, json, multiprocessing, os, signal, time, traceback
from .lab import Missing
from .evalt import Opaque, Undef
from .interp import Give_up

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class OutOfTime(BaseException):
    """the time set aside for the analysis is used up"""


DEADLINE = [None]
_JOBS = []


def alarm(seconds):
    def stop(*_):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, 1))


def _job(i):
    R, cfg, thunk = _JOBS[i]
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    r = Report(R.pid, R.tier, R.seed)
    r.cfg = cfg
    late = False
    try:
        if DEADLINE[0] is not None:
            alarm(DEADLINE[0] - time.time())
        thunk(r)
    except OutOfTime:
        late = True
    except Exception:
        r.undecided('analysis', 'analysis', 'analysis error: %s' % traceback.format_exc(limit=-4)[-400:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    for v in r.violations:
        v['where'] = str(v['where'])
        v['witness'] = json.loads(json.dumps(v['witness'], default=str, skipkeys=True)) if v['witness'] is not None else None
    return i, r.obligations, r.violations, json.loads(json.dumps(r.samples, default=str, skipkeys=True)), r.undecided_why, {k: str(w) for k, w in r.functions.items()}, late


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obligations = {}      # (cfg, rule, function) -> {'instances', 'held', 'undecided', 'how'}
        self.violations = []
        self.samples = []
        self.undecided_why = []
        self.functions = {}
        self.cfg = ''
        self.cfgs = {}
        self.t_extract = 0

    note = None         # the special input the current obligations are checked on

    @contextlib.contextmanager
    def muted(self):
        """obligations met inside are not reported"""
        keep = dict(self.__dict__)
        self.obligations, self.violations, self.samples, self.undecided_why, self.functions = {}, [], [], [], {}
        try:
            yield
        finally:
            self.__dict__.update(keep)

    def entry(self, rule, fn):
        fp = getattr(fn, 'path', fn)
        sp = getattr(fn, 'span', None)
        if sp:
            self.functions[fp] = sp
        return self.obligations.setdefault((self.cfg, rule, fp), {'instances': 0, 'held': 0, 'undecided': 0})

    def held(self, rule, fn, sample=None):
        e = self.entry(rule, fn)
        e['instances'] += 1
        e['held'] += 1
        if sample is not None and len(self.samples) < 12 and e['held'] == 1:
            self.samples.append({'rule': rule, 'function': getattr(fn, 'path', fn), 'config': self.cfg, 'instance': sample})

    def violate(self, rule, fn, msg, witness=None, key=None):
        e = self.entry(rule, fn)
        e['instances'] += 1
        if self.note:
            witness = dict(witness if isinstance(witness, dict) else {'witness': witness}, special_case=self.note)
        self.violations.append({'rule': rule, 'function': getattr(fn, 'path', fn), 'where': getattr(fn, 'span', None),
                                'config': self.cfg, 'what': msg, 'witness': witness, 'key': key})

    def undecided(self, rule, fn, why):
        e = self.entry(rule, fn)
        e['instances'] += 1
        e['undecided'] += 1
        if len(self.undecided_why) < 20:
            self.undecided_why.append('%s: %s' % (rule, why))

    def check(self, rule, fn, cond, msg, sample=None, witness=None):
        if cond:
            self.held(rule, fn, sample)
        else:
            self.violate(rule, fn, msg, witness if witness is not None else sample)
        return cond

    def guard(self, rule, what, thunk):
        """run one group of obligations; what has no contract stays undecided, a missing public anchor is a violation"""
        bad = [v for v in self.violations if v['key'] is None and v['config'] == self.cfg]
        if bad and (time.time() - self.t0 > 240 or sum(v['rule'] == rule for v in bad) > 3):
            return None         # the verdict is settled: no need for still larger instances
        try:
            return thunk()
        except Missing as e:
            self.violate(rule, str(e), 'public item the property is anchored on is missing')
        except (Opaque, Give_up, RecursionError) as e:
            self.undecided(rule, what, '%s: %s' % (type(e).__name__, str(e)[:200]))
        except Undef as e:
            self.undecided(rule, what, 'undefined value: %s' % e)
        except Exception as e:      # a shape of code the analysis was not prepared for is not a verdict
            self.undecided(rule, what, 'analysis error: %s' % traceback.format_exc(limit=-3)[-300:])

    def spread(self, jobs, workers=6):
        """run (configuration, thunk of a report) groups of obligations in processes of their own"""
        global _JOBS
        if len(jobs) == 1 or multiprocessing.current_process().daemon:
            for cfg, thunk in jobs:
                keep, self.cfg = self.cfg, cfg
                thunk(self)
                self.cfg = keep
            return
        _JOBS = [(self, cfg, thunk) for cfg, thunk in jobs]
        res = {}
        with multiprocessing.get_context('fork').Pool(min(workers, len(jobs)), maxtasksperchild=1) as pool:
            pend = [pool.apply_async(_job, (i,)) for i in range(len(jobs))]
            for i, p in enumerate(pend):
                try:
                    res[i] = p.get(None if DEADLINE[0] is None else max(DEADLINE[0] + 20 - time.time(), 0.1))
                except multiprocessing.TimeoutError:
                    res[i] = None
        for i in range(len(jobs)):
            if res[i] is None:
                keep, self.cfg = self.cfg, jobs[i][0]
                self.undecided('time', 'analysis', 'the time set aside for the analysis is used up')
                self.cfg = keep
                continue
            _, ob, vs, sm, why, fns, late = res[i]
            for k, e in ob.items():
                o = self.obligations.setdefault(k, {'instances': 0, 'held': 0, 'undecided': 0})
                for q in e:
                    o[q] += e[q]
            self.violations += vs
            self.samples = (self.samples + sm)[:12]
            self.undecided_why = (self.undecided_why + why)[:20]
            self.functions.update(fns)
            if late:
                keep, self.cfg = self.cfg, jobs[i][0]
                self.undecided('time', 'analysis', 'the time set aside for the analysis is used up')
                self.cfg = keep

    def totals(self):
        o = self.obligations.values()
        return {'obligations': len(self.obligations), 'instances': sum(e['instances'] for e in o),
                'held': sum(e['held'] for e in o), 'undecided': sum(e['undecided'] for e in o)}

    def write(self, violations, known, text):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tot = self.totals()
        ob = [{'config': c, 'rule': r, 'function': f, 'instances': e['instances'], 'held': e['held'], 'undecided': e['undecided']}
              for (c, r, f), e in sorted(self.obligations.items(), key=lambda z: tuple(map(str, z[0])))]
        doc = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
               'coverage': {
                   'explanation': 'Static decision on the value graphs extracted from the type-checked MIR of /repo (built with the '
                                  'extraction driver in two feature configurations; nothing of /repo is executed). ' + text,
                   'configurations_bodies': self.cfgs,
                   'functions_analysed': {k: str(v) for k, v in sorted(self.functions.items())},
                   'rule_function_obligations': tot['obligations'], 'instances': tot['instances'], 'held': tot['held'],
                   'undecided': tot['undecided'], 'undecided_reasons': self.undecided_why,
                   'obligations_detail': ob, 'samples': self.samples, 'known_findings': known, 'extraction_s': round(self.t_extract, 1)},
               'assumptions': ['rustc front end and the MIR it produces', 'contracts of external functions as stated in sa/models.py '
                               '(group/field laws, bilinear pairing, digests and samplers as uninterpreted functions)'],
               'wall_s': round(time.time() - self.t0, 2), 'violations': len(violations)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(doc, f, indent=1, default=str)
