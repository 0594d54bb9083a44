#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property for /repo's tree.
   check.py --replay FILE               run one saved scenario again

Exit 0: held on everything explored; 1: VIOLATION printed; 2: no answer."""
import json, os, shutil, sys, tempfile, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build, plan, sim

MAXSHOW = 5


class Ctx:
    """One run of one check."""
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.full = tier == 'thorough'
        self.build = os.path.join(work, 'build')
        self.states = self.trans = self.traces = self.events = 0
        self.parts, self.samples, self.viol, self.assume = [], [], [], []
        self.t0 = time.time()
        self.known = known(pid)

    def left(self):
        return (600 if not self.full else 6 * 3600) - (time.time() - self.t0)

    def note(self, **kw):
        self.parts.append(kw)
        print('[%s %6.1fs] %s' % (self.pid, time.time() - self.t0, ' '.join('%s=%s' % (k, v) for k, v in kw.items())), flush=True)

    def violation(self, name, desc, replay):
        """Report, unless it is a listed finding."""
        for k in self.known:
            if k['match'] in name or k['match'] in desc:
                if not k.get('said'):
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']), flush=True)
                    k['said'] = True
                return
        d = os.path.join(VERIF, 'out', self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s.json' % name.replace('/', '_'))
        json.dump(dict(property=self.pid, name=name, why=desc, **replay), open(p, 'w'), indent=1)
        self.viol.append(p)
        if len(self.viol) <= MAXSHOW:
            print('  %s: %s' % (name, desc[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(p, VERIF)), flush=True)


def known(pid):
    out = []
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        l = l.strip()
        if l.startswith('known: property=%s ' % pid):
            # known: property=ID match=<text> what fails
            w = l.split(' ', 3)
            out.append(dict(match=w[2].split('=', 1)[1], what=w[3]))
    return out


def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        work = tempfile.mkdtemp(prefix='verif-')
        try:
            c = Ctx(d['property'], 'quick', 1, work)
            plan.replay(c, d)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 1 if c.viol else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    c = Ctx(pid, tier, seed, work)
    try:
        plan.run(c)
    except Exception as e:
        if isinstance(e, (build.BuildError, sim.CheckError)):
            print('check error: %s' % e, file=sys.stderr)
        else:
            traceback.print_exc()
        if not c.viol:
            return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
    if len(c.viol) > MAXSHOW:
        print('  ... and %d more' % (len(c.viol) - MAXSHOW))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=c.states, transitions=c.trans, traces_validated_against_impl=c.traces,
                            events_validated=c.events, samples=c.samples, parts=c.parts),
              assumptions=plan.ASSUME + c.assume, wall_s=round(time.time() - c.t0, 1), violations=len(c.viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if c.viol:
        return 1
    print('%s held: %d traces (%d events), %d states, %.1f s' % (pid, c.traces, c.events, c.states, time.time() - c.t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
