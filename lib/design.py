"""The design of the daemon (spec/Relay.tla): model checking it, showing that
the requirements have teeth, and replaying its behaviours to the program."""
import concurrent.futures as cf
import os, re, random, subprocess
import sim, build

ALL = ['C%02d' % i for i in list(range(1, 12)) + [20, 21, 22, 23, 24]]
BASE = dict(NC=1, Budget=6, Horizon=1500, Modes=['e', 'd'], MaxCs=[1], Lists='L1', Opts='O0', Moves=[], Hist=False, Lead=0,
            Enf=ALL, Bug='none')
EST = ['conn', 'cok', 'hs']
# what is explored for each property: quick, thorough
MODEL = {
    'C01': (dict(Moves=EST + ['plain', 'pkt', 'block'], Budget=7), dict(Moves=EST + ['plain', 'pkt', 'block', 'peof', 'ceof'], Budget=10)),
    'C02': (dict(Moves=EST + ['pkt', 'forge', 'trunc', 'ceof'], Budget=9), dict(Moves=EST + ['pkt', 'forge', 'trunc', 'ceof', 'block', 'peof'], Budget=10)),
    'C03': (dict(Moves=EST + ['plain', 'peof', 'ceof', 'pkt'], Budget=7), dict(Moves=EST + ['plain', 'peof', 'ceof', 'pkt', 'block', 'trunc', 'rst'], Budget=9)),
    'C04': (dict(Moves=EST + ['badhs', 'plain', 'pkt', 'ceof'], Budget=7), dict(Moves=EST + ['badhs', 'plain', 'pkt', 'ceof', 'peof', 'block', 'rst'], Budget=9)),
    'C05': (dict(Moves=EST + ['badhs', 'one', 'pkt', 'plain'], Budget=6, Opts='O1'), dict(Moves=EST + ['badhs', 'one', 'pkt', 'plain', 'ceof'], Budget=8, Opts='O1')),
    'C06': (dict(Moves=EST + ['plain', 'block', 'badhs'], Budget=8), dict(Moves=EST + ['plain', 'block', 'badhs', 'pkt', 'rst'], Budget=9)),
    'C07': (dict(Moves=['conn', 'cok', 'cfail', 'hs', 'block', 'sync'], Budget=6, Horizon=3500, Lists='L2'),
            dict(Moves=['conn', 'cok', 'cfail', 'hs', 'block', 'sync', 'plain', 'pkt'], Budget=8, Horizon=4500, Lists='L2')),
    'C08': (dict(Moves=['conn', 'cok', 'cfail', 'rst', 'sig'], Budget=5, NC=3, MaxCs=[1, 2]),
            dict(Moves=['conn', 'cok', 'cfail', 'rst', 'sig', 'ceof'], Budget=8, NC=4, MaxCs=[1, 2, 3])),
    'C09': (dict(Moves=['conn', 'cok', 'cfail', 'rst', 'sig'], Budget=5, NC=2, MaxCs=[1, 2], Horizon=3500),
            dict(Moves=EST + ['rst', 'sig', 'ceof', 'peof'], Budget=8, NC=2, MaxCs=[1, 2], Horizon=4500)),
    'C10': (dict(Moves=EST + ['cfail', 'sync', 'rst', 'badhs', 'peof', 'ceof', 'sig'], Budget=6),
            dict(Moves=EST + ['cfail', 'sync', 'rst', 'badhs', 'forge', 'trunc', 'peof', 'ceof', 'plain', 'block', 'sig'], Budget=8)),
    'C11': (dict(Moves=['conn', 'cok', 'cfail', 'sync', 'rst'], Budget=5, NC=2, MaxCs=[2], Lists='L3'),
            dict(Moves=['conn', 'cok', 'cfail', 'sync', 'rst', 'hs'], Budget=9, NC=2, MaxCs=[1, 2], Lists='L3')),
    'C24': (dict(Moves=EST + ['plain', 'pkt'], Budget=6), dict(Moves=EST + ['plain', 'pkt', 'peof', 'rst'], Budget=8)),
}
# mistake -> property whose requirements it breaks, environment needed
TEETH = {
    'C01': [('lose', dict(Moves=EST + ['plain'])), ('short', dict(Moves=EST + ['pkt']))],
    'C02': [('accept', dict(Moves=EST + ['pkt', 'forge']))],
    'C03': [('early', dict(Moves=EST + ['plain', 'peof', 'block'])), ('how', dict(Moves=EST + ['peof'])), ('half2', dict(Moves=EST + ['peof', 'ceof'])),
            ('linger', dict(Moves=EST + ['peof', 'ceof'])), ('oneside', dict(Moves=EST + ['peof', 'ceof']))],
    'C04': [('eager', dict(Moves=EST + ['badhs'])), ('nomac', dict(Moves=EST + ['badhs'])), ('half', dict(Moves=EST + ['plain', 'badhs']))],
    'C05': [('nopfs', dict(Moves=EST, Opts='O1')), ('weak', dict(Moves=EST + ['one'], Opts='O1'))],
    'C06': [('nonce', dict(Moves=EST)), ('num0', dict(Moves=EST + ['plain'], Budget=8))],
    'C07': [(b, dict(Moves=EST, Horizon=3000)) for b in ('noctimer', 'nohtimer', 'htimer')],
    'C08': [(b, dict(Moves=['conn', 'cok', 'rst'], NC=2)) for b in ('noresume', 'limit')],
    'C09': [('noterm', dict(Moves=['conn', 'sig'], Horizon=3500)), ('keepacc', dict(Moves=['conn', 'cok', 'sig'], NC=2, MaxCs=[2], Horizon=3500)),
            ('abandon', dict(Moves=['conn', 'sig'], Horizon=3500)), ('status', dict(Moves=['conn', 'sig'], Horizon=3500)),
            ('deaf', dict(Moves=['conn', 'cok', 'hs', 'sig'], Horizon=3500))],
    'C10': [('fdleak', dict(Moves=['conn', 'cok', 'rst'])), ('hseof', dict(Moves=EST + ['ceof'])), ('noerr', dict(Moves=EST + ['rst']))],
    'C11': [('skip', dict(Moves=['conn', 'cok', 'cfail'], Lists='L2')), ('giveup', dict(Moves=['conn', 'cok', 'cfail'], Lists='L2'))],
    'C24': [('opt', dict(Moves=EST + ['plain']))],
}
LIVE = {'C01': ['Relayed'], 'C03': ['Ends'], 'C07': ['Bounded'], 'C09': ['Drains']}


def cfgtext(over, invs, extra=''):
    k = dict(BASE, **over)
    o = ['SPECIFICATION Spec', 'CONSTANTS']
    for n, v in k.items():
        if n in ('Lists', 'Opts'):
            o.append(' %s <- %s' % (n, v))
        elif isinstance(v, list):
            o.append(' %s = {%s}' % (n, ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in v)))
        else:
            o.append(' %s = %s' % (n, {True: 'TRUE', False: 'FALSE'}[v] if isinstance(v, bool) else '"%s"' % v if isinstance(v, str) else v))
    o += ['INVARIANT ' + i for i in invs] + ['CHECK_DEADLOCK FALSE', 'VIEW View', extra]
    return '\n'.join(o) + '\n'


def run(c, name, text, args=(), workers=8, timeout=800, module='Relay', heap='6g'):
    f = os.path.join(c.work, name + '.cfg')
    os.makedirs(c.work, exist_ok=True)
    open(f, 'w').write(text)
    try:
        rc, out = sim.tlc(['-workers', str(workers), '-config', f] + list(args) + [module + '.tla'], heap=heap, timeout=timeout,
                          meta=os.path.join(c.work, 'meta-' + name))
    except subprocess.TimeoutExpired:
        return None, ''
    return rc, out


INVS = ['Refines', 'Delivered', 'Secrecy', 'Limit', 'NoLate']


def model(c):
    """The design meets every requirement, of every property."""
    k = MODEL[c.pid][1 if c.full else 0]
    rc, out = run(c, 'model', cfgtext(k, INVS), timeout=3 * 3600 if c.full else 300)
    if rc is None:
        c.note(part='model', note='not finished in the time allowed')
        return
    if 'No error has been found' not in out:
        raise sim.CheckError('the design does not meet the specification:\n' + out[-3000:])
    gen, st = sim.stats(out)
    c.states += st
    c.trans += gen
    c.note(part='model', module='Relay', states=st, generated=gen, **{x.lower(): k[x] for x in ('Budget', 'Moves')})
    if c.full and c.pid in LIVE:
        k = dict(MODEL[c.pid][0], Budget=min(7, MODEL[c.pid][0]['Budget']))
        t = cfgtext(k, ['Refines'], '\n'.join('PROPERTY ' + x for x in LIVE[c.pid])).replace('VIEW View\n', '')
        rc, out = run(c, 'live', t, timeout=3 * 3600)
        if rc is not None and 'No error has been found' not in out:
            raise sim.CheckError('liveness of the design:\n' + out[-3000:])
        c.note(part='liveness', properties=LIVE[c.pid], states=sim.stats(out)[1])


TOK = re.compile(r'<< ?"MOVES", "(\w)", (\d), (\d), (\d+), (\d+), (<<(?: ?<<[^<>]*>>,?)* ?>>) ?>>')


def moves(text):
    return [tuple(re.findall(r'[\w=]+', m)) for m in re.findall(r'<<([^<>]*)>>', text)]


def script(mv):
    o = []
    for m in mv:
        if m[0] == 'work':
            o.append('run 1')
        elif m[0] == 'pw':
            o.append('pw %s %d' % (m[1], 512 * int(m[2])))
        elif m[0] == 'pk':
            o.append('pk %s n=%d' % (m[1], 512 * int(m[2])))
        elif m[0] == 'pkm':
            o.append('pk %s n=700 mut=%d bit=%d' % (m[1], len(o) * 97 % 1060, len(o) % 8))
        elif m[0] == 'pkt':
            o.append('pk %s n=33 trunc=%d' % (m[1], 1 + len(o) * 61 % 1059))
        elif m[0] in ('block', 'open'):
            o.append('%swin %s %s' % (m[2], m[1], '0' if m[0] == 'block' else 'inf'))
        elif m[0] == 'sig':
            o.append('sig TERM')
        elif m[0] == 'adv':
            o.append('adv 500')
        else:
            o.append(' '.join(m))
    # a run of program steps is one turn of the event loop
    r = []
    for x in o:
        if not (r and r[-1] == x and x in ('run 1', 'idle')):
            if x == 'idle' and r and r[-1] == 'run 1':
                r.pop()
            r.append(x)
    return r


def scen(id, mode, nopfs, reqpfs, maxc, na, mv):
    al = ['10.0.0.%d' % i for i in range(1, int(na) + 1)]
    from gen import finish
    n = sum(m[0] == 'conn' for m in mv)
    return sim.Scen(id, mode=mode, nopfs=int(nopfs), reqpfs=int(reqpfs), maxc=int(maxc), timeo=1, tgt='host:77', noresolve=True,
                    setup=['dns ' + ','.join(al)], cmds=script(mv) + ['idle'] + finish(n))


def generate(c, n, over, name='design'):
    """Scenarios from random behaviours of the design."""
    k = dict(NC=2, MaxCs=[1, 2], Lists='L12', Opts='O1', Budget=12, Horizon=2500, Hist=True, Moves=EST + ['cfail', 'badhs', 'one', 'plain',
             'pkt', 'forge', 'trunc', 'peof', 'ceof', 'rst', 'block', 'sig'])
    k.update(over)
    rc, out = run(c, name, cfgtext(k, ['Refines', 'Show']).replace('VIEW View\n', ''),
                  ['-simulate', 'num=%d' % -(-n // 4), '-depth', '400', '-seed', str(c.seed * 7919 + 11)], workers=4)
    if rc is None or 'Invariant' in out:
        raise sim.CheckError('simulating the design:\n' + (out or '')[-3000:])
    o = {}
    for m in TOK.finditer(re.sub(r'\s+', ' ', out)):
        mv = moves(m.group(6))
        o[re.sub(r'[>\s]+$', '', re.sub(r'\s+', ' ', m.group(0)))] = (m.group(1), m.group(2), m.group(3), m.group(4), m.group(5), mv)
    ks = sorted(o)          # only the longest of those which extend one another
    o = {a: o[a] for i, a in enumerate(ks) if i + 1 == len(ks) or not ks[i + 1].startswith(a)}
    return [scen('%s-%d' % (name, i), *o[x]) for i, x in enumerate(sorted(o))]


# which moves the simulated behaviours of each property concentrate on
FOCUS = {'C02': ['forge', 'trunc', 'pkt', 'plain'], 'C04': ['badhs', 'pkt', 'plain'], 'C05': ['one', 'badhs', 'pkt', 'plain'],
         'C07': ['cfail', 'badhs', 'block'], 'C08': ['cfail', 'rst', 'ceof', 'badhs'], 'C09': ['sig', 'rst', 'peof', 'ceof', 'cfail', 'badhs'],
         'C11': ['cfail', 'rst'], 'C03': ['peof', 'ceof', 'plain', 'pkt', 'block'], 'C01': ['plain', 'pkt', 'block', 'peof', 'ceof']}


def scenarios(c, n):
    """Behaviours of the design as scenarios: of everything, and of what matters most to this property."""
    over = [dict(), dict(Lead=1, Budget=13), dict(Lead=2, Budget=18, MaxCs=[2])]
    if c.pid in FOCUS:
        f = dict(Moves=EST + FOCUS[c.pid], Horizon=4000 if c.pid in ('C07', 'C09') else 2500, NC=3 if c.pid == 'C08' else 2,
                 Lists='L3' if c.pid == 'C11' else 'L12')
        over += [f] if c.pid in ('C07', 'C08', 'C11') else [dict(f, Lead=1, Budget=14)]
    out = []
    for i, o in enumerate(over):
        out += generate(c, n // len(over), o, 'design%d' % i)
    return out


def teeth(c):
    """Each mistake makes the requirements fail; how, as a scenario."""
    out, res, todo = [], [], []
    for b, over in TEETH.get(c.pid, []):
        k = dict(over, Bug=b, Enf=[c.pid], Hist=True)
        k.setdefault('Budget', 7)
        todo.append((b, cfgtext(k, ['Refines'])))
    for b, o in mistakes(c, 'Relay', todo):
        last = o[o.rfind('\nState '):]
        g = lambda r: re.search(r, last).group(1)
        mv = moves(re.search(r'/\\ h = (<<.*?>>)\n/\\', last, re.S).group(1) if re.search(r'/\\ h = (<<.*?>>)\n/\\', last, re.S) else '')
        na = len(re.findall(r'"', re.search(r'addrs \|-> (<<.*?>>)', last).group(1))) // 2
        out.append(scen('bug-' + b, g(r'mode \|-> "(\w)"'), g(r'nopfs \|-> (\d)'), g(r'reqpfs \|-> (\d)'), g(r'maxc \|-> (\d)'), na, mv))
        res.append('%s:%d' % (b, sim.stats(o)[1]))
    c.note(part='teeth', mistakes=' '.join(res))
    return out


# ------------------------------------------------------ background resolver
DNSTEETH = ['busy', 'sleepcancel', 'nocancel', 'join', 'noksig', 'norsig', 'ifwait', 'reset', 'nofree', 'nofd', 'latesignal', 'keepsas',
            'wakefirst', 'latepend', 'nokill', 'freelock', 'detach', 'nodetach']


def small(consts, invs, view=True, extra=''):
    o = ['SPECIFICATION Spec', 'CONSTANTS'] + [' %s %s' % x for x in consts] + ['INVARIANT ' + i for i in invs]
    return '\n'.join(o + (['VIEW View'] if view else []) + [extra]) + '\n'


def dnscfg(ns=1, ops='A4', own=1, faults=True, spurious=True, hist=False, bug='none'):
    b = lambda x: '= ' + ('TRUE' if x else 'FALSE')
    return [('NS', '= %d' % ns), ('Ops', '<- ' + ops), ('Own', '= %d' % own), ('Faults', b(faults)), ('Spurious', b(spurious)),
            ('Hist', b(hist)), ('Bug', '= "%s"' % bug)]


def dnsops(h):
    """What the user did, as a script of the driver."""
    o, last, inside = [], {}, None
    for w, s in h:
        s = int(s)
        if w == 's':
            o.append('s%d' % s)
        elif w in 'qk' and inside == s and s in last:
            i = last[s]
            o[i] = o[i][:-1] + {'n': {'q': 'q', 'k': 'k'}, 'q': {'q': 'q', 'k': 'd'}}.get(o[i][-1], {}).get(w, o[i][-1])
        elif w == 'q':
            last[s] = len(o)
            o.append('q%dn' % s)
        elif w == 'k':
            o.append('k%d' % s)
        elif w == 'r':
            last[s] = len(o)
            o.append('rn')
        elif w == 'cb':
            o.append('e')
        inside = s if w == 'cb' else None
    return ' '.join(o)


def mistakes(c, mod, todo):
    """TLC's output for designs each of which must be found wrong."""
    def go(x):
        rc, out = run(c, 'bug-' + x[0], x[1], module=mod, workers=1, heap='1g')
        if rc is None or not re.search('is violated|was violated|Deadlock reached', out):
            raise sim.CheckError('mistake %s is not noticed:\n%s' % (x[0], (out or '')[-2000:]))
        return x[0], out
    with cf.ThreadPoolExecutor(6) as ex:
        return list(ex.map(go, todo))


def dnsthread(c):
    """The resolver's design, its mistakes, and what its users do in both, for the driver."""
    import mods
    inv = ['Refines', 'Sound']
    tot = [0, 0]
    for nm, over, live in ([('dns', dict(ops='A5' if c.full else 'A4'), False), ('dns2', dict(ns=2, ops='A4' if c.full else 'A3'), False)]
                           + ([('dns3', dict(ns=2, ops='A5'), False)] if c.full else [])
                           + [('dnslive', dict(ops='A4' if c.full else 'A3', faults=False, spurious=False), True)]):
        rc, out = run(c, nm, small(dnscfg(**over), inv, not live, 'PROPERTY Ends' if live else ''), module='DnsThread',
                      timeout=2 * 3600 if c.full else 300)
        if rc is None:
            c.note(part=nm, note='not finished in the time allowed')
            continue
        if 'No error has been found' not in out:
            raise sim.CheckError('the design of the resolver is wrong:\n' + out[-3000:])
        gen, st = sim.stats(out)
        tot[0] += st
        tot[1] += gen
    c.states += tot[0]
    c.trans += tot[1]
    c.note(part='model', module='DnsThread', states=tot[0], generated=tot[1])
    ops, res = [], []
    for b, out in mistakes(c, 'DnsThread', [(b, small(dnscfg(bug=b, hist=True, spurious=b == 'ifwait', faults=False), inv)) for b in DNSTEETH]):
        last = out[out.rfind('\nState '):]
        ops.append(dnsops(moves(re.search(r'/\\ h = (.*)', last).group(1))))
        res.append('%s:%d' % (b, sim.stats(out)[1]))
    c.note(part='teeth', module='DnsThread', mistakes=' '.join(res))
    n = 400 if c.full else 60
    rc, out = run(c, 'dsim', small(dnscfg(ns=2, ops='A8', hist=True, faults=False), ['Refines', 'Sound', 'Show'], False),
                  ['-simulate', 'num=%d' % -(-n // 4), '-depth', '300', '-seed', str(c.seed * 7919 + 5)], workers=4, module='DnsThread')
    if rc is None or 'is violated' in out:
        raise sim.CheckError('simulating the design of the resolver:\n' + (out or '')[-3000:])
    for x in re.findall(r'<< ?"OPS", (<<(?: ?<<[^<>]*>>,?)* ?>>) ?>>', re.sub(r'\s+', ' ', out)):
        ops.append(dnsops(moves(x)))
    ops = sorted(set(x for x in ops if x))
    sc = []
    for i, o in enumerate(ops):
        sc.append('des%d 2 %d %d 0 %s' % (i, 0, 100000 if c.full else 300, o))
        sc.append('dem%d 2 1 %d %d %s' % (i, 2000 if c.full else 60, c.seed * 31 + i + 1, o))
    w = os.path.join(c.work, 'ddns')
    mods.dnscheck(c, sc, mods.dns_runs(c, sc, w), w)


# ------------------------------------------------------- designs of the parts
# property -> (module, configurations (name, constants, invariants, properties), [thorough ones], mistakes, constants for them)
PARTS = {
    'C18': ('Launch', [('one', [('Faults', '= 2')], ['Refines'], ['Returns'])], [('deep', [('Faults', '= 4')], ['Refines'], ['Returns'])],
            ['late', 'keepw', 'eofok', 'signal1', 'signal2', 'nosid', 'ppid', 'pidfail', 'forkfail', 'keyok', 'cloexec', 'fork'],
            [('Faults', '= 2')]),
}


def parts(c):
    """The design of a part meets its specification; each mistake in it does not."""
    mod, quick, deep, bugs, bc = PARTS[c.pid]
    tot = [0, 0]
    for nm, consts, invs, props in quick + (deep if c.full else []):
        rc, out = run(c, 'part-' + nm, small(consts + [('Bug', '= "none"')], invs, False, '\n'.join('PROPERTY ' + x for x in props)), module=mod,
                      timeout=2 * 3600 if c.full else 300)
        if rc is None:
            c.note(part=nm, note='not finished in the time allowed')
            continue
        if 'No error has been found' not in out:
            raise sim.CheckError('the design %s is wrong:\n%s' % (mod, out[-3000:]))
        gen, st = sim.stats(out)
        tot[0] += st
        tot[1] += gen
    c.states += tot[0]
    c.trans += tot[1]
    c.note(part='model', module=mod, states=tot[0], generated=tot[1])
    nm, consts, invs, props = quick[0]
    res = []
    for b, out in mistakes(c, mod, [(b, small(bc + [('Bug', '= "%s"' % b)], invs, False, '\n'.join('PROPERTY ' + x for x in props))) for b in bugs]):
        res.append('%s:%d' % (b, sim.stats(out)[1]))
    c.note(part='teeth', module=mod, mistakes=' '.join(res))


# ---------------------------------------------------------------- event loop
LOOPTEETH = {    # mistake: operations needed to see it
    'C12': dict(lifo='I', minq='I', nopos='NF', nohup='NF', intrkeep='IXO', rcignored='IH', intrignored='IX', eintrdrop='TX', stays='NF', netfirst='INF',
                nopoll0='NFO'),
    'C13': dict(noreset='TA', oversleep='T', early='TA', anydue='TA', twice='TA'),
}
LOOP = {    # operations: quick, thorough
    'C12': (dict(N=4, Kinds='INFXOH'), dict(N=5, Kinds='INTAFXOH')),
    'C13': (dict(N=5, Kinds='TAF', Ts=3, Fds=1), dict(N=6, Kinds='TAIFH', Ts=3, Fds=1, Is=1)),
}


def loopcfg(N=4, Kinds='INTAFXOH', Fds=2, Is=2, Ts=2, Ivs='0, 1, 3', Runs=2, hist=False, bug='none'):
    st = lambda n: '= {%s}' % ', '.join(str(i) for i in range(n))
    return [('Fds', st(Fds)), ('Is', st(Is)), ('Ts', st(Ts)), ('N', '= %d' % N), ('Kinds', '= {%s}' % ', '.join('"%s"' % k for k in Kinds)),
            ('Ivs', '= {%s}' % Ivs), ('Runs', '= %d' % Runs), ('Hist', '= %s' % str(hist).upper()), ('Bug', '= "%s"' % bug)]


def pairs(t):
    """A function printed by TLC with values which are sequences of strings, or numbers."""
    return {int(k): re.findall(r'"([^"]*)"', v) if v[0] == '<' else int(v) for k, v in re.findall(r'(-?\d+) :> (<<[^<>]*>>|-?\d+)', t)} or \
        dict(enumerate([re.findall(r'"([^"]*)"', v) if v[0] == '<' else int(v) for v in re.findall(r'<<[^<>]*>>|-?\d+', t.strip()[2:-2])], 1))


def loopscript(id, prog, rcs, blk):
    p, r = pairs(prog), pairs(rcs)
    o = [id, 'K:0:1']
    for k in sorted(x for x in p if x > 0):
        o += ['{', str(k), str(r.get(k, 0))] + p[k] + ['}']
    for k in sorted(x for x in r if x not in p and x > 0):
        o += ['{', str(k), str(r[k]), '}']
    return ' '.join(o + re.findall(r'"([^"]*)"', blk) + p.get(0, []) + ['R', 'R'])


def evloop(c):
    """The design of the event loop, its mistakes, and what handlers do in both, for the driver."""
    import mods
    k = LOOP[c.pid][1 if c.full else 0]
    inv = ['Refines', 'Sound']
    tot = [0, 0]
    for nm, over, live in [('loop', k, False), ('looplive', dict(N=3, Is=1, Ivs='0, 1', Kinds='INTAFXO', hist=False), True)][:2 if c.full else 1]:
        t = small(loopcfg(**over), inv, not live, 'CHECK_DEADLOCK FALSE' + ('\nPROPERTY Delivers' if live else ''))
        rc, out = run(c, nm, t.replace('SPECIFICATION Spec', 'SPECIFICATION Fair') if live else t, module='Loop', timeout=2 * 3600 if c.full else 400)
        if rc is None:
            c.note(part=nm, note='not finished in the time allowed')
            continue
        if 'No error has been found' not in out:
            raise sim.CheckError('the design of the event loop is wrong:\n' + out[-3000:])
        gen, st = sim.stats(out)
        tot[0] += st
        tot[1] += gen
    c.states += tot[0]
    c.trans += tot[1]
    c.note(part='model', module='Loop', states=tot[0], generated=tot[1], **k)
    sc, res = [], []
    nd = 'CHECK_DEADLOCK FALSE'
    for b, out in mistakes(c, 'Loop', [(b, small(loopcfg(bug=b, hist=True, N=4, Kinds=k), ['Refines'], True, nd))
                                       for b, k in LOOPTEETH[c.pid].items()]):
        last = re.sub(r'\s+', ' ', out[out.rfind('\nState '):])
        m = re.search(r'prog \|-> (.*?), who \|-> .*?, rcs \|-> (.*?), blk \|-> (.*?), cnt', last)
        sc.append(loopscript('bug-' + b, *m.groups()))
        res.append('%s:%d' % (b, sim.stats(out)[1]))
    c.note(part='teeth', module='Loop', mistakes=' '.join(res))
    n = 40000 if c.full else 3000
    for i, over in enumerate([dict(N=12, Runs=4, Ts=3, Ivs='0, 1, 2, 5'), dict(k, N=10, Runs=3), dict(k, N=6)]):
        rc, out = run(c, 'lsim%d' % i, small(loopcfg(**dict(over, hist=True)), ['Refines', 'Show'], False, nd),
                      ['-simulate', 'num=%d' % -(-n // 12), '-depth', '300', '-seed', str(c.seed * 7919 + 5 + i)], workers=4, module='Loop')
        if rc is None or 'is violated' in out:
            raise sim.CheckError('simulating the design of the event loop:\n' + (out or '')[-3000:])
        l = re.findall(r'<< ?"OPS", (.*?) ?>> (?=<< ?"OPS"|[A-Z])', re.sub(r'\s+', ' ', out) + ' END')
        for x in sorted(set(l)):
            m = re.fullmatch(r'(\(.*?\)|<<.*?>>), (\(.*?\)|<<[^<>]*>>), (<<[^<>]*>>)', x)
            if m:
                sc.append(loopscript('sim%d' % len(sc), *m.groups()))
    mods.modcheck(c, 'EventLoop', 'ev', 'design', sc, [c.pid], syms=mods.EVSYMS)
