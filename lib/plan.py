"""What each check runs."""
import os, random, json
import build, sim, fam, gen, mods, design

ASSUME = [
    'the simulated operating system (harness/simos.c) behaves as POSIX sockets, clocks and threads do',
    'OpenSSL\'s SHA256, AES and BN (used by the reference peer) are right',
    'data-independent behaviour: payload bytes are distinguishable patterns, so position and origin are observed exactly',
]

# property -> families, random profiles: (name, quick, thorough)
DAEMON = {
    'C01': (['sizes', 'splits', 'multi'], [('data', 250, 6000), ('fault', 40, 1500)]),
    'C02': (['forge'], [('attack', 300, 6000)]),
    'C03': (['eof'], [('life', 200, 5000), ('data', 100, 3000)]),
    'C04': (['hs'], [('attack', 250, 5000), ('time', 60, 1500)]),
    'C05': (['pfs'], [('attack', 150, 4000)]),
    'C06': (['proto', 'hs'], [('data', 100, 4000)]),
    'C07': (['timeo'], [('time', 250, 6000)]),
    'C08': (['limit', 'ends'], [('limit', 350, 6000)]),
    'C09': (['term', 'ends'], [('term', 300, 6000)]),
    'C10': (['fault', 'ends'], [('fault', 250, 6000), ('life', 150, 4000)]),
    'C11': (['dns'], [('life', 80, 2000)]),
    'C20': (['priv'], []),
    'C21': (['rnd'], []),
    'C22': (['addr'], []),
    'C23': (['key'], []),
    'C24': (['opt'], [('data', 60, 2000)]),
}
ASAN = {'C10', 'C11', 'C01', 'C03'}


def to_trace(s, ev):
    o, n = sim.normalise(s, ev)
    return dict(id=s.id, n=n, cfg=s.cfg(), ev=o)


def saved(s):
    return {k: (v.hex() if isinstance(v, bytes) else v) for k, v in s.__dict__.items()}


def load(d):
    d = dict(d)
    d['key'] = bytes.fromhex(d['key'])
    meta = d.pop('meta')
    return sim.Scen(**d, **meta)


def explain(e, raw):
    if e['e'] in sim.CRASH or e['e'] == 'Died':
        return 'the program did not survive: %s' % e
    return 'event not allowed by the specification: %s' % json.dumps(e)[:400]


def daemon(c, name, scens, variant='plain', props=None):
    """Record the scenarios on the real program and check every trace."""
    exe = build.sim(c.build, 'spiped', variant)
    w = os.path.join(c.work, 'rec')
    props = props or [c.pid]
    for i in range(0, len(scens), 1500):
        part = scens[i:i + 1500]
        rec = sim.record(exe, part, w)
        tr = [to_trace(s, ev) for s, ev in rec]
        rej, st = sim.check('Spiped', props, tr, os.path.join(c.work, 'chk'))
        ne = sum(len(t['ev']) for t in tr)
        c.states += st
        c.trans += max(0, st - len(tr))
        c.traces += len(tr) - len(rej)
        c.events += ne
        if len(c.samples) < 4 and tr:
            k = random.Random(c.seed).randrange(len(tr))
            c.samples.append(dict(scenario=tr[k]['id'], args=rec[k][0].args('KEY', 'PID')[1:], script=';'.join(rec[k][0].cmds)[:400],
                                  trace=[x['e'] for x in tr[k]['ev']][:60]))
        c.note(part=name, variant=variant, scenarios=len(tr), events=ne, states=st, rejected=len(rej))
        for j, p in sorted(rej.items()):
            s = rec[j][0]
            if len(c.viol) < 8:     # the rejection must be reproducible
                again = sim.record(exe, [s], w)[0]
                t2 = to_trace(s, again[1])
                r2, _ = sim.check('Spiped', props, [t2], os.path.join(c.work, 'chk'))
                if not r2:
                    c.note(part=name, unconfirmed=s.id)
                    continue
                t, p = t2, r2[0]
            else:
                t = tr[j]
            e = t['ev'][p - 1]
            c.violation(s.id, explain(e, None), dict(kind='daemon', variant=variant, props=props, scen=saved(s), position=p, event=e,
                                                     before=t['ev'][max(0, p - 15):p - 1]))
        if len(c.viol) >= 20:
            return


def run(c):
    if c.pid in DAEMON:
        fams, profs = DAEMON[c.pid]
        v = 'asan' if c.pid in ASAN else 'plain'
        for f in fams:
            daemon(c, f, fam.family(f, c.seed, c.full), v)
            if c.viol:
                return
        for p, q, t in profs:
            n = t if c.full else q
            base = c.seed * 1000003
            daemon(c, p, [gen.rand('%s-%d' % (p, base + i), base + i, p) for i in range(n)], v)
            if c.viol:
                return
    if c.pid in design.MODEL:
        v = 'asan' if c.pid in ASAN else 'plain'
        design.model(c)
        daemon(c, 'mistakes', design.teeth(c), v)
        daemon(c, 'design', design.scenarios(c, 4000 if c.full else 240), v)
    for f in EXTRA.get(c.pid, []):
        if c.viol:
            return
        f(c)


def variants(fams):
    """The same families with the other implementations of the ciphers."""
    def f(c):
        for v in ('sse2', 'portable'):
            for x in fams:
                daemon(c, '%s/%s' % (x, v), fam.family(x, c.seed, c.full), v)
    return f


CLIPROPS = ['C05', 'C07', 'C08', 'C11', 'C19', 'C20', 'C22', 'C24']


def climeaning(c):
    """Options in every order and form mean what the specification says."""
    sc = []
    for f in ('timeo', 'limit', 'opt', 'pfs', 'addr', 'dns', 'priv'):
        l = [s for s in fam.family(f, c.seed, False) if s.argv is None and s.key == sim.KEY]
        r = random.Random(c.seed * 7 + len(f))
        sc += l if c.full else r.sample(l, min(len(l), 45))
    for i in range(3000 if c.full else 60):
        k = c.seed * 1000003 + i
        sc.append(gen.rand('cli-%d' % k, k, random.Random(k).choice(['time', 'limit', 'attack', 'life'])))
    means = []
    for s in sc:
        r = random.Random('r' + s.id)
        std = s.args('@KEY@', '@PID@')
        o = []
        for w in std[1:]:
            if w[0] == '-' and len(w) == 2 and not (o and o[-1][1] == ''):
                o.append([w[1], ''] if w[1] in 'bknoprstu' else [w[1], None])
            else:
                o[-1][1] = w
        r.shuffle(o)
        av = mods.cli_words(r, [tuple(x) for x in o])
        s.argv = ['spiped'] + av
        m = dict(mode=s.mode, nopfs=s.nopfs, reqpfs=s.reqpfs, ka=s.ka, maxc=100 if s.maxc is None else s.maxc,
                 timeo=int(round(float(5 if s.timeo is None else s.timeo) * 1000)),
                 rtime=0 if s.noresolve else int(round(float(60 if s.rtime is None else s.rtime) * 1000)),
                 src=s.src, tgt=s.tgt, bind=s.bind or '-', user='-' if s.user is None else s.user)
        if all(__import__('re').fullmatch(r'[0-9]{1,5}(\.[0-9]{1,3})?', str(x)) for x in (s.timeo or 5, s.rtime or 60, s.maxc or 1)):
            means.append(dict(id=s.id, ev=[dict(e='Means', argv=av, cfg=m)]))
    rej, st = sim.check('Cli', [], means, os.path.join(c.work, 'chk'))
    if rej:
        raise sim.CheckError('rendering and specification disagree: %s' % means[min(rej)])
    c.states += st
    daemon(c, 'rendered', sc, 'plain', CLIPROPS)


EXTRA = {
    'C23': [variants(['key'])],
    'C01': [variants(['sizes'])],
    'C02': [mods.crypt],
    'C04': [mods.crypt],
    'C05': [mods.crypt],
    'C06': [mods.crypt, variants(['proto'])],
    'C12': [mods.eventloop, design.evloop],
    'C13': [mods.eventloop, design.evloop],
    'C14': [mods.netio],
    'C15': [mods.netio],
    'C16': [mods.dnsthread, design.dnsthread],
    'C17': [mods.spipe],
    'C18': [mods.daemonize, design.parts],
    'C19': [mods.cli, climeaning],
}
MODTECH = 'TLA+ specification (%s.tla) checked with TLC; traces of the real %s, driven by generated scripts over simulated %s, validated against it'
MODNOTE = ('Every recorded execution is accepted by the specification with this property\'s requirements enforced; bounded to the '
           'scripts explored (seeded random). Trusts the driver (%s) and the simulated system calls.')
TECH = {}
NOTE = {}
for _i in ('C12', 'C13'):
    TECH[_i] = MODTECH % ('EventLoop', 'libcperciva/events', 'clock and poll') + (
        '; TLA+ design of the loop (Loop.tla) model checked against it, its behaviours and mistakes replayed to the driver')
    NOTE[_i] = MODNOTE % 'harness/ev.c'
for _i in ('C14', 'C15'):
    TECH[_i] = MODTECH % ('NetIO', 'libcperciva/network and netbuf', 'sockets, clock and poll')
    NOTE[_i] = MODNOTE % 'harness/net.c'

TECH['C16'] = ('TLA+ specifications (DnsReq.tla: what users may see; DnsThread.tla: the design, model checked against it, with its mistakes) checked with TLC; traces of the real lib/dnsthread, run under a scheduler through all thread '
               'schedules with a bounded number of preemptions, validated against it')
NOTE['C16'] = ('All schedules with up to 2 preemptions at system calls and 1 at memory accesses (quick; 3 and 2 thorough) of a family of request '
               'sequences, and random schedules of random sequences; sequentially consistent memory, with data races reported. Trusts harness/dnst.c.')

TECH['C17'] = ('TLA+ specification (Spipe.tla) checked with TLC; traces of the real spipe program, running as a process between pipes and a '
               'reference peer, validated against it')
NOTE['C17'] = ('Directed and seeded random scripts of input, output, peer and failure events; real threads and processes, with short transfers, '
               'interruptions, delays and errors injected into read and write of the copying threads. Trusts harness/spipe_drv.c.')

TECH['C18'] = ('TLA+ specification (Daemonize.tla) checked with TLC; traces of the real spiped daemonizing, with every system call of both '
               'processes failed, interrupted, delayed or killed at in turn, validated against it')
NOTE['C18'] = ('Exhaustive over single faults (one system call of one process fails, is interrupted, delayed, or its process is killed before or after it) '
               'for each start-up configuration. Real processes. Trusts harness/dmn.c.')

TECH['C19'] = ('TLA+ specification of the command line (Cli.tla: option scanning, values, contradictions, settings) evaluated by TLC on command '
               'lines given to the real programs; and traces of the real spiped started with differently rendered options validated against Spiped.tla')
NOTE['C19'] = ('Directed (every bad and good value in every place) and seeded random command lines of both programs. What the manual does not '
               'say is left free. Trusts harness/cli.c and the simulated operating system.')


def replay(c, d):
    if d['kind'] == 'daemon':
        daemon(c, 'replay', [load(d['scen'])], d['variant'], d.get('props'))
    elif d['kind'] == 'mod':
        mods.replay(c, d)
    elif d['kind'] == 'dns':
        mods.dnsreplay(c, d)
