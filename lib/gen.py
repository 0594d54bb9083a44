"""Scenario families for the daemon (environment behaviours of Spiped.tla)."""
import random, itertools, re
from sim import Scen

SIZES = [1, 2, 3, 100, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 16384, 20000]
SYNC_ERR = ['ECONNREFUSED', 'ENETUNREACH', 'EHOSTUNREACH', 'EADDRNOTAVAIL', 'EACCES', 'ETIMEDOUT', 'ENETDOWN', 'EPERM', 'ENOBUFS', 'EINVAL']
LATE_ERR = ['ECONNREFUSED', 'ENETUNREACH', 'EHOSTUNREACH', 'ETIMEDOUT', 'ECONNRESET', 'EADDRNOTAVAIL', 'ENETDOWN', 'EPERM', 'EIO']


def hs(c, mode='e', okfirst=True, hn='', hd=''):
    return ['conn', 'idle', 'cok %d' % c, ('hn %d %s' % (c, hn)).strip(), ('hd %d %s' % (c, hd)).strip(), 'idle']


def finish(n):
    o = []
    for c in range(n):
        o += ['pwin %d inf' % c, 'cwin %d inf' % c, 'prel %d all' % c, 'crel %d all' % c, 'cok %d' % c]
    o += ['idle']
    for c in range(n):
        o += ['peof %d' % c, 'ceof %d' % c]
    o += ['idle', 'sig TERM', 'adv 4000', 'idle']
    for c in range(n):
        o += ['prst %d' % c, 'crst %d' % c]
    o += ['idle', 'adv 2500']
    return o


PROFILES = {
    # weights of environment actions
    'data': dict(conn=2, cok=4, hs=6, pk=10, pw=10, peof=1, ceof=1, win=3, hold=3, cap=2, run=12, idle=4, adv=1,
                 eintr=1, rst=0.3, maxconn=3),
    'attack': dict(conn=3, cok=4, hs=4, badhs=4, pk=8, badpk=4, raw=1, pw=6, peof=1, ceof=1, win=1.5, hold=2, cap=1,
                   run=12, idle=3, adv=1, maxconn=4),
    'life': dict(conn=5, cok=5, cfail=2, hs=5, badhs=0.7, pk=4, badpk=0.5, pw=4, peof=3, ceof=3, win=1, rst=2, run=12,
                 idle=4, adv=3, eintr=0.7, maxconn=8),
    'limit': dict(conn=8, cok=5, cfail=2, hs=4, peof=4, ceof=4, rst=2, pw=2, pk=2, run=10, idle=5, adv=2, maxconn=12),
    'time': dict(conn=4, cok=3, cfail=1, hs=3, hn=2, pw=2, pk=2, peof=1, ceof=1, run=8, idle=3, adv=12, eintr=1,
                 hold=2, win=1, maxconn=5),
    'term': dict(conn=5, cok=4, cfail=1.5, badhs=0.5, badpk=0.3, hs=5, pk=4, pw=4, peof=3, ceof=3, rst=1, run=8, idle=4, adv=5, sig=2, maxconn=6),
    'fault': dict(conn=4, cok=5, cfail=1, hs=6, pk=6, pw=6, peof=2, ceof=2, win=1, rst=1, fault=2.5, run=12, idle=4,
                  adv=2, maxconn=6),
}


def errs(r, cm):
    """Connection attempts fail in every way they can."""
    return [x + ' ' + r.choice(LATE_ERR) if re.fullmatch(r'cfail \d+', x) else x for x in cm]


def rand(id, seed, profile, **kw):
    r = random.Random('%s-%s' % (profile, seed))
    w = PROFILES[profile]
    ops, wt = zip(*[(k, v) for k, v in w.items() if k != 'maxconn'])
    mode = r.choice('ed')
    p = dict(mode=mode, seed=seed % 100000 + 1)
    if r.random() < 0.25: p['nopfs'] = 1
    elif r.random() < 0.25: p['reqpfs'] = 1
    if r.random() < 0.2: p['ka'] = 0
    if profile in ('time', 'life') or r.random() < 0.3:
        p['timeo'] = r.choice([0.5, 1, 2, 2.5, 7, 30, None])
    if profile == 'limit':
        p['maxc'] = r.choice([1, 1, 2, 3, 5, 0, None])
    elif r.random() < 0.3:
        p['maxc'] = r.choice([1, 2, 3, 0])
    if r.random() < 0.2:
        p['src'] = r.choice(['/tmp/spiped-sim.sock', '[::1]:9', '[127.0.0.1]:80'])
    if r.random() < 0.3:
        p['tgt'] = r.choice(['/tmp/tgt.sock', '[::1]:22', '[192.0.2.7]:443'])
    setup = ['rndnote'] and []
    cm = []
    if r.random() < 0.5:
        setup.append('cdefault ' + r.choice(['imm', 'auto', 'pend']))
    nc = 0
    for i in range(r.randint(8, 70)):
        op = r.choices(ops, wt)[0]
        c = r.randrange(nc) if nc else 0
        if op == 'conn' or nc == 0:
            if nc < w['maxconn']:
                cm.append('conn')
                nc += 1
        elif op == 'cok':
            cm.append('cok %d' % c)
        elif op == 'cfail':
            cm.append('cfail %d' % c if r.random() < .6 else 'cmode ' + r.choice(SYNC_ERR + ['late' + x for x in SYNC_ERR]))
        elif op == 'hs':
            v = ''
            if r.random() < 0.3:
                v = ' y=' + r.choice(['one', 'zero', 'two', 'lz', 'pm1'] if profile == 'data' else ['one', 'two', 'one'])
            if r.random() < 0.5:
                cm += ['hn %d' % c, 'hd %d%s' % (c, v)]
            else:
                cm += ['cok %d' % c, 'hn %d' % c] + (['run %d' % r.randint(1, 4)] if r.random() < .5 else []) + \
                    ['hd %d%s%s' % (c, v, ' early' if r.random() < .2 else '')]
        elif op == 'hn':
            cm.append('hn %d' % c)
        elif op == 'badhs':
            k = r.randrange(9)
            cm.append('cok %d' % c)
            if k == 0:
                cm += ['hn %d mut=%d bit=%d' % (c, r.randrange(32), r.randrange(8)), 'hd %d' % c]
            elif k == 1:
                cm += ['hn %d' % c, 'hd %d mut=%d bit=%d' % (c, r.randrange(288), r.randrange(8))]
            elif k == 2:
                cm += ['hn %d reflect' % c, 'hd %d reflect' % c]
            elif k == 3:
                cm += ['hn %d' % c, 'hd %d samerole' % c]
            elif k == 4:
                cm += ['hn %d' % c, 'hd %d key=wrong' % c]
            elif k == 5:
                cm += ['hn %d' % c, 'hd %d y=%s' % (c, r.choice(['p', 'pp1', 'max']))]
            elif k == 6:
                o = r.randrange(nc)
                cm += ['hn %d replay=%d' % (c, o), 'hd %d replay=%d' % (c, o)]
            elif k == 7:
                cm += ['hn %d trunc=%d' % (c, r.randrange(32)), 'ceof %d' % c]
            else:
                cm += ['hn %d' % c, 'hd %d trunc=%d' % (c, r.randrange(288))] + \
                    (['ceof %d' % c] if r.random() < .5 else ['raw %d n=400' % c])
        elif op == 'pk':
            for _ in range(r.choice([1, 1, 1, 2, 3, 9, 12])):
                cm.append('pk %d n=%d' % (c, r.choice([1, 2, 10, 512, 1023, 1024, 1024, r.randint(1, 1024)])))
        elif op == 'badpk':
            k = r.randrange(9)
            cm.append({0: 'pk %d n=7 mut=%d bit=%d' % (c, r.randrange(1060), r.randrange(8)),
                       1: 'pk %d replay=%d' % (c, r.randrange(4)),
                       2: 'pk %d reflect=%d' % (c, r.randrange(3)),
                       3: 'pk %d n=9 drop' % c,
                       4: 'pk %d n=20 num=%d' % (c, r.randrange(6)),
                       5: 'pk %d n=20 wrongdir' % c,
                       6: 'pk %d xconn=%d i=%d' % (c, r.randrange(nc), r.randrange(3)),
                       7: 'pk %d n=33 trunc=%d' % (c, r.randrange(1, 1060)),
                       8: 'pk %d n=10 lf=%s' % (c, r.choice(['0', '1025', '1028', '0x80000001', '0xffffffff', '0x400']))}[k])
            if k == 8 and cm[-1].endswith('0x400'):
                cm[-1] = 'pk %d n=1024' % c
        elif op == 'raw':
            cm.append('raw %d n=%d' % (c, r.choice([1, 31, 32, 33, 288, 1060, 2000])))
        elif op == 'pw':
            cm.append('pw %d %d' % (c, r.choice(SIZES)))
        elif op in ('peof', 'ceof'):
            cm.append('%s %d' % (op, c))
        elif op == 'win':
            k = r.choice(['pwin', 'cwin'])
            cm.append('%s %d %s' % (k, c, r.choice(['0', '0', 'inf', 'inf', '1', '500', '1060', '1061', '8480'])))
        elif op == 'hold':
            k = r.choice('pc')
            cm.append(r.choice(['%shold %d' % (k, c), '%srel %d %d' % (k, c, r.choice([1, 31, 32, 288, 289, 1059, 1060, 1061, 3000])),
                                '%srel %d all' % (k, c)]))
        elif op == 'cap':
            cm.append('%s %d %d' % (r.choice(['prcap', 'crcap', 'pwcap', 'cwcap']), c,
                                    r.choice([0, 31, 64, 287, 512, 1059, 1060, 1061, 4000])))
        elif op == 'rst':
            cm.append('%s %d%s' % (r.choice(['prst', 'crst']), c, r.choice(['', ' 1'])))
        elif op == 'run':
            cm.append('run %d' % r.choice([1, 1, 1, 2, 3, 5]))
        elif op == 'idle':
            cm.append('idle')
        elif op == 'adv':
            cm.append('%s %s' % ('adv' if r.random() < .85 else 'jump', r.choice([1, 100, 499, 500, 999, 1000, 1001, 2000, 2499, 4900, 5100, 12000])))
            cm.append('idle')
        elif op == 'eintr':
            cm.append('eintr')
        elif op == 'sig':
            cm.append('sig TERM')
            if r.random() < .6:
                cm.append('adv 3500')
        elif op == 'fault':
            f = r.choice(['recv', 'send', 'recv', 'send', 'shutdown', 'close', 'socket', 'fcntl', 'accept',
                          'keepalive', 'nodelay', 'bind'])
            e = {'recv': ['EAGAIN', 'EINTR', 'ECONNRESET', 'ETIMEDOUT'],
                 'send': ['EAGAIN', 'EINTR', 'ECONNRESET', 'EPIPE', 'ETIMEDOUT'],
                 'shutdown': ['ENOTCONN', 'ECONNRESET', 'ENOBUFS'], 'close': ['EINTR', 'EIO', 'ECONNRESET'],
                 'socket': ['EMFILE', 'ENFILE', 'ENOBUFS'], 'fcntl': ['EINVAL'],
                 'accept': ['EAGAIN', 'EINTR', 'ECONNABORTED'], 'keepalive': ['ENOPROTOOPT', 'EINVAL'],
                 'nodelay': ['ENOPROTOOPT', 'EINVAL'], 'bind': ['EADDRINUSE']}[f]
            cm.append('fault %s %d %s' % (f, r.randrange(4), r.choice(e)))
    cm += finish(nc)
    if r.random() < 0.2:
        p['bind'] = r.choice(['[127.0.0.1]', '[127.0.0.9]:0'])
    p.update(kw)
    return Scen(id, setup=setup, cmds=errs(r, cm), **p)
