"""Directed scenario families, by property, and the mix each check runs."""
import itertools, random
from sim import Scen
from gen import hs, finish, rand, errs, SYNC_ERR

CFGS = [dict(mode=m, nopfs=f, reqpfs=g) for m in 'ed' for f, g in ((0, 0), (1, 0), (0, 1))]


def up(c=0, hd=''):
    """A connection with its handshake done."""
    return ['conn', 'idle', 'cok %d' % c, 'hn %d' % c, ('hd %d %s' % (c, hd)).strip(), 'idle']


def term():
    return ['sig TERM', 'adv 2500', 'idle']


class Fam:
    def __init__(self, name):
        self.name, self.out = name, []

    def add(self, cmds, **kw):
        i = '%s-%d' % (self.name, len(self.out))
        r = random.Random(i)
        if r.random() < .15 and not set(kw) & {'bind', 'argv', 'ka'}:     # options which must not matter
            kw['bind'] = r.choice(['[127.0.0.1]', '[127.0.0.9]:0'])
        elif r.random() < .1 and not set(kw) & {'argv', 'ka'}:
            kw['ka'] = 0
        self.out.append(Scen(i, cmds=errs(r, cmds), **kw))


def f_sizes(r, full):
    """Exact payload sizes around the packet and buffer boundaries, both ways."""
    F = Fam('sizes')
    S = [1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 8480, 16384, 16385]
    for m in 'ed':
        for n in S:
            F.add(up() + ['pw 0 %d' % n, 'idle', 'pw 0 1', 'idle', 'peof 0', 'idle', 'ceof 0', 'idle'] + term(), mode=m)
            k, rest = divmod(n, 1024)
            F.add(up() + ['chold 0'] + ['pk 0 n=1024'] * k + (['pk 0 n=%d' % rest] if rest else []) +
                  ['crel 0 %d' % r.choice([1, 500, 1059, 1060, 1061, 2119, 8480, 8481]), 'idle', 'crel 0 all', 'idle',
                   'pk 0 n=1', 'idle', 'ceof 0', 'idle', 'peof 0', 'idle'] + term(), mode=m)
    for m in 'ed':
        for w in [1, 31, 32, 33, 288, 319, 320, 321, 1059, 1060, 1061, 2120, 8479, 8480, 8481]:
            # output blocked after w bytes, then opened bit by bit
            F.add(['conn', 'idle', 'cok 0', 'cwin 0 0', 'cwin 0 %d' % w, 'hn 0', 'hd 0', 'idle', 'pw 0 9000', 'idle', 'cwin 0 100',
                   'idle', 'cwin 0 3000', 'idle', 'cwin 0 inf', 'idle', 'peof 0', 'ceof 0', 'idle'] + term(), mode=m)
            F.add(up() + ['pwin 0 0', 'pwin 0 %d' % w] + ['pk 0 n=%d' % x for x in (1024, 700, 1, 1024, 33)] +
                  ['idle', 'pwin 0 1', 'idle', 'ceof 0', 'idle', 'pwin 0 1200', 'idle', 'pwin 0 inf', 'idle', 'peof 0',
                   'idle'] + term(), mode=m)
    n = 40 if full else 6
    for i in range(n):  # long transfers
        m = r.choice('ed')
        F.add(up() + [x for _ in range(r.choice([5, 30, 60])) for x in
                      ['pw 0 %d' % r.choice([1, 1024, 5000, 9000])] + ['pk 0 n=%d' % r.choice([1, 1000, 1024])] * r.randint(1, 6) +
                      r.choice([['run 1'], ['run 2'], ['idle'], []])] + ['idle', 'peof 0', 'ceof 0', 'idle'] + term(), mode=m)
    return F.out


def f_splits(r, full):
    """The encrypted stream arriving in pieces which end at or beside frame boundaries."""
    F = Fam('splits')
    for m in 'ed':
        for k, p in itertools.product((1, 2, 3, 4, 7, 8) if full else (1, 3, 7), (1, 2, 1059)):
            F.add(up() + ['chold 0'] + ['pk 0 n=%d' % r.choice([1, 600, 1024]) for _ in range(k + 4)] +
                  ['crel 0 %d' % (1060 * k + p), 'idle', 'crel 0 1060', 'idle', 'crel 0 all', 'idle', 'ceof 0', 'idle', 'peof 0', 'idle'] + term(), mode=m)
        for i in range(30 if full else 5):
            n, o = 0, ['chold 0']
            N = r.choice([20, 40, 60])
            o += ['pk 0 n=%d' % r.choice([1, 600, 1024]) for _ in range(N)]
            while n < 1060 * N:
                to = 1060 * (n // 1060 + r.choice([0, 1, 1, 2, 3, 4, 8])) + r.choice([0, 1, 1, 2, 5, 530, 1058, 1059])
                if to > n:
                    o += ['crel 0 %d' % (to - n), r.choice(['idle', 'idle', 'run 1'])]
                    n = to
            F.add(up() + o + ['crel 0 all', 'idle', 'ceof 0', 'peof 0', 'idle'] + term(), mode=m)
    return F.out


def f_twoconn(r, full):
    """Data on several connections never mixes."""
    F = Fam('multi')
    for i in range(60 if full else 12):
        n = r.choice([2, 3, 5])
        cm = []
        for c in range(n):
            cm += up(c)
        for _ in range(r.randint(10, 40)):
            c = r.randrange(n)
            cm += [r.choice(['pw %d %d' % (c, r.choice([1, 100, 1024, 3000])), 'pk %d n=%d' % (c, r.choice([1, 500, 1024])),
                             'run 1', 'run 2', 'idle', 'pwin %d 0' % c, 'pwin %d inf' % c, 'cwin %d 0' % c, 'cwin %d inf' % c,
                             'peof %d' % c, 'ceof %d' % c])]
        F.add(cm + finish(n), mode=r.choice('ed'))
    return F.out


FORGE = ['pk 0 n=50 mut=%d bit=%d', 'pk 0 replay=%d', 'pk 0 reflect=%d', 'pk 0 n=9 drop', 'pk 0 n=20 num=%d',
         'pk 0 n=20 wrongdir', 'pk 0 xconn=1 i=0', 'pk 0 n=10 lf=%s', 'raw 0 n=1060']


def f_forge(r, full):
    """Every kind of forgery after 0..k authentic packets, alone or in one
    batch with good packets before and after it."""
    F = Fam('forge')
    kinds = ['mut%d' % i for i in (0, 1, 511, 1020, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1040, 1043, 1058, 1059)]
    kinds += ['replay', 'replay1', 'reflect', 'drop', 'num', 'num0', 'numbig', 'wrongdir', 'xconn', 'raw', 'trunc', 'swap',
              'lf0', 'lf1025', 'lf1028', 'lf0x80000001', 'lf0xffffffff', 'lf0x10000', 'lf0x01000000', 'key', 'samerole']
    if full:
        kinds += ['mut%d' % i for i in range(2, 1060, 17)]
    for m, kind, k, batch in itertools.product('ed', kinds, (0, 1, 3), (0, 1, 2)):
        if not full and r.random() > 0.34:
            continue
        good = ['pk 0 n=%d' % r.choice([1, 600, 1024]) for _ in range(k)]
        if kind.startswith('mut'):
            bad = ['pk 0 n=%d mut=%s bit=%d' % (r.choice([1, 50, 1024]), kind[3:], r.randrange(8))]
        elif kind == 'replay': bad = ['pk 0 replay=%d' % max(0, k - 1)]
        elif kind == 'replay1': bad = ['pk 0 replay=0']
        elif kind == 'reflect': bad = ['pk 0 reflect=0']
        elif kind == 'drop': bad = ['pk 0 n=9 drop', 'pk 0 n=9']
        elif kind == 'num': bad = ['pk 0 n=20 num=%d' % (k + 1)]
        elif kind == 'num0': bad = ['pk 0 n=20 num=%d' % (0 if k else 7)]
        elif kind == 'numbig': bad = ['pk 0 n=20 num=%d' % (k + 256)]
        elif kind == 'wrongdir': bad = ['pk 0 n=20 wrongdir']
        elif kind == 'xconn': bad = ['pk 0 xconn=1 i=0']
        elif kind == 'raw': bad = ['raw 0 n=1060']
        elif kind == 'trunc': bad = ['pk 0 n=33 trunc=%d' % r.randrange(1, 1060), 'pk 0 n=40', 'pk 0 n=40']
        elif kind == 'swap': bad = ['pk 0 n=20 num=%d' % (k + 1), 'pk 0 n=21 num=%d' % k]
        elif kind.startswith('lf'): bad = ['pk 0 n=10 lf=' + kind[2:]]
        elif kind == 'key': bad = ['pk 0 n=12 mut=900 bit=3', 'pk 0 n=12 mut=1050 bit=1']
        else: bad = ['pk 0 n=77 mut=1028 bit=0']
        after = ['pk 0 n=5', 'pk 0 n=1024']
        pre = up(0) + up(1) + ['pw 0 500', 'pw 1 20', 'pk 1 n=8', 'idle']
        if batch == 0:
            cm = pre + good + ['idle'] + bad + ['idle'] + after
        elif batch == 1:
            cm = pre + ['chold 0'] + good + bad + after + ['crel 0 all']
        else:
            cm = pre + ['pwin 0 0'] + good + ['idle'] + bad + after + ['idle', 'pwin 0 inf']
        F.add(cm + ['idle', 'pw 0 10', 'idle', 'pk 1 n=30', 'pw 1 30', 'idle', 'ceof 0', 'peof 0', 'idle'] + finish(2), mode=m)
    return F.out


def f_eof(r, full):
    """All orders of data and ends of stream, with output open or blocked."""
    F = Fam('eof')
    acts = ['pw 0 3000', 'peof 0', ('pk 0 n=900', 'pk 0 n=1024'), 'ceof 0']
    mids = ['idle', 'run 1', None]
    for m in 'ed':
        for perm in itertools.permutations(range(4)):
            if perm.index(0) > perm.index(1) or perm.index(2) > perm.index(3):
                continue
            for mid in mids:
                for blk in ('', 'pwin 0 0', 'cwin 0 0', 'both', 'phold', 'chold', 'pwinp', 'cwinp'):
                    if not full and blk not in ('', 'both') and r.random() > 0.5:
                        continue
                    cm = up()
                    cm += {'': [], 'both': ['pwin 0 0', 'cwin 0 0'], 'phold': ['phold 0'], 'chold': ['chold 0'],
                           'pwinp': ['pwin 0 0', 'pwin 0 1000'], 'cwinp': ['cwin 0 0', 'cwin 0 1500']}.get(blk, [blk])
                    for a in perm:
                        x = acts[a]
                        cm += list(x) if isinstance(x, tuple) else [x]
                        if mid:
                            cm.append(mid)
                    cm += ['idle']
                    rel = ['pwin 0 inf', 'cwin 0 inf', 'prel 0 all', 'crel 0 all']
                    r.shuffle(rel)
                    for x in rel:
                        cm += [x, 'idle']
                    F.add(cm + ['adv 1000', 'idle'] + term(), mode=m)
    for m in 'ed':
        for n in (0, 1, 1023, 1024, 1025, 8192, 8193, 20000):   # EOF together with the last data
            F.add(up() + (['pw 0 %d' % n] if n else []) + ['peof 0', 'idle', 'pk 0 n=100', 'idle', 'pk 0 n=1024', 'ceof 0', 'idle'] +
                  term(), mode=m)
            k, rest = divmod(n, 1024)
            F.add(up() + ['pk 0 n=1024'] * k + (['pk 0 n=%d' % rest] if rest else []) +
                  ['ceof 0', 'idle', 'pw 0 5000', 'idle', 'peof 0', 'idle'] + term(), mode=m)
        for e in ('ENOTCONN', 'ECONNRESET', 'ENOBUFS'):
            for i in (0, 1):
                F.add(up() + ['fault shutdown %d %s' % (i, e), 'peof 0', 'idle', 'ceof 0', 'idle'] + finish(1), mode=m)
    # half-closed for a long time, then traffic in the other direction
    for m in 'ed':
        for s in ('peof', 'ceof'):
            F.add(up() + ['pw 0 10', '%s 0' % s, 'idle', 'adv 20000', 'idle'] +
                  (['pk 0 n=1000'] * 20 if s == 'peof' else ['pw 0 20000']) + ['idle', 'adv 9000', 'idle',
                  'ceof 0' if s == 'peof' else 'peof 0', 'idle'] + term(), mode=m, timeo=2)
    return F.out


def f_handshake(r, full):
    """Forged, truncated, reflected, replayed, mixed handshakes."""
    F = Fam('hs')
    tail = ['idle', 'pk 0 n=100', 'pw 0 100', 'idle', 'adv 6000', 'idle'] + finish(1)

    def add(cm, **kw):
        F.add(['conn', 'idle', 'cok 0'] + cm + tail, **kw)
    bits_n = range(32) if full else sorted(r.sample(range(32), 6))
    bits_d = range(288) if full else sorted(set(r.sample(range(288), 12)) | {0, 31, 32, 287, 255, 256})
    for c in CFGS:
        for i in bits_n:
            add(['hn 0 mut=%d bit=%d' % (i, r.randrange(8)), 'hd 0'], **c)
        for i in bits_d:
            add(['hn 0', 'hd 0 mut=%d bit=%d' % (i, r.randrange(8))], **c)
        for x in ('', ' y=one', ' y=two', ' y=zero', ' y=lz', ' y=pm1', ' y=p', ' y=pp1', ' y=max'):
            add(['hn 0', 'hd 0' + x], **c)
            add(['hn 0', 'idle', 'hd 0' + x], **c)
        add(['hn 0', 'hd 0 key=wrong'], **c)
        add(['hn 0', 'hd 0 samerole'], **c)
        add(['hn 0 reflect', 'hd 0 reflect'], **c)
        add(['hn 0 reflect', 'hd 0'], **c)
        add(['hn 0', 'hd 0 reflect'], **c)
        add(['hn 0', 'hd 0', 'hd 0'], **c)
        add(['hn 0', 'hn 0', 'hd 0'], **c)
        add(['hn 0', 'idle'], **c)
        add(['raw 0 n=320', 'idle'], **c)
        add(['raw 0 n=32', 'idle', 'raw 0 n=288', 'idle'], **c)
        for t in ((0, 1, 31) if not full else range(32)):
            add(['hn 0 trunc=%d' % t, 'ceof 0', 'idle'], **c)
        for t in ((0, 1, 31, 32, 100, 255, 256, 287) if not full else range(0, 288, 7)):
            add(['hn 0', 'hd 0 trunc=%d' % t, 'ceof 0', 'idle'], **c)
        for e in ('crst 0', 'prst 0', 'peof 0', 'ceof 0', 'crst 0 1'):
            add([e, 'idle'], **c)
            add(['hn 0', 'idle', e, 'idle'], **c)
            add(['hn 0', 'idle', e, 'hd 0', 'idle'], **c)
            add(['pw 0 100', 'hn 0', e, 'hd 0', 'idle'], **c)
        # pieces
        for cap in (1, 31, 287):
            add(['crcap 0 %d' % cap, 'cwcap 0 %d' % cap, 'hn 0', 'idle', 'hd 0', 'idle'], **c)
        add(['chold 0', 'hn 0', 'hd 0', 'pk 0 n=77', 'crel 0 1', 'idle', 'crel 0 30', 'idle', 'crel 0 1', 'idle', 'crel 0 287',
             'idle', 'crel 0 1', 'idle', 'crel 0 1059', 'idle', 'crel 0 all'], **c)
        # the same transcript twice
        F.add(up(0) + ['conn', 'idle', 'cok 1', 'hn 1 replay=0', 'hd 1 replay=0', 'idle', 'pk 1 n=5', 'idle'] + finish(2), **c)
        F.add(['conn', 'conn', 'idle', 'cok 0', 'cok 1', 'hn 0', 'hd 0', 'hn 1 replay=0', 'hd 1 replay=0', 'idle', 'pk 1 n=5',
               'idle'] + finish(2), **c)
        # data and EOF arriving right behind the handshake
        F.add(['conn', 'idle', 'cok 0', 'chold 0', 'hn 0', 'hd 0', 'pk 0 n=10', 'pk 0 n=1024', 'ceof 0', 'pw 0 5000', 'peof 0',
               'crel 0 all', 'idle'] + finish(1), **c)
        for wl in (0, 1, 31, 32, 33, 319):     # our handshake output blocked
            F.add(['conn', 'idle', 'cok 0', 'cwin 0 0', 'cwin 0 %d' % wl, 'hn 0', 'hd 0', 'idle', 'adv 1000', 'idle', 'cwin 0 inf',
                   'pk 0 n=10', 'pw 0 10', 'idle'] + finish(1), **c)
    return F.out


def f_pfs(r, full):
    """Every combination of forward-secrecy options of both ends."""
    F = Fam('pfs')
    for c in CFGS:
        for y in ('', ' y=one', ' y=two', ' y=zero', ' y=lz', ' y=pm1', ' y=p', ' y=pp1', ' y=max'):
            for key in ('', ' key=wrong'):
                for split in (0, 1):
                    F.add(['conn', 'idle', 'cok 0', 'hn 0'] + (['idle'] if split else []) + ['hd 0' + y + key, 'idle', 'pw 0 2000', 'pk 0 n=1000', 'idle',
                           'pk 0 n=1', 'idle', 'ceof 0', 'peof 0', 'idle'] + finish(1), **c)
    return F.out


def f_proto(r, full):
    """Many connections in one run: fresh nonces and exponents, exact formats."""
    F = Fam('proto')
    for c in CFGS:
        for i in range(4 if full else 1):
            cm = ['cdefault imm']
            for k in range(20):
                cm += up(k) + ['pw %d %d' % (k, r.choice([1, 1024, 1025, 8193])), 'pk %d n=%d' % (k, r.choice([1, 1024])), 'idle']
                if r.random() < .7:
                    cm += ['peof %d' % k, 'ceof %d' % k, 'idle']
            F.add(cm + finish(20), key=r.choice([b'', b'a', b'0' * 1000, bytes(range(256)) * 9]), **c)
    for c in CFGS:
        for x in ('y=one', 'y=two', 'y=zero', 'y=lz', 'y=pm1', ''):
            for t in range(8 if full else 2):
                F.add(up(0, x) + ['pw 0 2000', 'pk 0 n=1000', 'idle', 'pk 0 n=1', 'idle'] + finish(1), seed=r.randrange(1, 99999), **c)
    return F.out


def f_timeo(r, full):
    """Events just before, at and after each time limit."""
    F = Fam('timeo')
    for m in 'ed':
        for T in (0.25, 1, 2.5, None, 0, 7.75, 60):
            ms = int((5 if not T else T) * 1000)
            for d in (-1, 0, 1) if ms > 500 else (-1, 1):
                for tgt in ('[127.0.0.1]:8002', '/tmp/tgt.sock'):
                    F.add(['conn', 'idle', 'adv %d' % (ms + d), 'idle', 'cok 0', 'idle'] + finish(1), mode=m, timeo=T, tgt=tgt)
                F.add(['conn', 'idle', 'adv %d' % (ms // 2), 'cok 0', 'hn 0', 'idle', 'adv %d' % (ms // 2 + d), 'idle', 'hd 0', 'idle', 'adv %d' % ms,
                       'idle'] + finish(1), mode=m, timeo=T)
                F.add(['conn', 'idle', 'cok 0', 'idle', 'adv %d' % (ms + d), 'idle', 'hn 0', 'hd 0', 'idle', 'pk 0 n=5', 'idle'] + finish(1), mode=m, timeo=T)
                # a handshake that trickles in byte by byte is still bounded
                F.add(['conn', 'idle', 'cok 0', 'chold 0', 'hn 0', 'hd 0'] + ['crel 0 1', 'adv %d' % (ms // 4), 'idle'] * 4 +
                      ['crel 0 20', 'adv %d' % (ms // 2), 'idle'] * 2 + finish(1), mode=m, timeo=T)
            # established connections never time out
            F.add(up() + ['adv %d' % (3 * ms + 100), 'idle', 'pw 0 10', 'pk 0 n=10', 'idle', 'peof 0', 'idle', 'adv %d' % (2 * ms), 'idle', 'pk 0 n=3',
                          'idle'] + finish(1), mode=m, timeo=T)
            # blocked output during the handshake
            F.add(['conn', 'idle', 'cok 0', 'cwin 0 0', 'hn 0', 'hd 0', 'idle', 'adv %d' % (ms - 1), 'idle', 'adv 2', 'idle'] + finish(1), mode=m, timeo=T)
            # several at once, each with its own limit
            cm = []
            for k in range(4):
                cm += ['conn', 'idle'] + (['cok %d' % k] if k % 2 else []) + ['adv %d' % (ms // 3), 'idle']
            F.add(cm + ['adv %d' % ms, 'idle', 'adv %d' % ms, 'idle'] + finish(4), mode=m, timeo=T)
    for m in 'ed':
        for T in (1e6, 2147483, 4e9, 1e15):
            F.add(up() + ['conn', 'idle', 'adv 500000', 'idle', 'cok 1', 'hn 1', 'hd 1', 'idle'] + finish(2), mode=m, timeo='%d' % T)
    # several addresses share one connection limit
    for n in (2, 3):
        al = ','.join('10.0.0.%d' % i for i in range(1, n + 1))
        for m in 'ed':
            F.add(['conn', 'idle', 'adv 900', 'idle', 'cfail 0', 'idle', 'adv 900', 'idle', 'cfail 0', 'idle', 'adv 900', 'idle', 'adv 900', 'idle'] +
                  finish(1), mode=m, timeo=2, tgt='host:5', setup=['dns ' + al], noresolve=True)
    for i in range(200 if full else 30):
        F.out.append(rand('timeo-r%d' % i, r.randrange(10**6), 'time', timeo=r.choice([0.5, 1, 2])))
    return F.out


ENDS = {
    'cfail': (['conn', 'idle'], ['cfail 0']), 'sync': ([], ['cmode ECONNREFUSED', 'conn']), 'late': ([], ['cmode lateECONNREFUSED', 'conn']),
    'ctime': (['conn', 'idle'], ['adv 5000']), 'cjump': (['conn', 'idle'], ['jump 5000']), 'htime': (['conn', 'idle', 'cok 0', 'idle'], ['adv 5001']),
    'htime2': (['conn', 'idle', 'cok 0', 'hn 0', 'idle'], ['adv 5001']), 'hdkey': (['conn', 'idle', 'cok 0', 'hn 0', 'idle'], ['hd 0 key=wrong']),
    'hdmut': (['conn', 'idle', 'cok 0', 'hn 0'], ['hd 0 mut=260 bit=1']), 'hnwrong': (['conn', 'idle', 'cok 0'], ['hn 0 key=wrong', 'hd 0 key=wrong']),
    'hseof': (['conn', 'idle', 'cok 0', 'hn 0', 'idle'], ['ceof 0']), 'hsrst': (['conn', 'idle', 'cok 0', 'idle'], ['crst 0']),
    'cfailhs': (['conn', 'idle', 'hn 0', 'hd 0', 'idle'], ['cfail 0']), 'hsprst': (['conn', 'idle', 'cok 0', 'hn 0', 'idle'], ['crst 0', 'prst 0']),
    'pkmut': (up(), ['pk 0 n=9 mut=1030 bit=0']), 'pklate': (up() + ['pw 0 500', 'pk 0 n=7', 'idle'], ['pk 0 n=9', 'pk 0 n=9 mut=3 bit=0']),
    'pce': (up(), ['peof 0', 'ceof 0']), 'pe-ce': (up() + ['peof 0', 'idle'], ['ceof 0']), 'ce-pe': (up() + ['ceof 0', 'idle'], ['peof 0']),
    'prst': (up(), ['prst 0']), 'crst': (up(), ['crst 0']), 'pe-crst': (up() + ['peof 0', 'idle'], ['crst 0']),
    'ce-prst': (up() + ['ceof 0', 'idle'], ['prst 0']), 'wfail': (up(), ['fault send 0 EPIPE', 'pk 0 n=9', 'pw 0 9']),
    'rfail': (up(), ['fault recv 0 ETIMEDOUT', 'pk 0 n=9', 'pw 0 9']), 'cblk': (up() + ['cwin 0 0', 'pw 0 20000', 'idle'], ['crst 0']),
    'pblk': (up() + ['pwin 0 0', 'pk 0 n=1024', 'pk 0 n=5', 'idle'], ['prst 0']),
    'sfail': (up() + ['fault shutdown 0 ENOBUFS'], ['peof 0', 'idle', 'ceof 0']), 'trunc': (up(), ['pk 0 n=9 trunc=700', 'ceof 0', 'peof 0']),
}


def f_ends(r, full):
    """Every way for a connection to end, at every moment that matters to the rest."""
    F = Fam('ends')
    for m in 'ed':
        for name, (a, b) in ENDS.items():
            F.add(a + ['sig TERM', 'adv 1100', 'idle'] + b + ['idle', 'adv 1', 'idle', 'adv 7000', 'idle', 'prst 0', 'crst 0', 'idle'], mode=m)
            F.add(a + ['sig TERM'] + b + ['idle', 'adv 7000', 'idle', 'prst 0', 'crst 0', 'idle'], mode=m)
            # the last of two, and the first of two
            F.add(shift(a, 0) + up(1) + ['sig TERM', 'adv 1100', 'idle', 'peof 1', 'ceof 1', 'idle'] + b + ['idle', 'adv 7000', 'idle', 'prst 0', 'crst 0', 'idle'], mode=m)
            F.add(a + up(1) + ['sig TERM', 'adv 1100', 'idle'] + b + ['idle', 'pw 1 9', 'pk 1 n=9', 'idle', 'peof 1', 'ceof 1', 'idle', 'adv 7000', 'idle', 'prst 0',
                  'crst 0', 'idle'], mode=m)
            # while others wait for its place
            F.add(a + (['conn', 'conn', 'idle'] if a else []) + b + (['conn', 'conn'] if not a else []) + ['idle', 'cok 1', 'hn 1', 'hd 1', 'idle', 'pw 1 9', 'pk 1 n=9',
                  'idle', 'adv 7000', 'idle', 'prst 0', 'crst 0', 'idle', 'prst 1', 'crst 1', 'idle'] + finish(3), mode=m, maxc=1)
            F.add(up() + shift(a, 1) + ['conn', 'idle'] * (1 if a else 0) + shift(b, 1) + ['idle', 'conn', 'idle', 'pw 0 9', 'pk 0 n=9', 'idle', 'adv 7000', 'idle',
                  'prst 1', 'crst 1', 'idle', 'pk 0 n=3', 'idle'] + finish(4), mode=m, maxc=2)
    return F.out


def f_limit(r, full):
    F = Fam('limit')
    for m in 'ed':
        for n in (1, 2, 3, 7):
            for d in ('imm', 'pend', 'auto'):
                cm = ['cdefault ' + d]
                for i in range(n + 3):
                    cm += ['conn'] + (['idle'] if r.random() < .5 else [])
                cm += ['idle', 'adv 100', 'idle']
                alive = list(range(n + 3))
                for i in range(n + 3):
                    k = r.randrange(4)
                    cm += {0: ['prst %d' % i, 'crst %d' % i], 1: ['peof %d' % i, 'ceof %d' % i, 'adv 6000'],
                           2: ['cok %d' % i, 'hn %d' % i, 'hd %d' % i, 'idle', 'peof %d' % i, 'ceof %d' % i],
                           3: ['cfail %d' % i, 'adv 6000']}[k] + ['idle', 'conn', 'idle']
                F.add(cm + finish(2 * n + 6), mode=m, maxc=n)
        # connections ending at the moment they are made
        for n in (1, 2):
            F.add(['cmode ECONNREFUSED'] * 6 + ['conn'] * 6 + ['idle'] + up(6) + ['idle', 'conn', 'conn', 'idle', 'crst 6', 'idle'] + finish(9), mode=m, maxc=n)
            F.add(['cmode lateECONNREFUSED'] * 6 + ['conn'] * 6 + ['idle', 'adv 6000', 'idle'] + finish(6), mode=m, maxc=n)
        for e in ('EAGAIN', 'EINTR', 'ECONNABORTED'):
            for k in (0, 1, 2, 5):
                F.add(['fault accept %d %s' % (i, e) for i in range(k, k + 2)] + ['conn', 'conn', 'idle', 'conn', 'idle', 'prst 0', 'crst 0', 'idle', 'conn',
                       'idle'] + finish(4), mode=m, maxc=r.choice([1, 2, 100]))
        # descriptor numbers reused immediately
        F.add([x for k in range(12) for x in ['conn', 'idle', 'cok %d' % k, 'hn %d' % k, 'hd %d' % k, 'idle', 'pk %d n=4' % k, 'pw %d 4' % k,
               'idle', r.choice(['prst %d', 'crst %d', 'ceof %d']) % k, 'idle', 'peof %d' % k, 'idle']] + finish(12), mode=m, maxc=1)
        F.add(['conn'] * 14 + ['idle'] + ['adv 6000', 'idle'] + finish(14), mode=m, maxc=0)
    return F.out


def f_term(r, full):
    """SIGTERM at every stage of up to two connections."""
    F = Fam('term')
    stages = [[], ['conn'], ['conn', 'idle'], ['conn', 'idle', 'cok 0'], ['conn', 'idle', 'cok 0', 'hn 0', 'idle'], up(), up() + ['pw 0 5000'],
              up() + ['cwin 0 0', 'pw 0 5000', 'idle'], up() + ['peof 0', 'idle'], up() + up(1) + ['crst 0', 'idle'],
              up() + ['peof 0', 'ceof 0', 'idle'], up() + ['conn', 'idle']]
    rest = ['hn 0', 'hd 0', 'idle', 'pw 0 100', 'pk 0 n=100', 'idle']
    for m in 'ed':
        for st in stages:
            for d in (0, 1, 400, 999, 1000, 1001, 1700):
                if not full and r.random() > .5:
                    continue
                cm = st + (['adv %d' % d] if d else []) + ['sig TERM']
                F.add(cm + ['adv 999', 'idle', 'adv 2', 'idle', 'conn', 'adv 1100', 'idle', 'cok 0'] + rest + ['adv 3000', 'idle', 'cwin 0 inf', 'idle',
                       'peof 0', 'ceof 0', 'idle', 'adv 6000', 'idle', 'prst 0', 'crst 0', 'prst 1', 'crst 1', 'idle', 'adv 6000'], mode=m)
        for st in stages[2:]:
            for d in (0, 1, 500, 1500):
                F.add(st + ['sig TERM', 'adv %d' % d, 'idle', 'sig TERM', 'adv 3000', 'idle', 'prst 0', 'crst 0', 'idle', 'adv 6000'], mode=m)
            F.add(st + ['sig INT', 'adv 100', 'idle'], mode=m)
            F.add(st + ['sig TERM', 'eintr', 'adv 700', 'eintr', 'adv 700', 'eintr', 'idle', 'adv 4000', 'idle', 'prst 0', 'crst 0', 'idle', 'adv 6000'], mode=m)
        for n in (1, 2):    # signal while the limit is reached
            F.add(up() + ['conn'] * 2 + ['idle', 'sig TERM', 'adv 1500', 'idle', 'prst 0', 'crst 0', 'idle', 'adv 2000', 'idle'] + finish(3), mode=m, maxc=n)
        # nothing but a signal, exactly one connection that ends before/after notice
        for d in (100, 999, 1001, 5000):
            F.add(up() + ['sig TERM', 'adv %d' % d, 'idle', 'peof 0', 'ceof 0', 'idle', 'adv 3000', 'idle'], mode=m)
        # half-closed connection kept open for long after the signal still works
        F.add(up() + ['sig TERM', 'adv 2000', 'idle', 'peof 0', 'idle', 'adv 60000', 'idle', 'pk 0 n=1000', 'pk 0 n=24', 'idle', 'ceof 0', 'idle', 'adv 3000'],
              mode=m)
    return F.out


CALLERR = {'recv': ['EAGAIN', 'EINTR', 'ECONNRESET', 'ETIMEDOUT', 'EHOSTUNREACH'], 'send': ['EAGAIN', 'EINTR', 'ECONNRESET', 'EPIPE', 'ENOBUFS'],
           'shutdown': ['ENOTCONN', 'ECONNRESET', 'ENOBUFS'], 'close': ['EINTR', 'EIO'], 'socket': ['EMFILE', 'ENFILE'], 'fcntl': ['EINVAL'],
           'accept': ['EAGAIN', 'ECONNABORTED', 'EINTR'], 'keepalive': ['ENOPROTOOPT', 'EINVAL'], 'nodelay': ['ENOPROTOOPT', 'EINVAL'],
           'bind': ['EADDRINUSE', 'EADDRNOTAVAIL']}


def f_fault(r, full):
    """Each system call made for a connection fails, in turn, with each error."""
    F = Fam('fault')
    recipes = {
        'plain': up() + ['pw 0 3000', 'pk 0 n=1024', 'idle', 'pk 0 n=3', 'pw 0 1', 'idle', 'peof 0', 'idle', 'ceof 0', 'idle'],
        'late': ['conn', 'conn', 'idle', 'cok 0', 'cok 1', 'hn 0', 'idle', 'hn 1', 'hd 1', 'hd 0', 'idle', 'pw 1 20', 'pw 0 9000', 'idle', 'pk 0 n=9',
                 'pk 1 n=9', 'idle', 'ceof 1', 'idle', 'peof 1', 'peof 0', 'idle', 'ceof 0', 'idle'],
        'blocked': up() + ['cwin 0 0', 'pwin 0 0', 'pw 0 9000', 'pk 0 n=1000', 'pk 0 n=1000', 'idle', 'cwin 0 inf', 'idle', 'pwin 0 inf', 'idle',
                           'ceof 0', 'peof 0', 'idle'],
    }
    for m in 'ed':
        for name, rc in recipes.items():
            for call, errs in CALLERR.items():
                maxn = {'recv': 9, 'send': 9, 'close': 3, 'shutdown': 2, 'socket': 2, 'bind': 2, 'fcntl': 2, 'accept': 3, 'keepalive': 4,
                        'nodelay': 4}[call]
                for e in errs:
                    for k in range(maxn):
                        if not full and r.random() > .4:
                            continue
                        # a healthy connection before and another after it
                        F.add(up(0) + ['pw 0 5', 'idle', 'fault %s %d %s' % (call, k, e)] + [x.replace(' 1', ' 2') if False else x for x in shift(rc, 1)] +
                              up(3) + ['pw 3 8', 'pk 3 n=8', 'pw 0 7', 'pk 0 n=7', 'idle', 'adv 6000', 'idle'] + finish(4), mode=m,
                              bind='[127.0.0.9]:0' if call == 'bind' else None)
    for m in 'ed':      # resets at every stage, racing with the time limit
        for st in range(0, len(recipes['late'])):
            for ev in ('prst 0', 'crst 0', 'prst 0 1', 'crst 0 1', 'peof 0', 'ceof 0', 'adv 5000', 'jump 5000', 'sig TERM'):
                if not full and r.random() > .4:
                    continue
                F.add(recipes['late'][:st] + [ev] + recipes['late'][st:] + finish(2), mode=m)
                F.add(recipes['late'][:st] + [ev, 'idle'] + recipes['late'][st:] + finish(2), mode=m, maxc=2)
    for m in 'ed':     # many in sequence: nothing accumulates
        cm = ['cdefault imm']
        for k in range(60):
            cm += ['conn', 'idle', 'hn %d' % k, 'hd %d' % k, 'idle', 'pw %d 10' % k, 'idle',
                   r.choice(['crst %d', 'prst %d', 'pk %%d n=7 mut=3 bit=1', 'peof %d']).replace('%%', '%') % k, 'idle', 'prst %d' % k, 'crst %d' % k, 'idle']
        F.add(cm + finish(60), mode=m)
        for bad in ('hd %d key=wrong', 'hd %d mut=5 bit=2', 'ceof %d', 'crst %d', 'hd %d y=max', 'adv 5001'):
            cm = ['cdefault imm']
            for k in range(40):
                cm += ['conn', 'idle', 'hn %d' % k, 'run 1', bad % k if '%' in bad else bad, 'idle']
            F.add(cm + finish(40), mode=m)
        cm = []
        for k in range(40):
            cm += ['cmode ' + r.choice(SYNC_ERR + ['late' + x for x in SYNC_ERR]), 'conn', 'idle']
        F.add(cm + finish(40), mode=m)
    return F.out


def shift(cm, d):
    """Renumber connections by d."""
    out = []
    for x in cm:
        w = x.split()
        if len(w) > 1 and w[0] in ('cok', 'cfail', 'hn', 'hd', 'pk', 'raw', 'pw', 'peof', 'ceof', 'prst', 'crst', 'pwin', 'cwin', 'phold', 'chold',
                                   'prel', 'crel', 'prcap', 'crcap', 'pwcap', 'cwcap'):
            w[1] = str(int(w[1]) + d)
        out.append(' '.join(w))
    return out


def f_dns(r, full):
    """Address lists, connection failures and re-resolution."""
    F = Fam('dns')
    A = ['10.0.0.%d' % i for i in range(1, 6)]
    for m in 'ed':
        for n in (1, 2, 3, 4):
            al = ','.join(A[:n])
            pats = list(itertools.product(('s', 'd', 'o', 'p'), repeat=n))
            if len(pats) > 40 and not full:
                pats = r.sample(pats, 40)
            for p in pats:       # each attempt: fails at once, fails late, succeeds, stays pending
                cm = []
                modes = []
                for x in p:
                    modes.append({'s': r.choice(SYNC_ERR), 'd': 'pend', 'o': 'imm', 'p': 'pend'}[x])
                cm += ['cmode ' + x for x in modes] + ['conn', 'idle']
                for x in p:
                    if x == 'd':
                        cm += ['cfail 0', 'idle']
                    elif x == 'p':
                        cm += ['cok 0', 'idle']
                        break
                    elif x == 'o':
                        break
                F.add(cm + ['hn 0', 'hd 0', 'idle', 'pk 0 n=5', 'idle', 'conn', 'idle'] + finish(2), mode=m, tgt='host:%d' % r.choice([1, 80, 65535]),
                      setup=['dns ' + al], noresolve=r.random() < .5)
        # mixed families, ports and repeated addresses
        for al in ('::1,127.0.0.1', '10.0.0.1,10.0.0.1,10.0.0.2', '2001:db8::1,2001:db8::2,192.0.2.1', '127.0.0.1,::1,127.0.0.2'):
            for c in ('EAFNOSUPPORT', 'ENETUNREACH'):
                F.add(['cmode ' + c, 'cmode pend', 'conn', 'idle', 'cfail 0', 'idle', 'cok 0', 'idle'] + finish(1), mode=m, tgt='multi:99',
                      setup=['dns ' + al], noresolve=True)
            F.add(['fault socket 0 EAFNOSUPPORT', 'conn', 'idle', 'cfail 0', 'idle', 'cok 0', 'idle'] + finish(1), mode=m, tgt='multi:99', setup=['dns ' + al],
                  noresolve=True)
    for i in range(400 if full else 60):
        lists = [','.join(r.sample(A, r.randint(1, 3))) for _ in range(6)]
        seq = [lists[0]] + [x if r.random() < .6 else 'fail' for x in lists[1:]]
        R = r.choice([1, 5, 10, 60])
        cm = ['dns ' + x for x in seq[1:]]
        nc = 0
        for _ in range(r.randint(6, 25)):
            k = r.randrange(9)
            if k < 2 and nc < 8:
                cm += ['conn', 'idle']
                nc += 1
            elif k < 4:
                cm += ['adv %d' % r.choice([1, 500, 999, 1000, 1001, R * 1000 - 1, R * 1000, R * 1000 + 1, R * 300]), 'idle']
            elif k == 4: cm += ['dnshold %d' % r.choice([0, 1])]
            elif k == 5 and nc: cm += ['cfail %d' % r.randrange(nc), 'idle']
            elif k == 6 and nc: cm += ['cok %d' % r.randrange(nc), 'idle']
            elif k == 7 and nc: cm += ['hn %d' % r.randrange(nc), 'hd %d' % r.randrange(nc), 'idle']
            elif k == 8: cm += ['cmode ' + r.choice(SYNC_ERR)]
        F.add(cm + ['dnshold 0', 'idle'] + finish(nc), mode=r.choice('ed'), tgt='host:443', rtime=R, setup=['dns ' + seq[0]], maxc=r.choice([None, 1, 3]))
    for m in 'ed':
        F.add(['conn', 'idle', 'adv 10000', 'idle'], mode=m, tgt='host:443', setup=['dns fail'])
        for R in (1, 7.5, 60):      # a resolution that takes very long does not stop traffic
            F.add(up() + ['dns 10.9.9.9', 'dnshold 1', 'adv %d' % (R * 1000), 'idle', 'pw 0 3000', 'pk 0 n=900', 'idle', 'adv %d' % (3 * R * 1000), 'idle', 'conn', 'idle',
                   'pw 0 1', 'idle', 'dnshold 0', 'idle', 'conn', 'idle', 'adv %d' % (R * 1000 + 10), 'idle', 'conn', 'idle'] + finish(4), mode=m, tgt='host:443', rtime=R,
                  setup=['dns 10.0.0.1,10.0.0.2'])
            F.add(['dns fail', 'dns fail', 'dns 10.3.3.3', 'dns fail'] + ['conn', 'idle', 'adv %d' % (R * 1000), 'idle'] * 6 + finish(6), mode=m, tgt='host:443',
                  rtime=R, setup=['dns 10.0.0.1,10.0.0.2'])
        # signal while a resolution is under way
        F.add(['dnshold 1', 'adv 1000', 'idle', 'sig TERM', 'adv 4000', 'idle', 'dnshold 0', 'adv 4000'], mode=m, tgt='host:443', rtime=1, setup=['dns 10.0.0.1'])
        F.add(up() + ['dnshold 1', 'adv 1000', 'idle', 'sig TERM', 'adv 4000', 'idle', 'dnshold 0', 'adv 4000', 'idle', 'pw 0 6', 'idle'] + finish(1), mode=m,
              tgt='host:443', rtime=1, setup=['dns 10.0.0.1'])
    return F.out


def f_priv(r, full):
    F = Fam('priv')
    users = ['user1', 'user7', '1234', 'user2:grp3', 'user2:99', '77:grp4', '5:6', ':grp9', ':44', '0:0', 'user0:grp0']
    bad = ['nosuch', ':nosuch', 'user1:', ':', 'nosuch:grp1', 'user1:nosuch', '', '-1', '99999999999', 'user1:99999999999', '4294967295', '12x', ':-1', ' user1']
    creds = [[], ['cred 0 0 0'], ['cred 0 0 1'], ['cred 0 5 30']]
    for u in users:
        for m in 'ed':
            for cr in creds:
                F.add(up() + ['pw 0 5', 'idle'] + finish(1), mode=m, user=u, setup=cr)
        F.add(up() + finish(1), user=u, setup=['cred 1000 1000 2'])
        F.add(up() + finish(1), user=u, setup=['cred 1234 99 2'])
        for call in ('setuid', 'setgid', 'setgroups', 'getpwnam', 'getgrnam'):
            for e in ('EPERM', 'EINVAL', 'EAGAIN', 'EIO', 'ENOMEM'):
                F.add(['conn', 'idle', 'conn', 'idle'] + finish(2), user=u, setup=['fault %s 0 %s' % (call, e)], mode=r.choice('ed'))
    for u in bad:
        F.add(['conn', 'idle'] + finish(1), user=u, badcli=1, uid=-1, gid=-1, drop=1)
    F.add(up() + finish(1))
    F.add(up() + finish(1), setup=['cred 1000 1000 2'])
    for u in users[:4]:     # clients already waiting when the daemon starts
        F.add(['idle'] + finish(3), user=u, setup=['conn', 'conn', 'conn'])
        F.add(['idle'] + finish(3), user=u, setup=['conn', 'conn', 'conn', 'fault setuid 0 EAGAIN', 'fault setgid 0 EAGAIN'])
        F.add(up() + finish(1), user=u, tgt='host:5', setup=['dns 10.0.0.1'])
    return F.out


def f_rnd(r, full):
    """Short reads and failures of the entropy source at every reseed."""
    F = Fam('rnd')
    for c in CFGS:
        for sr in (1, 7, 16, 31, 47, 48):
            F.add(up() + up(1) + finish(2), setup=['shortrnd %d' % sr], **c)
        for k in range(6):
            for call in ('rndopen', 'rndread'):
                for e in ('ENOENT', 'EIO', 'EINTR', 'EMFILE'):
                    if call == 'rndopen' and e == 'EINTR':
                        continue
                    F.add(up() + ['pw 0 5', 'idle'] + up(1) + ['pk 0 n=5', 'idle'] + finish(2), setup=['fault %s %d %s' % (call, k, e)], **c)
    for c in CFGS if full else CFGS[:1] + CFGS[3:5]:
        for extra in ([], ['shortrnd 5']):
            cm = ['cdefault imm']
            for k in range(300):     # past the reseed interval
                cm += ['conn', 'idle', 'hn %d' % k, 'hd %d' % k, 'idle', 'prst %d' % k, 'crst %d' % k, 'idle']
            F.add(cm + finish(0), setup=extra, **c)
    for c in CFGS[:1] + CFGS[3:4]:
        for k in (1, 2):
            for call in ('rndopen', 'rndread'):
                cm = ['cdefault imm', 'fault %s %d EIO' % (call, k)]
                for q in range(300):
                    cm += ['conn', 'idle', 'hn %d' % q, 'hd %d' % q, 'idle', 'prst %d' % q, 'crst %d' % q, 'idle']
                F.add(cm + finish(0), **c)
    return F.out


def f_addr(r, full):
    F = Fam('addr')
    src = ['[127.0.0.1]:1', '[0.0.0.0]:65535', '[::1]:80', '[::]:443', '/tmp/x.sock', '/tmp/' + 'p' * 50, '[2001:db8::1:2]:9', '[::ffff:1.2.3.4]:7', '[255.255.255.255]:2',
           '[127.0.0.1]:00080', '[1.2.3.4]:8080']
    bnd = [None, '[127.0.0.1]', '[127.0.0.1]:0', '[192.0.2.1]:999', '[::1]', '[2001:db8::5]:4', '/tmp/bindsock']
    for s in src:
        F.add(up() + finish(1), src=s, mode=r.choice('ed'))
        for m in 'ed':
            F.add(up() + finish(1), tgt=s, mode=m)
    for b in bnd:
        for t in ('[127.0.0.1]:8002', '[::1]:22', '/tmp/t.sock'):
            for m in 'ed':
                F.add(up() + up(1) + finish(2), bind=b, tgt=t, mode=m)
    for e in ('EADDRINUSE', 'EACCES', 'EADDRNOTAVAIL'):
        F.add(['conn', 'idle'] + finish(1), setup=['fault bind 0 ' + e])
        F.add(['conn', 'idle'] + finish(1), setup=['fault listen 0 ' + e])
        F.add(['conn', 'idle'] + finish(1), setup=['fault socket 0 EMFILE'])
        for k in (1, 2):
            F.add(up() + up(1) + finish(2), bind='[127.0.0.1]', setup=['fault bind %d %s' % (k, e)])
    return F.out


def f_key(r, full):
    F = Fam('key')
    for n in (0, 1, 31, 32, 33, 63, 64, 65, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 100001) + ((1000000,) if full else ()):
        for fill in (0, 1, 2):
            k = [bytes(n), bytes(i * 7 & 255 for i in range(n)), r.randbytes(n)][fill]
            F.add(up() + ['pk 0 n=100', 'pw 0 100', 'idle'] + finish(1), key=k, mode='ed'[fill & 1])
    for n in (32, 4096, 8193):    # keys differing in one bit, anywhere, do not match
        k = r.randbytes(n)
        F.add(up() + ['pk 0 n=100', 'pw 0 100', 'idle'] + finish(1), key=k)
        F.add(['conn', 'idle', 'cok 0', 'hn 0', 'hd 0 key=wrong', 'idle', 'pw 0 10', 'idle'] + finish(1), key=k)
    bad = [['-k', '/nonexistent/key'], ['-k', '/tmp'], ['-k', '/proc/self/mem']]
    for b in bad[:2]:
        F.add(['conn', 'idle'] + finish(1), argv=['spiped', '-F', '-e', '-s', '[127.0.0.1]:1', '-t', '[127.0.0.1]:2', '-p', '@PID@'] + b, badkey=1)
    return F.out


def f_opt(r, full):
    """Socket options, keepalive on and off."""
    F = Fam('opt')
    for c in CFGS:
        for ka in (0, 1):
            for t in ('[127.0.0.1]:8002', '/tmp/t.sock'):
                for s in ('[127.0.0.1]:8001', '/tmp/s.sock'):
                    F.add(up() + ['pw 0 5', 'pk 0 n=5', 'idle'] + up(1) + ['pw 1 5', 'idle', 'peof 0', 'idle'] + finish(2), ka=ka, tgt=t, src=s, **c)
            for call in ('keepalive', 'nodelay'):
                for k in range(4):
                    for e in ('ENOPROTOOPT', 'EOPNOTSUPP', 'EINVAL'):
                        F.add(['fault %s %d %s' % (call, k, e)] + up() + ['pw 0 5', 'pk 0 n=5', 'idle'] + up(1) + ['pw 1 5', 'pk 1 n=5', 'idle'] + finish(2), ka=ka,
                              mode=c['mode'])
    return F.out


FAMS = dict(sizes=f_sizes, splits=f_splits, ends=f_ends, multi=f_twoconn, forge=f_forge, eof=f_eof, hs=f_handshake, pfs=f_pfs, proto=f_proto, timeo=f_timeo, limit=f_limit,
            term=f_term, fault=f_fault, dns=f_dns, priv=f_priv, rnd=f_rnd, addr=f_addr, key=f_key, opt=f_opt)


def family(name, seed, full):
    return FAMS[name](random.Random('%s/%s' % (name, seed)), full)
