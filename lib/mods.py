"""Checks of single modules: drivers in harness/, specifications in spec/."""
import json, os, random, subprocess, concurrent.futures as cf
import build, sim

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1')


def drive(exe, scripts, work, jobs=8, timeout=800):
    """Run 'id words' scripts through a driver; returns parsed traces in order."""
    os.makedirs(work, exist_ok=True)
    jobs = max(1, min(jobs, len(scripts)))

    def go(j):
        part = scripts[j::jobs]
        f, o = os.path.join(work, 'ms%d' % j), os.path.join(work, 'mo%d' % j)
        open(f, 'w').write(''.join(s + '\n' for s in part))
        r = subprocess.run([exe, f, o], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if r.returncode != 0:
            raise sim.CheckError('driver failed: ' + r.stdout[-2000:])
        res = [json.loads(l) for l in open(o)]
        os.unlink(o)
        assert len(res) == len(part), (len(res), len(part))
        for x, s in zip(res, part):
            x['script'] = s
        return res
    out = [None] * len(scripts)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for j, res in enumerate(ex.map(go, range(jobs))):
            out[j::jobs] = res
    return out


def modcheck(c, mod, drv, name, scripts, props, variant='asan', syms=None, extra_src=(), post=None, perpart=4000, jobs=8, again=1):
    """Drive the scripts, check the traces against spec/<mod>Trace, report."""
    exe = build.harness(c.build, drv, variant, syms, extra_src)
    post = post or POST.get(drv)
    w = os.path.join(c.work, 'mod')
    for i in range(0, len(scripts), perpart):
        part = scripts[i:i + perpart]
        tr = drive(exe, part, w, jobs)
        if post:
            tr = [post(t) for t in tr]
        rej, st = sim.check(mod, props, tr, os.path.join(c.work, 'chk'))
        ne = sum(len(t['ev']) for t in tr)
        c.states += st
        c.trans += max(0, st - len(tr))
        c.traces += len(tr) - len(rej)
        c.events += ne
        if len(c.samples) < 4 and tr:
            k = random.Random(c.seed).randrange(len(tr))
            c.samples.append(dict(module=mod, script=part[k][:400], trace=[x['e'] for x in tr[k]['ev']][:60]))
        c.note(module=mod, part=name, scripts=len(tr), events=ne, states=st, rejected=len(rej))
        for j, p in sorted(rej.items()):
            t = tr[j]
            if len(c.viol) < 8:
                # must be reproducible, unless schedules are real and it is not alone
                ts = drive(exe, [part[j]] * again, w, jobs)
                ts = [post(t2) for t2 in ts] if post else ts
                r2, _ = sim.check(mod, props, ts, os.path.join(c.work, 'chk'))
                if not r2 and (again == 1 or len(rej) < 3):
                    c.note(module=mod, part=name, unconfirmed=part[j].split()[0])
                    continue
                if r2:
                    t, p = ts[min(r2)], r2[min(r2)]
            e = t['ev'][p - 1]
            c.violation(part[j].split()[0], 'event not allowed by %s: %s' % (mod, json.dumps(e)[:300]),
                        dict(kind='mod', mod=mod, drv=drv, props=list(props), variant=variant,
                             syms=syms, extra_src=list(extra_src), again=again, script=part[j], position=p, event=e,
                             before=t['ev'][max(0, p - 15):p - 1]))
        if len(c.viol) >= 20:
            return


POST = {}


def replay(c, d):
    modcheck(c, d['mod'], d['drv'], 'replay', [d['script']] * d.get('again', 1), d['props'], d['variant'], d['syms'], d['extra_src'], again=d.get('again', 1))


# ---------------------------------------------------------------- event loop
EVSYMS = ['poll', 'clock_gettime', 'gettimeofday', 'clock_getres']


def ev_script(seed, profile=None):
    r = random.Random('ev%s%s' % (seed, profile))
    prof = profile or r.choice(['imm', 'net', 'timer', 'mixed', 'mixed', 'mixed', 'fds', 'many', 'huge'])
    fds = {'fds': r.sample([3, 4, 5, 6, 7, 8, 9, 10, 40, 300, 301, 1000], r.randint(4, 12))}.get(prof) or \
        r.sample([3, 4, 5, 6, 7, 9, 33], r.randint(1, 4))
    nsl = {'many': 200, 'timer': 12, 'huge': 8}.get(prof, 6)
    w = {'imm': [6, 1, 1], 'net': [1, 6, 1], 'fds': [1, 10, 1], 'timer': [1, 1, 8], 'many': [0, 0, 8],
         'huge': [1, 1, 6]}.get(prof, [3, 4, 3])
    ivs = r.choice([[0, 1, 10], [0, 500, 999, 1000, 1001, 1500], [1000000, 2000000, 2000001, 3000000, 1], [10, 20, 30, 40, 50, 60, 70],
                    [5000, 5000, 5000, 7000], list(range(0, 100000, 997))])
    nh = r.randint(1, 10)

    def timer():
        s = r.randrange(nsl)
        h = r.randrange(nh + 1)
        if prof == 'huge' and r.random() < 0.7:
            if r.random() < 0.5:
                return 'D:%d:%d:%s' % (s, h, r.choice(['0', '0.5', '1e9', '1e10', '1e18', '1e19', '1e30', '1e308', 'inf', '2147483', '2147483.648',
                                                       '2147484', '4294967.296', '1073741824', '0.0000001', '1e-300', '3600.25', '9.3e18']))
            return 'T:%d:%d:%d:%d' % (s, h, r.choice([0, 1, 2147482, 2147483, 2147484, 4294967, 100000000, 1000000000]), r.choice([0, 1, 647000, 648000, 999999]))
        if r.random() < 0.15:
            return 'D:%d:%d:%.9f' % (s, h, r.choice(ivs) / 1e6 + r.choice([0, 0, 0.0000004, 0.1, 0.3]))
        iv = r.choice(ivs)
        return 'T:%d:%d:%d:%d' % (s, h, iv // 1000000, iv % 1000000)

    def oper(top):
        k = r.choices('inta', w + [1.5])[0]
        if k == 'i':
            if r.random() < 0.75:
                return 'I:%d:%d:%d' % (r.randrange(nsl), r.randrange(nh + 1), r.choice([0, 0, 0, 1, 5, 31]) if r.random() < 0.6 else r.randrange(32))
            return 'i:%d' % r.randrange(nsl)
        if k == 'n':
            x = r.random()
            if x < 0.55:
                return 'N:%d:%d:%d' % (r.choice(fds), r.randrange(2), r.randrange(nh + 1))
            if x < 0.8:
                return 'n:%d:%d' % (r.choice(fds), r.randrange(2))
            return 'F:%d:%d' % (r.choice(fds), r.choice([0, 1, 2, 3, 3, 4, 5, 8, 6, 12]))
        if k == 't':
            x = r.random()
            if x < 0.6:
                return timer()
            return '%s:%d' % ('t' if x < 0.8 else 'r', r.randrange(nsl))
        x = r.random()
        if x < 0.7:
            return 'A:%d' % r.choice(ivs + [1])
        if x < 0.8:
            return 'X'
        if x < 0.9:
            return 'O'
        return 'F:%d:%d' % (r.choice(fds), r.choice([0, 1, 2, 3]))
    out = ['ev%s' % seed, 'K:%d:%d' % (r.choice([0, 0, 0, 1, 300]), r.choice([1, 1, 20]))]
    for h in range(1, nh + 1):
        out += ['{', str(h), str(r.choice([0] * 12 + [1, -1, 7]))]
        out += [oper(False) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5]))] + ['}']
    for _ in range(r.choice([1, 2, 3, 6])):
        for _ in range(r.choice([1, 3, 6, 12, 40] if prof != 'many' else [100, 300])):
            out.append(oper(True))
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            x = r.random()
            out.append('B:%d:%d:%d' % (r.choice(ivs + [1]), r.choice(fds) if x < 0.75 else -1 if x < 0.9 else -2,
                                       r.choice([1, 2, 3, 4, 8, 9])))
        out += [r.choice(['R', 'R', 'R', 'S'])] * r.choice([1, 1, 2, 5] if prof != 'many' else [20])
    return ' '.join(out)


def eventloop(c):
    n = (40000 if c.full else 5000)
    base = c.seed * 1000003
    modcheck(c, 'EventLoop', 'ev', 'random', [ev_script(base + i) for i in range(n)], [c.pid], syms=EVSYMS)


# ------------------------------------------- network operations, netbuf
NETSYMS = EVSYMS + ['socket', 'bind', 'connect', 'accept', 'recv', 'send', 'read', 'write', 'close', 'fcntl',
                    'getsockopt', 'setsockopt']


def net_script(seed, prof):
    r = random.Random('net%s%s' % (seed, prof))
    big = r.random() < 0.3
    sizes = [1, 1, 2, 3, 5, 10, 31, 32, 100, 288] + ([1000, 1060, 4000, 4095, 4096, 4097, 8192, 8193, 9000, 20000] if big else [])
    nh = r.randint(1, 6)
    fds = [3, 4, 5][:r.randint(1, 3)]
    ended = set()

    def items(kind):
        out = []
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            x = r.random()
            if kind == 'a':
                out.append(r.choice('ccccEIBBI') if x < 0.93 else 'F')
            elif x < 0.72:
                out.append(str(min(30000, max(1, r.choice(sizes) + r.choice([0, 0, -1, 1])))))
            elif x < 0.92:
                out.append(r.choice('EI'))
            elif x < 0.97:
                out.append('Z' if kind == 'r' else 'P')
            else:
                out.append('R')
        return ','.join(out)

    def oper():
        s = r.randrange(4)
        h = r.randrange(nh + 1)
        fd = r.choice(fds)
        if prof == 'netbuf':
            x = r.random()
            if x < 0.34:
                return 'W:%d:%d' % (s, r.choice(sizes + [0, 1]))
            if x < 0.5:
                return 'C:%d:%d' % (s, r.choice(sizes + [100000, 100000]))
            if x < 0.68:
                return 'P:%d' % s
            if x < 0.76:
                return 'X:%d' % s
            if x < 0.79:
                return 'Z:%d' % s
            if x < 0.84:
                return 'N:%d:%d:%d' % (s, h, fd)
            return '%s:%d:%s' % (r.choice('qQ'), fd, items('r'))
        k = r.choice({'conn': 'kkkkca', 'rw': 'rrwwcc', 'acc': 'aaaca'}.get(prof, 'rwakc'))
        if k in 'rw':
            b = r.choice(sizes)
            return '%s:%d:%d:%d:%d:%d' % (k, s, h, fd, b, r.choice([1, b, b, max(1, b // 2)]))
        if k == 'a':
            return 'a:%d:%d:%d' % (s, h, r.choice([8, 9]))
        if k == 'k':
            t = ''.join(r.choice('opiqfsbnhpq' + ('g' if r.random() < 0.1 else '')) for _ in range(r.choice([1, 1, 2, 3, 5])))
            v = r.choice([0, 1, 2])
            return 'k:%d:%d:%s:%d:%d' % (s, h, t, v, r.choice([1000, 500000, 1, 3000000]))
        return 'c:%d' % s

    def fill():
        x = r.random()
        if x < 0.15:
            return r.choice(['A:%d' % r.choice([1, 1000, 600000]), 'r1'])
        fd = r.choice(fds)
        w = r.random()
        if prof in ('acc', 'all', 'conn') and w < 0.3:
            return '%s:%d:%s' % (r.choice('qQ'), r.choice([8, 9]), items('a'))
        return '%s:%d:%s' % (r.choice('qQ'), fd, items('r')) if w < 0.6 else '%s:%d:%s' % (r.choice('sS'), fd, items('w'))
    out = ['net-%s-%s' % (prof, seed)]
    for h in range(1, nh + 1):
        out += ['{', str(h)] + [oper() for _ in range(r.choice([0, 1, 1, 2, 3] if prof != 'netbuf' else [1, 2, 3, 4]))] + ['}']
    if prof == 'netbuf':
        out += ['N:%d:%d:%d' % (i, r.randrange(nh + 1), fd) for i, fd in enumerate(fds)]
    for _ in range(r.choice([2, 5, 12, 25])):
        out.append(oper() if r.random() < 0.6 else fill())
        if prof == 'netbuf' and r.random() < 0.25:
            # A wait for more than arrives, given up or ended.
            k = r.randrange(len(fds))
            n = r.choice(sizes) + 1
            out += ['X:%d' % k, 'C:%d:%d' % (k, r.choice([0, 0, 1, 100000])), 'W:%d:%d' % (k, n + r.choice([0, 1, 100, 5000])),
                    'q:%d:%d' % (fds[k], r.randint(1, n))] + ['r1'] * r.choice([1, 2]) + \
                   [r.choice(['X:%d' % k, 'X:%d' % k, 'q:%d:Z' % fds[k], 'q:%d:R' % fds[k], 'q:%d:I' % fds[k]]), 'r1', 'P:%d' % k]
        if r.random() < 0.15:
            out.append('r1')
    return ' '.join(out + ['R'])


def netio(c):
    profs = {'C14': [("netbuf", 10000, 60000)], 'C15': [("rw", 4000, 25000), ("conn", 4000, 25000), ("acc", 1500, 8000), ("all", 4000, 20000)]}[c.pid]
    for prof, q, t in profs:
        base = c.seed * 1000003
        modcheck(c, 'NetIO', 'net', prof, [net_script(base + i, prof) for i in range(t if c.full else q)], [c.pid], syms=NETSYMS)


# ------------------------------------------------------------ packet layer
CLS = ['gen', 'zero', 'two', 'pm1', 'one', 'top', 'low', 'p', 'pp1', 'ones', 'mid']


def crypt_script(seed):
    r = random.Random('crypt%s' % seed)
    out = ['crypt%s' % seed]
    ns = r.randint(1, 3)
    for s in range(ns):
        k = r.choice(['1:0', '0:1', '1:1', '1:0', '1:1', '0:0'])
        out.append('S:%d:%d:%s' % (s, r.randrange(10**6), k))
    for _ in range(r.choice([10, 40])):
        s, d, x = r.randrange(ns), r.randrange(2), r.random()
        if x < 0.2:
            out.append('E:%d:%d:%d:%d' % (s, d, r.choice([1, 1, 3, 30, 300]), r.choice([0, 0, 1, 1024, r.randint(1, 1024)])))
        elif x < 0.5:
            out.append('D:%d:%d:%d:%d' % (s, d, r.choice([1, 1, 3, 30, 257]), r.choice([0, 0, 1, 1024, r.randint(1, 1024)])))
        elif x < 0.6:
            out.append('V:%d:%s:%d:%d' % (r.randrange(1000), r.choice(CLS), r.choice([0, 0, 0, r.randint(1, 256)]), r.randrange(2)))
        else:
            w = 'len' if r.random() < 0.04 else r.choice(['num'] * 3 + ['dir', 'sess', 'mix', 'flip', 'flip', 'byte', 'swap', 'zero', 'part'])
            a = {'num': lambda: r.choice([1, -1, 2, -2, 255, 256, -256, 65536, -65536, 1 << 31, 1 << 32, -(1 << 32), 1 << 48, 1 << 56, 1 << 62, r.randint(-300, 300)]),
                 'dir': lambda: r.choice([0, 0, 1, -1]), 'len': lambda: r.choice([0, 1025, 1026, 1 << 16, 1 << 31, (1 << 32) - 1, 0x10001, 1028, 65537 + 1023, 0x80000001, 0xffffff01]),
                 }.get(w, lambda: r.randrange(1060 * 8))()
            out.append('X:%d:%d:%s:%d' % (s, d, w, a))
    return ' '.join(out)


def crypt_long(seed, n):
    """Sessions much longer than small counters last."""
    r = random.Random('cryptlong%s' % seed)
    out = ['cryptlong%s' % seed, 'S:0:%d:1:0' % seed]
    d = seed % 2
    for left in range(0, n, 10000):
        ln = r.choice([1, 0, 1024, 500])
        out += ['E:0:%d:10000:%d' % (d, ln), 'D:0:%d:10000:%d' % (d, ln)]
        for off in (-65536, -256, -(1 << 31), 65536, 256, 1 << 32):
            if left + 10000 + off >= 0 or off > 0:
                out.append('X:0:%d:num:%d' % (d, off))
    return ' '.join(out)


def crypt_flips():
    """Every bit of a packet's MAC, length and every byte of the rest; every
    bit of the handshake value's MAC; all classes of values."""
    out = []
    for g in range(4):
        o = ['cryptflip%d' % g, 'S:0:%d:1:1' % g, 'S:1:%d:0:1' % g]
        bits = list(range(1024 * 8, 1060 * 8)) + [8 * i + (i + g) % 8 for i in range(1024)]
        for b in bits[g::4]:
            o.append('X:0:%d:flip:%d' % (b % 2, b))
        o += ['X:0:0:swap:%d' % i for i in range(32)] + ['X:0:1:part:%d' % i for i in range(32)]
        o += ['V:%d:gen:%d:%d' % (i, i, i % 2) for i in range(g, 257, 4)]
        o += ['V:%d:%s:0:%d' % (g, c, q) for c in CLS for q in (0, 1)]
        out.append(' '.join(o))
    return out


def crypt(c):
    n = 4000 if c.full else 400
    base = c.seed * 1000003
    long = [crypt_long(base + i, 300000 if c.full else 140000) for i in range(2)]
    for v in ('x86', 'sse2', 'portable'):
        try:
            modcheck(c, 'Crypt', 'crypt', v, long + crypt_flips() + [crypt_script('%d%s' % (base + i, v)) for i in range(n)], [c.pid],
                     variant='plain' if v == 'x86' else v, syms=['__none__'], extra_src=('refcrypto',))
        except build.BuildError as e:
            c.note(module='Crypt', skipped='driver does not fit the tree: ' + str(e)[-300:])


# ------------------------------------------------- background name resolution
DNSYMS = EVSYMS + """malloc calloc realloc free strdup atexit exit _exit abort __assert_fail socketpair pipe close read write
recv send fcntl getaddrinfo freeaddrinfo gai_strerror pthread_create pthread_join pthread_detach pthread_self pthread_equal
pthread_cancel pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal
pthread_cond_broadcast""".split()


def dns_runs(c, scripts, work):
    """Run dnst scripts 'id bound mem max seed ops'; returns parsed lines."""
    exe = build.harness(c.build, 'dnst', 'sched', DNSYMS)
    os.makedirs(work, exist_ok=True)
    jobs = min(8, len(scripts))
    out = {}

    def go(j):
        f, o = os.path.join(work, 'ds%d' % j), os.path.join(work, 'do%d' % j)
        open(f, 'w').write(''.join(s + '\n' for s in scripts[j::jobs]))
        r = subprocess.run([exe, f, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise sim.CheckError('driver failed: ' + r.stdout[-2000:])
        return [json.loads(l) for l in open(o)]
    with cf.ThreadPoolExecutor(jobs) as ex:
        for res in ex.map(go, range(jobs)):
            for d in res:
                out[d['id']] = d
    return [out[s.split()[0]] for s in scripts]


def dns_ops(seed):
    r = random.Random('dns%s' % seed)
    out, k = ['s0'], r.choice([2, 3, 4, 6])
    two = r.random() < 0.3
    if two:
        out.append('s1')
    for _ in range(k):
        out.append(r.choice(['q%d%s' % (r.randrange(1 + two), r.choice('nnqkd')), 'e', 'k%d' % r.randrange(1 + two), 'r' + r.choice('nq'),
                             'q0n', 'f%d' % r.randrange(4)] + (['s%d' % r.randrange(2)])))
    return ' '.join(out)


DNSBASE = ['s0 k0', 's0 q0n', 's0 q0n k0', 's0 q0n e k0', 's0 q0n q0n', 's0 q0n q0n k0', 's0 q0q', 's0 q0k', 's0 q0d', 's0 q0n e q0n',
           's0 q0n e q0n k0', 's0 q0n q0n e q0n', 's0 q0q k0', 'rn', 'rq', 'rn rn', 's0 rn q0n', 's0 q0n rn k0', 's0 s1 q0n q1n k0',
           's0 q0n k0 s0 q0n', 's0 s1 q1k k0', 's0 q0n q0n q0n', 's0 q0d s1 q1n']


def dnsthread(c):
    sc = []
    for i, o in enumerate(DNSBASE):
        # All schedules with up to that many preemptions.
        sc.append('sync%d %d 0 %d 0 %s' % (i, 3 if c.full else 2, 2000000 if c.full else 4000, o))
        sc.append('mem%d %d 1 %d 0 %s' % (i, 2 if c.full else 1, 2000000 if c.full else 4000, o))
        for f in range(6):
            sc.append('flt%d-%d 1 0 %d 0 f%d %s' % (i, f, 100000 if c.full else 400, f, o))
    n = 3000 if c.full else 150
    for i in range(n):
        s = c.seed * 100003 + i
        sc.append('rnd%d 2 %d %d %d %s' % (s, i % 2, 400 if c.full else 60, s, dns_ops(s)))
    random.Random(5).shuffle(sc)
    w = os.path.join(c.work, 'dns')
    for a in range(0, len(sc), 2000):
        part = sc[a:a + 2000]
        res = dns_runs(c, part, w)
        dnscheck(c, part, res, w)
        if len(c.viol) >= 20:
            return


def dnscheck(c, part, res, w):
    tr, src = [], []
    for s, d in zip(part, res):
        for k, t in enumerate(d['tr']):
            tr.append(dict(id='%s/%d' % (d['id'], k), ev=t['ev']))
            src.append((s, t['sch']))
    rej, st = sim.check('DnsReq', [], tr, os.path.join(c.work, 'chk'))
    ne = sum(len(t['ev']) for t in tr)
    ns = sum(d['n'] for d in res)
    c.states += st
    c.trans += max(0, st - len(tr))
    c.traces += len(tr) - len(rej)
    c.events += ne
    if len(c.samples) < 4 and tr:
        c.samples.append(dict(script=src[0][0], trace=[x['e'] for x in tr[0]['ev']]))
    c.note(module='DnsReq', scripts=len(part), schedules=ns, complete=sum(d['all'] for d in res), distinct_traces=len(tr), events=ne, rejected=len(rej))
    for j, p in sorted(rej.items())[:20]:
        e = tr[j]['ev'][p - 1]
        s, sch = src[j]
        x = s.split()
        c.violation(tr[j]['id'].replace('/', '-'), 'event not allowed by DnsReq: %s (script "%s", schedule %s)' % (json.dumps(e), ' '.join(x[5:]), sch),
                    dict(kind='dns', script=' '.join([x[0], x[1], x[2], '1', '-1', sch] + x[5:]), event=e, before=tr[j]['ev'][:p - 1]))


def dnsreplay(c, d):
    dnscheck(c, [d['script']], dns_runs(c, [d['script']], os.path.join(c.work, 'dns')), c.work)


# --------------------------------------------------------------------- spipe
def spipe_script(seed):
    r = random.Random('sp%s' % seed)
    opt = [x for x, p in (('t', .4), ('f', .15), ('g', .15), ('j', .1)) if r.random() < p]
    if 'f' in opt and 'g' in opt:
        opt.remove('g')
    if r.random() < 0.7:
        opt.append('F%d' % r.choice([5, 20, 50, 80]))
    kind = r.choices(['clean', 'any', 'hs', 'err', 'term'], [6, 5, 2, 2, 1])[0]
    big = r.random() < 0.25
    if big:
        opt = [x for x in opt if x[0] != 'F' or x == 'F5']
    amt = (lambda: r.choice([1, 2, 1023, 1024, 1025, 4096, 8192, 8193, 70000] + ([300000, 1500000] if big else [])))
    ops = []
    if kind == 'hs':
        k = r.choice(['aK', 'aT', 'aX', 'aH', 'aS', 'a1', 'N'])
        if k == 'N':
            opt.append('N')
        else:
            if k == 'aS':
                opt.append('o1')
            if k == 'a1':
                opt = [x for x in opt if x != 'f'] + ['g']
            ops = [k]
        pre = [r.choice(['i%d' % amt(), 'r5', 'I'])] if r.random() < .5 else []
        ops = pre + ops + (['i5', 'r3'] if r.random() < .3 else []) + ['E']
        return ' '.join(['sp%d' % seed] + list(dict.fromkeys(opt)) + ['|'] + ops)
    if kind == 'err':
        opt.append(r.choice(['e', 'E']) + str(r.choice([1, 2, 3, 5, 9])))
    hs = r.choice(['a', 'a', 'a', 'a1'])
    if hs == 'a1' and 'g' in opt:
        opt.remove('g')
    n = r.choice([2, 4, 8, 16])
    mid = []
    for _ in range(n):
        x = r.random()
        if x < .33:
            mid.append('i%d' % amt())
        elif x < .6:
            mid.append('p%d' % amt() if r.random() < .8 else 'q%d' % r.choice([1, 5, 30, 200]))
        elif x < .72:
            mid.append('r%d' % r.choice([0, 1, 2, 5]))
        elif x < .8:
            mid.append('w')
        elif x < .86:
            mid.append(r.choice(['o0', 'o1']))
        elif x < .92:
            mid.append(r.choice(['h0', 'h1']))
        elif x < .95 or kind == 'clean':
            mid.append(r.choice('IP'))
        else:
            mid.append(r.choice(['x%d' % r.randrange(12), 'y%d' % r.choice([0, 1, 1059, 1028]), 'R', 'C', 'O', 'C']))
    at = 0 if r.random() < .6 else r.randrange(1, 3)
    mid.insert(min(at, len(mid)), hs)
    if kind == 'term':
        mid.insert(r.randrange(len(mid) + 1), 'T')
    end = r.choice([['I', 'P'], ['P', 'I'], ['I', 'w', 'P'], ['P', 'w', 'I'], ['w', 'I', 'P', 'C']]) if kind in ('clean', 'err') or r.random() < .5 \
        else r.choice([['I'], ['P'], [], ['C'], ['I', 'C'], ['C', 'I'], ['I', 'R']])
    return ' '.join(['sp%d' % seed] + opt + ['|'] + mid + end + ['E'])


SPIPEBASE = ['|a I P E', '|a P I E', '|i5 a w I w P E', '|a p5 w P w i5 w I E', '|a I p100000 w P E', '|a P i100000 w I E', '|I a P E', '|a I C E',
             '|a C I E', 'N | E', 'N t | i5 I E', '|aX E', '|aK I E', 'o1 |aS E', 'g |a1 E', 'f |a I P E', '|a i2000000 o0 p300000 r20 o1 I P E',
             '|a h0 i3000000 r20 p70000 w h1 I P E', '|a p10 w x5 E', '|a p10 w x6 E', '|a x7 E', '|a x8 E', '|a x1 I E', '|a y500 P I E', '|a T E',
             '|T E', '|a o0 p200000 r20 P T E', '|a h0 i3000000 r20 T E', 'e1 |a i5 E', 'E1 |a p5 E', '|a O p5 E', '|a O I P E', 't|a R i5 r2 i5 E',
             't|a I w R E', '|a i2500000 w I P E', '|a p1500000 w P I E', '|a q3000 w I P E']


def spipe(c):
    n = 6000 if c.full else 500
    sc = ['sb%d %s' % (i, s.replace('|', '| ')) for i, s in enumerate(SPIPEBASE)] + [spipe_script(c.seed * 100003 + i) for i in range(n)]
    modcheck(c, 'Spipe', 'spipe_drv', 'random', sc, [], 'plain', ['read', 'write'], ['refcrypto'], perpart=1500, jobs=24, again=20)


# ----------------------------------------------------------------- daemonizing
DMNSYMS = ('pipe pipe2 setsid close read write socket bind listen fopen rename open fprintf fwrite fputs fflush fclose fork '
           'getaddrinfo sleep poll').split()
DMNBAD = {'P': 'pid', 'V': 'pid', 'k': 'key', 'b': 'addr'}


def dmn_post(t):
    t = dict(t)
    bad = next((DMNBAD[w[0]] for w in t['script'].split()[1:] if w[0] in DMNBAD), '')
    if not bad and not t['D'] and any(w[0] == 'g' for w in t['script'].split()[1:]):
        bad = 'dns'
    t['cfg'] = dict(D=t.pop('D'), F=t.pop('F'), bad=bad)
    return t


def daemonize(c):
    base = ['', 'p', 'Q', 't1', 'T', 'D', 'D p', 'D Q', 'D g3', 'D g1 t2', 'g2', 'F', 'F p', 'F t3', 'P', 'V', 'D P', 'D V', 'k', 'D k', 'F k', 'b', 'D b', 'F P']
    sc = ['db%d %s' % (i, b) for i, b in enumerate(base)]
    exe = build.harness(c.build, 'dmn', 'plain', DMNSYMS)
    tr = drive(exe, sc, os.path.join(c.work, 'mod'))
    # every system call of either process, every kind of trouble
    for b, s, t in zip(base, sc, tr):
        if any(w[0] in DMNBAD or w[0] == 'g' for w in b.split()) or (not c.full and b in ('p', 't1', 'T', 'D p', 'F p', 'F t3')):
            continue
        for role, n in (('p', t['np']), ('c', t['nc'])):
            for k in range(1, n + 1):
                sc += ['di-%d-%s%s%d %s I%s%s%d' % (len(sc), role, x, k, b, role, x, k)
                       for x in ('FKAID' if role == 'c' else 'FID')]
    modcheck(c, 'Daemonize', 'dmn', 'faults', sc, [], 'plain', DMNSYMS, jobs=16, again=10)


POST['dmn'] = dmn_post


# --------------------------------------------------------------- command lines
CLISYMS = 'socket bind listen setsockopt connect poll fork sleep socketpair getaddrinfo setuid setgid setgroups'.split()
ADDRS = ['[127.0.0.1]:8001', '[10.1.2.3]:1', '[::1]:65535', '[fe80::1]:22', '/tmp/x/sock', '/s', 'localhost:80', 'localhost:8022']
BADADDRS = ['', '127.0.0.1', '127.0.0.1:', 'foo', 'localhost', '[127.0.0.1]8001', '[127.0.0.1', '[127.0.0.1]:', '[127.0.0.1]:99999', '[127.0.0.1]:65536',
            '[127.0.0.1]:80x', '[127.0.0.1]:-1', '[1.2.3.4.5]:1', '[1.2.3]:x', '[::g]:1', '[]:1', 'nosuchhost:80', '[127.0.0.1:80', '127.0.0.1]:80', 'tmp/x',
            '[127.0.0.1]:8 0', '[127.0.0.1]:+80', ':80', '[127.0.0.1]:0080']
SECS = ['1', '5', '60', '0.5', '2.25', '10', '3600', '.5', '5.', '86400', '1e2', '100000', '4294967296']
BADSECS = ['', 'x', '5s', '-1', '-0.5', 'nan', 'NaN', '1,5', '5 ', '1e', '1.2.3', '--5', '5x', '0x', 'e5', '-', '.', '-inf', 'nan(1)', '0', '0.0', 'inf', '+5', ' 5', '0x10', '-0']
COUNTS = ['0', '1', '2', '100', '500', '65536', '4294967295', '4294967296', '18446744073709551615', '9223372036854775808']
BADCOUNTS = ['', 'x', '5x', '-1', '-5', '-100', '18446744073709551616', '99999999999999999999', '1.5', '1e3', '-18446744073709551615', '5 ', '-', '--1', 'all', '010', '0x10', '+5',
             ' 7', '36893488147419103233', '-0', 'ten']


def cli_opts(r, prog):
    """A valid command line as a list of options [(letter, value or None)]."""
    o = [('k', '@KEY@'), ('t', r.choice(ADDRS))]
    if prog == 'spiped':
        o += [(r.choice('de'), None), ('s', r.choice(ADDRS))]
        if r.random() < .7: o.append(('F', None))
        if r.random() < .2: o.append(('D', None))
        if r.random() < .3: o.append(('n', r.choice(COUNTS)))
        if r.random() < .3: o.append(('p', r.choice(['/tmp/nonexistent/p', 'pid'])))
        x = r.random()
        if x < .2: o.append(('r', r.choice(SECS)))
        elif x < .3: o.append(('R', None))
        if r.random() < .15: o.append(('-syslog', None))
        if r.random() < .15: o.append(('u', r.choice(['root', ':root', 'root:root'])))
    x = r.random()
    if x < .2: o.append(('f', None))
    elif x < .4: o.append(('g', None))
    if r.random() < .2: o.append(('j', None))
    if r.random() < .35: o.append(('o', r.choice(SECS)))
    if r.random() < .2: o.append(('b', r.choice(ADDRS + ['[127.0.0.1]', '[127.0.0.1]:0', '[::1]'])))
    r.shuffle(o)
    return o


def cli_words(r, o):
    """Render: separate and joined values, grouped flags."""
    w, grp = [], False
    for c, v in o:
        if c == '-syslog':
            w.append('--syslog')
            grp = False
            continue
        if grp and r.random() < .5:
            w[-1] += c
        else:
            w.append('-' + c)
        grp = v is None
        if v is not None:
            if v != '' and r.random() < .4:
                w[-1] += v
            else:
                w.append(v)
    return w


def cli_spoil(r, prog, o):
    o = list(o)
    k = r.randrange(8)
    i = r.randrange(len(o))
    flags, args = ('dDefFgjRv', 'bknoprstu') if prog == 'spiped' else ('fgjv', 'bkot')
    if k == 0:
        o.pop(i)
    elif k == 1:
        o.insert(r.randrange(len(o) + 1), o[i])
    elif k == 2:
        o.insert(i, (r.choice(flags), None))
    elif k == 3:
        c = r.choice(args)
        o = [x for x in o if x[0] != c]
        bad = BADSECS if c in 'or' else BADCOUNTS if c == 'n' else BADADDRS if c in 'bst' else ['/nonexistent/key'] if c == 'k' else ['x']
        o.insert(r.randrange(len(o) + 1), (c, r.choice(bad)))
    elif k == 4:
        o.insert(i, (r.choice('aclmqwxyzABCEGHIJKLMNOPQSTUVWXYZ019?:h='), None))
    elif k == 5:
        w = cli_words(r, o)
        w.insert(r.randrange(len(w) + 1), r.choice(['', '-', 'x', '--', '--help', '--syslog=1', '--sys', '-h', '--syslogx', '---', '--v', '-', '5']))
        return w
    elif k == 6:
        w = cli_words(r, o)
        return w[:r.randrange(len(w))]
    else:
        w = cli_words(r, o)
        w.append('-' + r.choice(args))
        return w
    return cli_words(r, o)


def pct(s):
    return ''.join(ch if ch.isalnum() or ch in '/[]:.-@' else '%%%02x' % ord(ch) for ch in s) or '%'


def cli_post(prog):
    def f(t):
        t = dict(t)
        from urllib.parse import unquote
        av = [unquote(w) if w != '%' else '' for w in t['script'].split()[1:]]
        t['ev'] = [dict(t['ev'][0], prog=prog, argv=av)]
        return t
    return f


def cli(c):
    n = 12000 if c.full else 1500
    for prog in ('spiped', 'spipe'):
        sc = ['c0', 'c1 -v']
        for i in range(n):
            r = random.Random('cli%s%d' % (prog, c.seed * 100003 + i))
            o = cli_opts(r, prog)
            if i % 3 == 0:
                w = cli_words(r, o)
            else:
                w = cli_spoil(r, prog, o)
                if i % 3 == 2 and r.random() < .3:
                    w = w + cli_words(r, o)[-1:]
            sc.append('c%d %s' % (i + 2, ' '.join(pct(x) for x in w)))
        if prog == 'spiped':
            for v in ['60', '0', '30', '60.0', '1e9']:
                for a in ('-r %s -R', '-R -r %s', '-Rr%s'):
                    sc.append('r%d -k @KEY@ -eF -s %s -t %s %s' % (len(sc), ADDRS[0], ADDRS[1], a % v))
        # every bad value in every place, on its own
        base = [('k', '@KEY@'), ('t', ADDRS[0])] + ([('e', None), ('F', None), ('s', ADDRS[1])] if prog == 'spiped' else [])
        for cs, vals in (('or', BADSECS + SECS), ('n', BADCOUNTS + COUNTS), ('bst', BADADDRS + ADDRS)):
            for ch in cs:
                if ch in ('bknoprstu' if prog == 'spiped' else 'bkot'):
                    for v in vals:
                        w = []
                        for a, b in [x for x in base if x[0] != ch] + [(ch, v)]:
                            w += ['-' + a] + ([] if b is None else [b])
                        sc.append('v%d %s' % (len(sc), ' '.join(pct(x) for x in w)))
        modcheck(c, 'Cli', 'cli@' + prog, prog, sc, [], 'plain', CLISYMS)


POST['cli@spiped'] = cli_post('spiped')
POST['cli@spipe'] = cli_post('spipe')
