"""Scenarios for the simulated OS, recording, and checking against Spiped.tla."""
import hashlib, json, os, subprocess, tempfile, concurrent.futures as cf, re
import build

KEY = b'model based key file'
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(build.VERIF, 'spec')


class Scen:
    """One run of the program under a scripted environment."""
    def __init__(self, id, mode='e', nopfs=0, reqpfs=0, timeo=None, maxc=None, ka=1, src='[127.0.0.1]:8001',
                 tgt='[127.0.0.1]:8002', bind=None, rtime=None, noresolve=False, user=None, key=KEY, extra=(),
                 seed=1, setup=(), cmds=(), argv=None, **meta):
        self.__dict__.update(id=id, mode=mode, nopfs=nopfs, reqpfs=reqpfs, timeo=timeo, maxc=maxc, ka=ka, src=src,
                             tgt=tgt, bind=bind, rtime=rtime, noresolve=noresolve, user=user, key=key,
                             extra=list(extra), seed=seed, setup=list(setup), cmds=list(cmds), meta=meta, argv=argv)

    def args(self, keyfile, pid):
        if self.argv is not None:
            return [a.replace('@KEY@', keyfile).replace('@PID@', pid) for a in self.argv]
        a = ['spiped', '-F', '-' + self.mode, '-s', self.src, '-t', self.tgt, '-k', keyfile, '-p', pid]
        if self.nopfs: a.append('-f')
        if self.reqpfs: a.append('-g')
        if self.timeo is not None: a += ['-o', str(self.timeo)]
        if self.maxc is not None: a += ['-n', str(self.maxc)]
        if not self.ka: a.append('-j')
        if self.bind: a += ['-b', self.bind]
        if self.rtime is not None: a += ['-r', str(self.rtime)]
        if self.noresolve: a.append('-R')
        if self.user is not None: a += ['-u', self.user]
        return a + self.extra

    def host(self):
        return self.tgt[0] not in '[/'

    def cfg(self):
        t = 5.0 if not self.timeo else float(self.timeo)
        uid, gid = -1, -1                       # not to be changed
        if self.user:
            u, _, g = self.user.partition(':')
            if u: uid = ids('user', 1000, u)
            if g: gid = ids('grp', 3000, g)
        bind = '-'
        if self.bind:
            bind = norm_addr(self.bind, bindform=True)
        r = 60.0 if self.rtime is None else float(self.rtime)
        c = dict(mode=self.mode, nopfs=self.nopfs, reqpfs=self.reqpfs,
                 timeo=int(min(t, 1e6) * 1000 + 0.5), maxc=100 if self.maxc is None else self.maxc,
                 ka=self.ka, src=norm_addr(self.src), addrs=[] if self.host() else [norm_addr(self.tgt)],
                 bind=bind, rtime=0 if (self.noresolve or not self.host()) else int(r * 1000),
                 drop=0 if self.user is None else 1, uid=uid, gid=gid, badkey=0, badcli=1 if -2 in (uid, gid) else 0)
        c.update({k: v for k, v in self.meta.items() if k in c})
        return c

    def text(self, keyfile, pid):
        k = hashlib.sha256(self.key).hexdigest()
        o = ['S ' + self.id, 'K ' + k, 'M ' + self.mode, 'seed %d' % self.seed, 'src ' + self.src]
        o += ['A ' + x for x in self.args(keyfile, pid)]
        o += ['C ' + x for x in self.setup]
        o.append('C start')
        o += ['C ' + x for x in self.cmds]
        o += ['C end', 'E']
        return '\n'.join(o) + '\n'


def ids(pfx, base, n):
    """Number for a user or group name (see sim_getpwnam), or -2."""
    if n.startswith(pfx):
        m = re.match(r'\d*', n[len(pfx):]).group(0)
        return base + int(m or 0)
    return int(n) if n.isdigit() and int(n) < 2**32 - 1 else -2


def norm_addr(a, bindform=False):
    import ipaddress
    if a.startswith('/'):
        return a
    m = re.match(r'^\[([^\]]*)\](?::(\d+))?$', a)
    if m:
        return '[%s]:%d' % (ipaddress.ip_address(m.group(1)), int(m.group(2) or 0))
    return a


MAXEV = 60000
CRASH = {'Crash', 'Abort', 'Spin', 'Hang', 'Deadlock', 'BadFd', 'HeapBad', 'MtxBad', 'ThExit'}
DROP = {'ThNew', 'ThEnd', 'ThJoin', 'Mark', 'Time', 'Open', 'Dup2', 'Sleep', 'Fork', 'Setsid', 'RndOpen'}


def normalise(scen, ev):
    """Recorded events -> events of the specification."""
    out = []
    n = 1 + max([e.get('c', -1) for e in ev if e.get('e') == 'EClient'], default=-1)
    port = ''
    host = None
    live = False            # nothing else happened since the last Idle
    for e in ev:
        k = e['e']
        if k == 'RndOpen' and not e['ok']:
            e = {'t': e['t'], 'e': 'RndFail'}
            k = 'RndFail'
        elif k in ('FcntlFail', 'SocketFail'):
            e = {'t': e['t'], 'e': 'NoSocket', 'c': e['c']} if e['c'] >= 0 else {'t': e['t'], 'e': 'SFail'}
        elif k == 'Connect':
            e = dict(e, addr=norm_addr(e['addr']), bind=norm_addr(e['bind']))
        elif k == 'Listen':
            e = dict(e, addr=norm_addr(e['addr']))
        elif k == 'Bind':
            e = dict(e, addr=norm_addr(e['addr']))
            if e['c'] >= 0:
                if e['err'] == '0':
                    continue
                e = {'t': e['t'], 'e': 'NoSocket', 'c': e['c']}
        elif k in ('RecvErr', 'SendErr'):
            e = {'t': e['t'], 'e': 'IoErr', 'c': e['c']}
        elif k == 'SockOpt':
            if e['c'] < 0:
                continue
            e = dict(e, ok=1 if e['err'] == '0' else 0)
        elif k == 'Close':
            if e['s'] == 'o' or (e['c'] < 0 and e['s'] != 'l'):
                continue
        elif k == 'Priv':
            if e['op'].startswith('getpw') or e['op'].startswith('getgr'):
                if e['err'] == '0':
                    continue
                e = {'t': e['t'], 'e': 'SFail'}
            elif e['op'] == 'initgroups':
                e = dict(e, op='setgroups')
        elif k == 'DnsAsk':
            host = e['host']
            port = e['port']
            if not scen.host() or host != scen.tgt.rsplit(':', 1)[0]:
                host = None
                continue
        elif k == 'DnsAns':
            if host is None:
                if e['a'] == 'fail' and not e['th']:
                    out.append({'t': e['t'], 'e': 'SFail'})
                continue
            l = [] if e['a'] in ('fail', '') else [
                a if a[0] == '/' else norm_addr('[%s]:%s' % (a, port)) for a in e['a'].split(',')]
            e = {'t': e['t'], 'e': 'DnsAns', 'l': l, 'th': e['th']}
        elif k == 'Idle':
            if out and out[-1]['e'] == 'Idle' and all(out[-1][x] == e[x] for x in ('io', 'lq', 'heap')):
                out[-1] = e
                continue
        elif k == 'Send' and e['s'] == 'c' and out and out[-1]['e'] == 'Send' and out[-1]['s'] == 'c' \
                and out[-1]['c'] == e['c'] and out[-1]['t'] == e['t']:
            out[-1] = dict(e, n=out[-1]['n'] + e['n'])
            continue
        elif k in DROP:
            continue
        out.append(e)
    if len(out) > MAXEV:            # far beyond anything a scenario can cause
        out = out[:20] + [{'t': out[19]['t'], 'e': 'Spin'}]
    if not out or out[-1]['e'] not in ('End', 'Exit', 'Killed'):
        out.append({'t': out[-1]['t'] if out else 0, 'e': 'Died'})
    if out[-1]['t'] < (out[-2]['t'] if len(out) > 1 else 0):
        out[-1]['t'] = out[-2]['t']
    for e in out:
        e['t'] = max(0, min(e['t'], 2000000000))
    return out, n


def record(exe, scens, work, jobs=8):
    """Run scenarios; return list of (scen, raw events)."""
    os.makedirs(work, exist_ok=True)
    files = []
    kf = {}
    for s in scens:
        if s.key not in kf:
            p = os.path.join(work, 'key%d' % len(kf))
            open(p, 'wb').write(s.key)
            kf[s.key] = p
    chunks = [scens[i::jobs] for i in range(jobs) if scens[i::jobs]]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1')

    def go(i):
        ch = chunks[i]
        f, o = os.path.join(work, 'in%d' % i), os.path.join(work, 'out%d' % i)
        with open(f, 'w') as h:
            for s in ch:
                h.write(s.text(kf[s.key], os.path.join(work, 'pid%d' % i)))
        r = subprocess.run([exe, f, o], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError('simos failed: ' + r.stdout[-2000:])
        res = []
        with open(o) as h:
            for line in h:
                d = json.loads(line)
                res.append((d['id'], d['ev']))
        os.unlink(o)
        assert [r[0] for r in res] == [s.id for s in ch]
        return [(s, r[1]) for s, r in zip(ch, res)]
    out = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(go, range(len(chunks))):
            out += r
    return out


def tlc(args, env=None, heap='1g', timeout=900, cwd=SPEC, meta=None):
    m = meta or tempfile.mkdtemp(prefix='tlcmeta')
    cmd = ['java', '-Xmx' + heap, '-XX:+UseSerialGC' if heap in ('1g', '2g') else '-XX:+UseParallelGC',
           '-Xss16m', '-cp', TLA, 'tlc2.TLC', '-metadir', m, '-noGenerateSpecTE'] + args
    r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    subprocess.run(['rm', '-rf', m])
    return r.returncode, r.stdout


class CheckError(Exception):
    pass


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def check(module, props, traces, work, jobs=8, extra=None, perjob=150):
    """Validate traces [{'n','cfg','ev'}] against spec/<module>Trace; returns
    ({index: rejected position}, states)."""
    os.makedirs(work, exist_ok=True)
    if not traces:
        return {}, 0
    tot = sum(len(t['ev']) for t in traces)
    nj = max(1, min(jobs, (len(traces) + 9) // 10))
    # balance by size
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]['ev']))
    bins = [[] for _ in range(nj)]
    for k, i in enumerate(order):
        bins[k % nj].append(i)

    def go(b):
        f = os.path.join(work, 'tr-%s-%d.json' % (module, b))
        with open(f, 'w') as h:
            json.dump(dict({'props': list(props), 'traces': [traces[i] for i in bins[b]]}, **(extra or {})), h)
        rc, out = tlc(['-workers', '1', '-config', module + 'Trace.cfg', module + 'Trace.tla'],
                      env={'TRACES': f}, meta=os.path.join(work, 'meta%s%d' % (module, b)), heap='2g')
        os.unlink(f)
        rej = {}
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', out):
            rej[bins[b][int(m.group(1)) - 1]] = int(m.group(2))
        if 'Model checking completed' not in out and not (rej and 'ostcondition' in out):
            raise CheckError('TLC failed on %s:\n%s' % (module, out[-3000:]))
        return rej, stats(out)[1]
    rejs, st = {}, 0
    with cf.ThreadPoolExecutor(nj) as ex:
        for r, s in ex.map(go, range(nj)):
            rejs.update(r)
            st += s
    return rejs, st


def diagnose(module, props, trace, pos, work):
    """State of the specification just before the rejected event."""
    f = os.path.join(work, 'diag.json')
    json.dump({'props': list(props), 'traces': [trace], 'skip': pos}, open(f, 'w'))
    cfgf = open(os.path.join(SPEC, module + 'Trace.cfg')).read() + '\nINVARIANT NotStuck\n'
    cp = os.path.join(work, 'diag.cfg')
    open(cp, 'w').write(cfgf)
    rc, out = tlc(['-workers', '1', '-config', cp, module + 'Trace.tla'], env={'TRACES': f})
    k = out.rfind('\nState ')
    return out[k:k + 8000]
