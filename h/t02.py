# T02: hogl-trace makes one event of each trace record.
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vh import *

TOOL = REPO + '/tools/hogl-trace'
LAYOUT = {   # fields -> (layout, with ring)
    'timespec|area|section': 5,
    'timespec|ring|seqnum|area|section': 6, 'fast0': 6,
    'timespec|timedelta|ring|seqnum|area|section': 7, 'fast1': 7,
}
ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
PUNCT = '_-.,;=+*/%&()[]{}<>"\'\\|~^$@!?`'


def token(g, colon=0, lo=1):
    n = g.choice([lo, 1, 3, 6, 12]) if g.pct(98) else 300
    s = ''.join(g.choice(ALNUM if g.pct(75) else PUNCT) for _ in range(max(n, lo)))
    if g.pct(8): s += g.choice(['\u00e9', '\u4e16\u754c', '\U0001f600'])
    if colon and g.pct(25):
        for _ in range(g.randrange(1, 4)):
            i = g.randrange(len(s) + 1)
            s = s[:i] + ':' + s[i:]
    return s


def hx(b):
    return 'x' + (b if isinstance(b, bytes) else b.encode()).hex()


def record(g, layout, ring):
    """-> (message text, event or None, why)"""
    ev_ = {'cat': token(g), 'name': token(g, 1), 'pid': token(g), 'dur': 1, 'ph': 'X', 'args': {}}
    ev_['tid'] = ev_['pid'] if layout == 5 else ring
    sp = lambda: ' ' * (1 if g.pct(85) else g.randrange(1, 5))
    msg = ev_['cat'] + sp() + ev_['name'] + sp() + ev_['pid']
    bad = None
    k = g.randrange(20)
    if k == 0:
        msg += sp() + token(g); bad = 'extra field'
        if layout != 7: bad = 'reinterpreted'      # reads as another layout
    elif k == 1:
        msg = ev_['cat'] + sp() + ev_['name']; bad = 'missing field'
        if layout != 5: bad = 'reinterpreted'
    attrs, args = [], []
    for _ in range(g.choice([0, 0, 1, 2, 5])):
        n = g.choice(['ph', 'dur', 'ts', 'tid', 'pid', 'cat', 'name', 'id', 's', 'x' + token(g)]).replace(':', '')
        v = g.choice(['B', 'E', 'i', 'X', '17']) if g.pct(50) else token(g, 1)
        attrs.append(n + ':' + v); ev_[n] = v
    for _ in range(g.choice([0, 0, 1, 2, 7, 16])):
        n = token(g); v = token(g, 1) if g.pct(90) else ''
        args.append(n + ':' + v); ev_['args'][n] = v
    if bad is None and g.pct(4):
        (attrs if g.pct(50) else args).insert(0, token(g)); bad = 'no value'
    if attrs or args or g.pct(20):
        msg += sp() + '#' + (sp() + sp().join(attrs) if attrs else g.choice(['', ' ', '  ']))
        if args or g.pct(20): msg += sp() + '#' + (sp() + sp().join(args) if args else '')
    if g.pct(5): msg += '   '
    return msg, ev_, bad


def main():
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    g = G(seed)
    rule('logs written by the library, each checked run of hogl-trace is one evaluation; distinct by expected events')
    cases, cmds, tot = [], [], 0
    for c in range(n):
        d = os.path.join(SCRATCH, 'c%d' % c)
        os.mkdir(d)
        files = []
        for f in range(g.choice([1, 1, 1, 2, 3])):
            p = os.path.join(d, g.choice(['log', 'a b.log', 'l:1.TRACE']) + str(f))
            fields = g.choice(sorted(LAYOUT))
            cmds.append('F %s %s' % (hx(p), hx(fields)))
            t = g.choice([0, 999, 1000, 28536361036022, 1451508993696685263, 1600000000 * 10 ** 9 + g.randrange(10 ** 9), (1 << 53) + 1, g.randrange(10 ** 10) * 10 ** 9])
            want = []
            for r in range(g.choice([0, 1, 2, 5, 20, 60]) if g.pct(97) else 1500):
                ring = g.choice(['TID', 'main', 'r1', '(x)', 'worker-7', 'net:rx', ':', 'a:1', '\u00e9'])
                sect = 'TRACE' if g.pct(80) else g.choice(['INFO', 'DEBUG', 'TRAC', 'XTRACE'])
                area = g.choice(['A1', 'NET-X', 'B'])
                while True:
                    msg, e, bad = record(g, LAYOUT[fields], ring)
                    if bad != 'reinterpreted' and ':TRACE' not in msg: break
                raw = msg.encode()
                if g.pct(2):     # damaged text somewhere behind the event
                    raw += (b' ' if '#' in msg else b' # ') + g.choice([b'\r', b'\r \r', b'\x0b'])
                if g.pct(2) and '#' in msg and not bad:
                    raw += b' INVALID-TEXT:' + g.choice([b'\xff', b'\xed\xa0\x80', b'a\x80b']); e = dict(e, **{'?': 1})
                e['ts'] = e.get('ts', t // 1000)
                seq = g.randrange(1 << g.randrange(1, 40))
                cmds.append('R %d %s %d %s %s %s %d' % (t, hx(ring), seq, hx(area), hx(sect), hx(raw), g.randrange(2)))
                tot += 1
                if sect == 'TRACE': want.append((e, bad, msg, area))
                t = max(0, t + g.choice([0, 1, 499, 500, 999, 1000, 12345, 10 ** 6, 10 ** 9, 3600 * 10 ** 9, -1, -10 ** 6]))
            files.append((p, want))
        cases.append((d, files))
    r = subprocess.run([os.environ['VH_TOOL_T01GEN']], input='\n'.join(cmds).encode() + b'\n', stdout=subprocess.PIPE)
    if r.returncode or int(r.stdout) != tot:
        return err('log generator failed: %r' % r)
    wrap = os.path.join(SCRATCH, 'mygrep')
    with open(wrap, 'w') as f:
        f.write('#!/bin/sh\necho used >> %s.mark\nexec /bin/grep "$@"\n' % wrap)
    os.chmod(wrap, 0o755)
    for d, files in cases:
        lang = g.choice(['C', 'C.UTF-8'])
        env = dict(os.environ, LC_ALL=lang)
        args, outf, want = [], None, [w for _, ws in files for w in ws]
        if g.pct(20):
            ar = g.choice(['A1', 'B']); args += [g.choice(['-r', '--regex']), g.choice([' %s:TRACE ', '[ ]%s:TRACE']) % ar]; want = [w for w in want if w[3] == ar]
        if g.pct(10): args += [g.choice(['-g', '--grep']), wrap]
        if g.pct(50):
            outf = os.path.join(d, 'out')
            if g.pct(50):
                with open(outf, 'wb') as f:
                    f.write(b'{"old": 1}\n' * 100000)
            args += [g.choice(['-o', '--output']), 'out']
        cmd = [sys.executable, TOOL] + args + [os.path.basename(f) for f, _ in files]
        try:
            p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            viol('endless', 'hogl-trace did not end: %r' % (args,))
            continue
        what = '%s %r on %d files' % (lang, args, len(files))
        got = p.stdout
        if p.returncode:
            viol('exit-status', '%s: exit %d: %r' % (what, p.returncode, p.stderr[-400:]))
            continue
        if outf:
            with open(outf, 'rb') as f:
                got = f.read()
        if wrap in args:
            if not os.path.exists(wrap + '.mark'): viol('grep-path', '%s: the given grep was not used' % what)
            else: os.unlink(wrap + '.mark')
        ev()
        good = [e for e, bad, _, _ in want if not bad]
        nbad = len(want) - len(good)
        stat('events', len(good)); stat('unusable_records', nbad); stat('several_files', len(files) > 1); stat('output_files', bool(outf))
        stat('event_args', sum(len(e['args']) for e in good))
        try:
            j = json.loads(got.decode('utf-8'))
            evs = j['traceEvents']
        except Exception as x:
            viol('json', '%s: the trace is not valid: %s: ...%r' % (what, x, got[-200:]))
            continue
        if not isinstance(evs, list) or not all(isinstance(e, dict) for e in evs):
            viol('json', '%s: traceEvents is not a list of events' % what)
            continue
        for i in range(max(len(evs), len(good))):
            if i >= len(evs): viol('events', '%s: %d of %d events missing, the first is %r' % (what, len(good) - len(evs), len(good), good[i])); break
            if i >= len(good): viol('events', '%s: %d events instead of %d: %r' % (what, len(evs), len(good), evs[i])); break
            a, b = dict(evs[i]), dict(good[i])
            if '?' in b:
                del b['?']
                # the value that is not valid text
                for x in (a, a.get('args')):
                    if isinstance(x, dict): x.pop('INVALID-TEXT', None)
                stat('invalid_text')
            if a != b:
                dk = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
                viol('timestamp' if dk == ['ts'] else 'fields', '%s: event %d differs in %s: %r instead of %r' % (what, i, dk, {k: a.get(k) for k in dk}, {k: b.get(k) for k in dk}))
                break
        if nbad and (p.stderr + (p.stdout if outf else b'')).count(b'\n') < nbad:
            viol('warning', '%s: %d records are left out without a warning: %r' % (what, nbad, p.stderr[-300:]))
        distinct(repr(good))
        if good: sample('%s: %d events, e.g. %r' % (what, len(good), good[-1]))
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


main()
end()
