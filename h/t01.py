# T01: hogl-grep prints exactly the records grep selects, with exact deltas between them.
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vh import *

TOOL = REPO + '/tools/hogl-grep'
GREP = '/bin/grep'
WORDS = ['alpha', 'Beta', 'gamma', 'x', 'a.b', 'A(1)', '(12)', '(3) z', '00000000007.000000001', '100%', '-v', 'caf\u00e9', '\u4e16\u754c', '[y]', 'TAB\there', 'q\\n', '$', '^', '#', 'a:b', '"', "'"]
RAW = [b'\r', b'\xff', b'\x80x', b'a\rb', b'\x0b', b'\x0c', b'\x1c', b'\xc2\x85', b'\xe2\x80\xa8', b'\xed\xa0\x80', b'\x1b[0m']


def text(g):
    n = g.choice([1, 1, 2, 3, 5, 8, 30])
    b = [w.encode() if not isinstance(w, bytes) else w for w in (g.choice(RAW) if g.pct(12) else g.choice(WORDS) for _ in range(n))]
    return b' '.join(b)


def next_time(g, t):
    k = g.randrange(12)
    S = 10 ** 9
    if k == 0: return t
    if k == 1: return t + 1
    if k <= 4: return t + g.randrange(1000)
    if k <= 6: return t + g.randrange(10 ** 6)
    if k == 7: return t + g.randrange(5 * S)
    if k == 8: return t + g.randrange(3600 * S)
    if k == 9: return max(0, t - g.randrange(10 ** g.randrange(1, 12)))
    if k == 10: return t - t % S + g.choice([0, 1, 9, 999999999, 999999998, 500000000])
    return t + S - 1 + g.randrange(3)


def start_time(g):
    return g.choice([0, 0, 1, 5, 10 ** 9, 10 ** 9 - 1, 28536361036022, 1451508993696685263, 1600000000 * 10 ** 9 + g.randrange(10 ** 9), (1 << 31) * 10 ** 9, g.randrange(10 ** 10) * 10 ** 9, (1 << 63) - 10 ** 15, (1 << 53) + 1])


FIELDS = ['timespec|timedelta|ring|seqnum|area|section', 'timespec|ring|seqnum|area|section', 'timespec|timedelta|area|section', 'timespec|area|section', 'timespec|area', 'timespec|timedelta|ring', 'timespec|seqnum|section',
          'timespec|timedelta', 'fast0', 'fast1', 'timespec|timedelta|section|area', 'timespec|ring|area|section']


def hx(b):
    return 'x' + (b if isinstance(b, bytes) else b.encode()).hex()


def patterns(g):
    k = g.randrange(14)
    w = g.choice(['alpha', 'Beta', 'gamma', 'x', 'INFO', 'ERROR', 'A1', 'B2', 'caf\u00e9'])
    if k == 0: return ['.']
    if k == 1: return ['--', '-i', w.upper()]
    if k == 2: return ['--', '-v', w]
    if k == 3: return ['--', '-e', w, '-e', 'INFO']
    if k == 4: return ['--', '-E', '%s|gamma' % w]
    if k == 5: return ['--', '-F', '(3) z']
    if k == 6: return ['--', '-w', w]
    if k == 7: return ['A1:(INFO|WARN)' if g.pct(50) else 'A[12]:']
    if k == 8: return ['nothing matches this']
    if k == 9: return ['--', '-m', str(g.randrange(1, 6)), w]
    if k == 10: return ['--', '-Ev', '^0+[0-9]\\.']
    if k == 11: return ['--', '-P', '\\d{9}'] if g.pct(50) else ['[0-9]']
    return [w]


def main():
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    g = G(seed)
    rule('logs written by the library, each checked run of hogl-grep is one evaluation; distinct by expected output')
    cases, cmds, tot = [], [], 0
    for c in range(n):
        d = os.path.join(SCRATCH, 'c%d' % c)
        os.mkdir(d)
        files = []
        for f in range(g.choice([1, 1, 1, 2, 3])):
            p = os.path.join(d, g.choice(['log', 'a b.log', '-x.log', 'l:1']) + str(f))
            fields = g.choice(FIELDS)
            cmds.append('F %s %s' % (hx(p), hx(fields)))
            t = start_time(g)
            m = g.choice([0, 1, 2, 5, 20, 80]) if g.pct(97) else 2000
            ok = 'area' in fields or 'ring' in fields or 'section' in fields or 'fast' in fields or 'timedelta' in fields
            for r in range(m):
                x = text(g)
                # without any other field a text that looks like a delta is taken for one
                if not ok or fields == 'timespec|seqnum|section': x = b't' + x
                cmds.append('R %d %s %d %s %s %s %d' % (t, hx(g.choice(['TID:7', 'main', '(x)', 'r1'])), g.randrange(1 << g.randrange(1, 40)), hx(g.choice(['A1', 'A2', 'B2', 'NET-X'])), hx(g.choice(['INFO', 'WARN', 'ERROR', 'DEBUG'])), hx(x), g.randrange(2)))
                t = next_time(g, t)
                tot += 1
            files.append(p)
        cases.append((d, files))
    r = subprocess.run([os.environ['VH_TOOL_T01GEN']], input='\n'.join(cmds).encode() + b'\n', stdout=subprocess.PIPE)
    if r.returncode or int(r.stdout) != tot:
        return err('log generator failed: %r' % r)
    rec = re.compile(rb'(\d+)\.(\d{9}) (?:\((\d+)\) )?')
    wrap = os.path.join(SCRATCH, 'mygrep')
    with open(wrap, 'w') as f:
        f.write('#!/bin/sh\necho used >> %s.mark\nexec /bin/grep "$@"\n' % wrap)
    os.chmod(wrap, 0o755)
    for c, (d, files) in enumerate(cases):
        pat = patterns(g)
        for lang in ([g.choice(['C', 'C.UTF-8'])] if c % 4 else ['C', 'C.UTF-8']):
            env = dict(os.environ, LC_ALL=lang)
            gp = [x for x in pat if x != '--']
            rel = [os.path.basename(f) for f in files]
            use = ['./' + f for f in rel] if any(f.startswith('-') for f in rel) else rel
            stdin = None
            if len(files) == 1 and g.pct(20):
                stdin, use = open(files[0], 'rb'), []
            sel = subprocess.run([GREP, '-a', '-h'] + gp + (use or ['-']), stdin=open(files[0], 'rb') if stdin else subprocess.DEVNULL, stdout=subprocess.PIPE, cwd=d, env=env)
            if sel.returncode not in (0, 1):
                return err('grep failed: %r' % sel.args)
            want, last, back = [], None, 0
            for l in sel.stdout.split(b'\n')[:-1]:
                m = rec.match(l)
                if not m:
                    return err('log line without a timestamp: %r' % l[:200])
                t = int(m[1]) * 10 ** 9 + int(m[2])
                dl = 0 if last is None else t - last
                back += dl < 0
                last = t
                want.append(m[1] + b'.' + m[2] + b' (%d) ' % dl + l[m.end():] + b'\n')
            args, outf = [], None
            if g.pct(30):
                outf = os.path.join(d, 'out')
                if g.pct(50):
                    with open(outf, 'wb') as f:
                        f.write(b'old\n' * 100000)
                args += [g.choice(['-o', '--output']), 'out']
            if g.pct(15):
                args += [g.choice(['-g', '--grep']), wrap]
            if pat[0] == '--' or g.pct(30):
                args += ['--']
            cmd = [sys.executable, TOOL] + args + gp + use
            try:
                p = subprocess.run(cmd, stdin=stdin or subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, timeout=60)
            except subprocess.TimeoutExpired:
                viol('endless', 'hogl-grep did not end: %r' % (args + gp,))
                continue
            what = '%s %r on %d files%s' % (lang, args + gp, len(files), ' from stdin' if stdin else '')
            got = p.stdout
            if p.returncode:
                viol('exit-status', '%s: exit %d: %r %r' % (what, p.returncode, p.stderr[-300:], p.stdout[-200:]))
                continue
            if outf:
                if got: viol('output-file', '%s: printed %r besides the output file' % (what, got[:200]))
                with open(outf, 'rb') as f:
                    got = f.read()
            if '-g' in args or '--grep' in args:
                if not os.path.exists(wrap + '.mark'): viol('grep-path', '%s: the given grep was not used' % what)
                else: os.unlink(wrap + '.mark')
                stat('own_grep')
            ev()
            stat('records_printed', len(want)); stat('times_going_back', back); stat('several_files', len(files) > 1); stat('output_files', bool(outf)); stat('from_stdin', bool(stdin))
            exp = b''.join(want)
            if got != exp:
                gl = got.split(b'\n')
                for i, w in enumerate(want + [b'']):
                    x = gl[i] if i < len(gl) else b''
                    if x + b'\n' != w and x != w: break
                kind = 'delta' if rec.sub(b'', x) == rec.sub(b'', w.rstrip(b'\n')) else 'records'
                viol(kind, '%s: record %d of %d is %r instead of %r' % (what, i, len(want), x[:200], w[:200]))
            distinct(exp + repr(what).encode())
            if want: sample('%s: %d records, e.g. %r' % (what, len(want), want[-1][:100]))
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


main()
end()
