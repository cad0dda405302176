# Common parts of the harnesses written in Python.
import os, sys, random, zlib
OUT = open(os.environ['VH_OUT'], 'a') if 'VH_OUT' in os.environ else sys.stderr
SCRATCH = os.environ.get('VH_SCRATCH', '.')
REPO = '/repo'
stats, hashes, nviol = {}, set(), 0


def stat(k, n=1):
    stats[k] = stats.get(k, 0) + n


def ev(n=1):
    stat('evaluations', n)


def viol(key, msg):
    global nviol
    nviol += 1
    if nviol <= 20:
        OUT.write('@VIOL %s %s\n' % (key, msg.replace('\n', '\\n')[:1500]))
        OUT.flush()


def sample(s):
    if stats.get('_samples', 0) < 6:
        stats['_samples'] = stats.get('_samples', 0) + 1
        OUT.write('@SAMPLE %s\n' % s.replace('\n', '\\n')[:500])


def rule(s):
    OUT.write('@RULE %s\n' % s)


def distinct(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogatepass')
    hashes.add('%08x%08x' % (zlib.crc32(b), zlib.crc32(b, 0x12345)))


def end():
    for k, v in stats.items():
        if not k.startswith('_'):
            OUT.write('@STAT %s %d\n' % (k, v))
    OUT.write('@H %s\n' % ' '.join(sorted(hashes)))
    OUT.flush()
    sys.exit(3 if nviol else 0)


def err(s):
    OUT.write('@ERR %s\n' % s.replace('\n', '\\n')[:2000])
    OUT.flush()
    sys.exit(97)


class G(random.Random):
    def pct(self, p):
        return self.random() * 100 < p
