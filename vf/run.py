"""Runs batches of cases through the driver, isolating crashes and hangs."""
import json, os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build

JOBS = int(os.environ.get('VF_JOBS', '8'))

class HarnessError(Exception):
    pass

class Case:
    __slots__ = ('entry', 'opts', 'data', 'tag', 'out')
    def __init__(self, entry, data, tag=None, **opts):
        if isinstance(data, str):
            data = data.encode('utf8')
        self.entry, self.data, self.tag, self.opts, self.out = entry, data, tag, opts, None
    def line(self, i):
        o = ' '.join('%s=%s' % (k, v if not isinstance(v, (list, tuple)) else ','.join(map(str, v))) for k, v in self.opts.items())
        return ('%d %s %s %s\n' % (i, self.entry, o, self.data.hex() or '-'))
    def describe(self):
        return dict(entry=self.entry, opts={k: v for k, v in self.opts.items()}, input=self.data.decode('latin1'))

class Crash(dict):
    """Result of a case that did not complete: kind is 'crash' or 'timeout'."""
    pass

def summarize_stderr(err):
    t = err.decode('utf8', 'replace')
    for key in ('ERROR: AddressSanitizer', 'runtime error', 'Assertion', 'WARNING: MemorySanitizer', 'VF-LEDGER', 'ThreadSanitizer'):
        for line in t.splitlines():
            if key in line:
                return line.strip()[:300]
    return t.strip()[-300:]

def frames(err, n=6):
    import re
    fs = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) [^\n]*?([^/\s]+\.(?:c|leg|h)):(\d+)', err.decode('utf8', 'replace'))
    return ['%s %s:%s' % f for f in fs if not f[0].startswith(('__interceptor', '__asan', 'vf_'))][:n]

def run_chunk(exe, cases, limit, extra=()):
    i = 0
    while i < len(cases):
        chunk = cases[i:]
        data = ''.join(c.line(k) for k, c in enumerate(chunk)).encode()
        with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
            fi.write(data); fi.seek(0)
            p = subprocess.Popen([exe] + list(extra) + [str(limit)], stdin=fi, stdout=fo, stderr=fe, env=build.env())
            rc = p.wait()
            fo.seek(0); out = fo.read(); fe.seek(0); err = fe.read()
        lines = out.split(b'\n')
        done = 0
        for ln in lines[:-1]:
            d = json.loads(ln.decode('latin1'))
            if int(d['id']) != done:
                raise HarnessError('driver answered out of order')
            chunk[done].out = d
            done += 1
        if done == len(chunk):
            if rc != 0:
                raise HarnessError('driver exit %d after all cases: %s' % (rc, err[-2000:].decode('utf8', 'replace')))
            return
        if rc == 3:
            raise HarnessError('driver error: %s' % err[-2000:].decode('utf8', 'replace'))
        if rc == 0:
            raise HarnessError('driver stopped early')
        kind = 'timeout' if rc == -14 else 'crash'
        if rc == -9:
            raise HarnessError('driver was killed (out of memory?)')
        chunk[done].out = Crash(kind=kind, rc=rc, what=summarize_stderr(err) if kind == 'crash' else 'no result within %d s' % limit,
                                frames=frames(err), stderr=err[-6000:].decode('utf8', 'replace'))
        i += done + 1

def run(cases, flavour='asan', limit=30, chunk=None, exe=None):
    """Runs all cases; every case gets .out (dict, or Crash). Hanging cases are re-run alone."""
    if not cases:
        return
    exe = exe or os.path.join(build.build(flavour), 'drv')
    if chunk is None:
        chunk = max(1, min(400, (len(cases) + JOBS * 4 - 1) // (JOBS * 4)))
    parts = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda c: run_chunk(exe, c, limit), parts))
    slow = [c for c in cases if isinstance(c.out, Crash) and c.out['kind'] == 'timeout']
    for c in slow[:3]:
        run_chunk(exe, [c], limit * 4)
