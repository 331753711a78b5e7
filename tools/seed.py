# Writes, validates and tries the planted bugs of /verif/seeded.
#   seed.py make BUGS.py      write seeded/<id>/ for the bugs described in BUGS.py (validates each)
#   seed.py try [ID ...]      run each bug's property check against it; says caught / missed
# A bug description: dict(id, prop, file, edits=[(old, new[, count])], demo, needs, breaks)
from __future__ import print_function
import json, os, re, shutil, subprocess, sys, tempfile, time, runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('SEEDED', os.path.join(HERE, 'seeded'))
PRELUDE = '''# -*- coding: utf-8 -*-
import os, shutil, sys, tempfile
from io import BytesIO
sys.path.insert(0, os.getcwd())
from request_parser.conf.settings import Settings

scratch = tempfile.mkdtemp(prefix='demo')

def settings(**kw):
    s = Settings.default()
    s.FILE_UPLOAD_TEMP_DIR = scratch
    for k in kw:
        setattr(s, k, kw[k])
    return s

def check(cond, *what):
    if not cond:
        print('FAILED: %r' % (what,))
        shutil.rmtree(scratch, True)
        sys.exit(1)

def request(data, **kw):
    from request_parser.http.request import HttpRequest
    return HttpRequest(BytesIO(data), settings(**kw))

def multipart(parts, boundary='BoUnDaRy', **kw):
    body = ''.join('--' + boundary + '\\r\\n' + h + '\\r\\n\\r\\n' + c + '\\r\\n' for h, c in parts) + '--' + boundary + '--\\r\\n'
    r = request('POST /p HTTP/1.1\\r\\nHost: h\\r\\nContent-Type: multipart/form-data; boundary=' + boundary +
                '\\r\\nContent-Length: %d\\r\\n\\r\\n' % len(body) + body, **kw)
    r.parse()
    return r

class Dribble:
    """A file-like object whose reads return at most n bytes."""
    def __init__(self, data, n):
        self.f, self.n = BytesIO(data), n
    def read(self, size=-1):
        return self.f.read(self.n if size is None or size < 0 else min(size, self.n))

def exc(f, *a, **k):
    try:
        return ('ok', f(*a, **k))
    except Exception as e:
        return ('exc', e.__class__.__name__)

'''
END = '\nshutil.rmtree(scratch, True)\nprint("ok")\nsys.stdout.flush()\nos._exit(0)\n'
SH = '''#!/bin/bash
# Run with cwd /repo: exit 0 when the property holds on the input of demo.py, 1 when it does not.
D=$(cd "$(dirname "$0")" && pwd)
export JYTHONPATH=/opt/jylib:$PWD LC_ALL=C.UTF-8 TZ=UTC
exec /usr/bin/jython -B -s -Dpython.cachedir.skip=true "$D/demo.py"
'''

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out = p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        p.kill()
        return -9, 'timeout'
    return p.returncode, out.decode('utf-8', 'replace')

class Copy(object):
    """a scratch copy of /repo with the tests runnable in it"""

    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix='seed')
        self.dir = self.top + '/repo'
        shutil.copytree('/repo', self.dir, symlinks=True)
        shutil.copytree('/opt/vp', self.top + '/vp', ignore=shutil.ignore_patterns('cache*', 'build*/'))
        for f, subs in (('jyenv.sh', [('cd /repo', 'cd ' + self.dir)]), ('run_module.py', [('"/repo"', '"%s"' % self.dir)]),
                        ('test.sh', [('/opt/vp/jyenv.sh', self.top + '/vp/jyenv.sh'), ('/opt/vp/run_module.py', self.top + '/vp/run_module.py')])):
            t = open(self.top + '/vp/' + f).read()
            for x, y in subs:
                t = t.replace(x, y)
            open(self.top + '/vp/' + f, 'w').write(t)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.top, True)

    def tests(self):
        return sh(['bash', self.top + '/vp/test.sh', self.top + '/o.json'], self.dir)[1]

    def git(self, *a):
        return sh(['git', '-C', self.dir] + list(a))

def original_lines(patch):
    """The removed lines of the patch must be lines of the original commit."""
    base = sh(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'])[1].strip()
    cur = None
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            cur = line[6:].rstrip('\r')
            orig = sh(['git', '-C', '/repo', 'show', base + ':' + cur])[1].splitlines()
        elif line.startswith('-') and not line.startswith('---'):
            if line[1:] not in orig:
                return 'not an original line: ' + line[1:]

def make(bug):
    d = os.path.join(SEEDED, bug['id'])
    with Copy() as c:
        for e in bug['edits']:
            f, old, new = ((bug['file'],) + tuple(e))[-3:] if len(e) == 2 else e
            p = c.dir + '/request_parser/' + f
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return '%d matches of %r' % (s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        patch = c.git('diff')[1]
        shutil.rmtree(d, True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w', newline='').write(patch)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(PRELUDE + bug['demo'].strip('\n') + '\n' + END)
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        err = original_lines(patch) if SEEDED.startswith(HERE) else None
        if not err:
            out = c.tests()
            if '26 passed, 0 failed' not in out:
                err = 'tests: ' + out[-400:]
        if not err:
            rc, out = sh(['bash', d + '/demo.sh'], c.dir)
            if rc == 0:
                err = 'demo passes with the bug'
            elif 'FAILED' not in out:
                print(bug['id'], 'demo: ' + out[-200:])
        c.git('checkout', '--', '.')
        if not err:
            rc, out = sh(['bash', d + '/demo.sh'], c.dir)
            if rc:
                err = 'demo fails without the bug: ' + out[-500:]
    if err:
        shutil.rmtree(d, True)
    return err

def attempt(bid):
    d = os.path.join(SEEDED, bid)
    prop = json.load(open(d + '/meta.json'))['property']
    with Copy() as c:
        rc, out = c.git('apply', d + '/patch.diff')
        if rc:
            return 'does not apply: ' + out
        v = c.top + '/verif'
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns('.git', 'seeded'))
        t = time.time()
        env = dict(os.environ, VERIF_REPO=c.dir, VERIF_SEED='1')
        p = subprocess.run(['python3-vt', 'engine/check.py', prop, 'quick'], cwd=v, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        rc, out = p.returncode, p.stdout.decode('utf-8', 'replace')
    v = [l for l in out.splitlines() if l.startswith('VIOLATION property=' + prop)]
    what = 'caught' if rc == 1 and v else 'MISSED' if rc == 0 else 'BROKEN rc=%d' % rc
    return '%s %.0fs' % (what, time.time() - t) + ('' if what == 'caught' else '\n' + out[-600:])

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        bugs = runpy.run_path(sys.argv[2])['BUGS']
        only = sys.argv[3:]
        from concurrent.futures import ThreadPoolExecutor
        def one(b):
            if only and b['id'] not in only or not only and os.path.isdir(os.path.join(SEEDED, b['id'])):
                return
            print(b['id'], make(b) or 'ok')
            sys.stdout.flush()
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
            list(ex.map(one, bugs))
    else:
        from concurrent.futures import ThreadPoolExecutor
        def one(bid):
            prop = json.load(open(os.path.join(SEEDED, bid, 'meta.json')))['property']
            print(bid, prop, attempt(bid))
            sys.stdout.flush()
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
            list(ex.map(one, sys.argv[2:] or sorted(os.listdir(SEEDED))))
