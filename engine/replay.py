"""replay.py FILE: run a recorded counterexample on the real code (Jython) and print what it violates."""
import json
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

d = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp(prefix='verif-replay-')
try:
    src = os.path.join(check.VERIF, 'harness', d['property'] + '.py')
    fails, _ = check.confirm(d['property'], src, w, d['case'], d['values'])
    print('case %r\nvalues %r' % (d['case'], d['values']))
    for k, v in d['values'].items():
        if isinstance(v, list):
            print('  %s = %r' % (k, ''.join(map(chr, v))))
    print('violated: %r' % (fails,))
    sys.exit(1 if fails else 0)
finally:
    shutil.rmtree(w, True)
