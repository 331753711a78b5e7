"""Multipart bodies are split into parts exactly at the delimiters."""
import hlib
from request_parser.http.multipartparser import parse_header

BOUNDS = ('(a) bodies made of up to 4 (thorough 5) freely chosen tokens out of: delimiter, CR LF, blank line, field header, file header, header without name, '
          'header without disposition, two dashes, one arbitrary byte; (b) bodies of skipped/accepted parts with n<=5 (thorough 7) bytes over CR LF - B x : '
          'inserted at every structural position; (c) parts whose headers are 900..1100 bytes long; long skipped parts; parts with 1..17 (thorough 60) header lines')
REACH = ['field', 'file', 'skipped', 'preamble', 'epilogue', 'toolong', 'tokens', 'lines']
OPTS = {}

B = 'B'
SEP = '--B'
FH = 'Content-Disposition: form-data; name="a"'
GH = 'Content-Disposition: form-data; name="f"; filename="x"'
NH = 'Content-Disposition: form-data'
TH = 'Content-Type: text/plain'


def cases(tier):
    quick = tier == 'quick'
    out = []
    for pre in (['', SEP + '\r\n', SEP + '\r\n' + FH + '\r\n\r\n', SEP + '\r\n' + NH + '\r\n\r\n'] if not quick else ['', SEP + '\r\n' + NH + '\r\n\r\n']):
        out.append({'kind': 'tokens', 'pre': pre, 'k': 3 if quick else 4, 'post': ''})
        out.append({'kind': 'tokens', 'pre': pre, 'k': 3 if quick else 4, 'post': '\r\n' + SEP + '\r\n' + FH + '\r\n\r\nlast\r\n' + SEP + '--\r\n'})
    n = 4 if quick else 6
    for t in range(len(TEMPLATES)):
        for pos in range(len(TEMPLATES[t]) + 1):
            out.append({'kind': 'insert', 't': t, 'pos': pos, 'n': n})
    for k in (0, 968, 969, 970, 971, 972, 973, 974, 975, 976, 977, 978, 1100):
        out.append({'kind': 'long', 'pad': k})
    for n in (1, 4, 6, 9, 17) if quick else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 33, 60):
        out.append({'kind': 'lines', 'n': n})
    for k in ([2000] if quick else [500, 2000, 9000, 70000]):
        out.append({'kind': 'skiplong', 'pad': k})
    return out


TEMPLATES = [
    [SEP + '\r\n', FH, '\r\n\r\n', 'v', '\r\n' + SEP, '--'],
    [SEP + '\r\n', GH, '\r\n\r\n', 'v', '\r\n' + SEP, '--\r\n', FH, '\r\n\r\n', 'epi'],
    [FH, '\r\n\r\n', 'pre\r\n', SEP + '\r\n', FH + '\r\n\r\n', 'v\r\n' + SEP + '--'],
    [SEP + '\r\n', NH, '\r\n\r\n', FH, '\r\n\r\n', 'hidden', '\r\n' + SEP + '\r\n', FH + '\r\n\r\nseen\r\n' + SEP + '--'],
    [SEP + '\r\nContent-Disposition: form-data; name="', 'a', '"; filename="', '"\r\n\r\n', 'v', '\r\n' + SEP + '\r\n' + FH + '\r\n\r\nseen\r\n' + SEP + '--'],
    [SEP + '\r\n', TH, '\r\n\r\n', GH, '\r\n\r\n', 'hidden', '\r\n' + SEP + '\r\n', FH + '\r\n\r\nseen\r\n' + SEP + '--'],
]


def ends(seg):
    """what the content of a part may be, given the bytes between its headers and the next delimiter"""
    if seg[-2:] == '\r\n':
        return [seg[:-2]]
    if seg[-1:] == '\n' or seg[-1:] == '\r':
        return [seg[:-1], seg]
    return [seg]


def reference(S, body):
    """[(kind, name, allowed contents, closed)] of the parts of a body"""
    segs = body.split(SEP)
    out = []
    for i, seg in enumerate(segs):
        if i == 0:
            if len(seg) > 0:
                S.reach('preamble')
            continue
        if seg[:2] == '--':
            S.reach('epilogue')
            break
        last = i == len(segs) - 1
        stop = [seg] if last else ends(seg)
        he = seg.find('\r\n\r\n')
        if he >= 0 and he + 4 > 1024:
            S.reach('toolong')
            continue
        if he >= 0 and not last:
            # the line break before the delimiter is not part of what is parsed
            ok = [s for s in stop if s[:1024].find('\r\n\r\n') >= 0]
            if len(ok) != len(stop):
                if len(ok) > 0:
                    return None           # depends on how a lone CR or LF before the delimiter is read
                he = -1
        if he < 0:
            S.reach('skipped')
            continue
        disp = None
        for line in seg[:he].split('\r\n'):
            if line.find(':') < 0:
                continue
            try:
                main, params = parse_header(line)
            except ValueError:
                continue
            if main.split(':', 1)[0] == 'content-disposition' and main.find(':') >= 0:
                disp = params
        if disp is None or 'name' not in disp:
            S.reach('skipped')
            continue
        contents = [s[he + 4:] for s in stop]
        kind = 'F' if disp.get('filename') else 'f'
        if kind == 'F' and len(disp['filename'].split('\\')[-1].strip()) == 0:
            S.reach('skipped')              # a file name that is only a path
            continue
        # a file not followed by another delimiter and at least one byte was not received completely
        closed = not last and (i + 1 < len(segs) - 1 or len(segs[i + 1]) > 0)
        out.append((kind, disp['name'].strip(), contents, closed))
    return out


def build(S, case):
    if case['kind'] == 'insert':
        x = S.bytes('x', case['n'], '\r\n-Bx:')
        seg = list(TEMPLATES[case['t']])
        seg.insert(case['pos'], x)
        return ''.join(seg)
    if case['kind'] == 'long':
        return (SEP + '\r\n' + FH + '\r\nX: ' + 'p' * case['pad'] + '\r\n\r\n' + S.bytes('v', 3) + '\r\n' + SEP + '\r\n' + FH + '\r\n\r\nseen\r\n' + SEP + '--\r\n')
    if case['kind'] == 'lines':
        # a part with many header lines, the disposition at any place among them
        at = S.choice('at', [0, case['n'] // 2, case['n']])
        lines = ['X' + S.bytes('x%d' % i, 1, 'ab:') + ': v' for i in range(min(case['n'], 3))] + ['Y%d: w' % i for i in range(3, case['n'])]
        lines.insert(at, FH)
        S.reach('lines')
        return SEP + '\r\n' + '\r\n'.join(lines) + '\r\n\r\n' + S.bytes('v', 2) + '\r\n' + SEP + '\r\n' + FH + '\r\n\r\nseen\r\n' + SEP + '--\r\n'
    if case['kind'] == 'skiplong':
        return (SEP + '\r\n' + NH + '\r\n\r\n' + 'p' * case['pad'] + '\r\n' + FH + '\r\n\r\n' + S.bytes('v', 3, '\r\n-Bx') + 'hidden\r\n' + SEP + '\r\n' + FH + '\r\n\r\nseen\r\n' + SEP + '--\r\n')
    toks = [SEP, '\r\n', '\r\n\r\n', FH, GH, NH, TH, '--', None]
    s = case['pre']
    for i in range(case['k']):
        t = S.choice('t%d' % i, toks)
        s += t if t is not None else S.bytes('b%d' % i, 1)
    S.reach('tokens')
    return s + case['post']


def run(S, case):
    body = build(S, case)
    h = hlib.Recorder()
    st = hlib.settings()
    r = S.call(hlib.multipart, body, B, [h], st)
    S.require(r[0] == 'ok', 'a body that only has parts to skip is parsed: ' + str(r[1]) if r[0] == 'exc' else 'parsed')
    ref = reference(S, body)
    S.observe('post', hlib.fields(r[1][0]))
    S.observe('files', [(f['field'], f['data']) for f in h.files])
    if ref is None:
        return
    want = {}
    for k, name, contents, closed in ref:
        if k == 'f':
            want.setdefault(name.decode('latin-1'), []).append(contents)
            S.reach('field')
    post = r[1][0]
    S.require(sorted(post.keys()) == sorted(want.keys()), 'exactly the named parts are form fields')
    for name in want:
        got = [v['data'] for v in post.getlist(name)]
        S.require(len(got) == len(want[name]), 'every named part is reported once')
        for g, w in zip(got, want[name]):
            S.require(S.either(*[S.same(g, c) for c in w]), 'the content of a part is the bytes between its headers and the next delimiter')
    files = [q for q in ref if q[0] == 'F' and q[3]]
    S.require(len(h.files) == len(files), 'exactly the complete parts with a file name are files')
    for f, (k, name, contents, closed) in zip(h.files, files):
        S.equal(f['field'], name, 'the field of a file')
        S.require(S.either(*[S.same(f['data'], c) for c in contents]), 'the content of a file is the bytes between its headers and the next delimiter')
        S.reach('file')
