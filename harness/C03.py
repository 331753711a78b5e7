"""The outcome of multipart parsing does not depend on read sizes."""
import hlib

BOUNDS = ('bodies of two parts (field, file) with n arbitrary bytes over the alphabet CR LF - B x : inserted at any of 7 structural positions '
          '(quick n<=5, thorough n<=7), n<=7 (thorough 10) for bare bodies over CR LF - B, and one fully arbitrary byte; '
          'compared: one big read against handler chunk sizes 1..40 and underlying reads of at most 1..9 bytes')
REACH = ['ok', 'two', 'file', 'bare']
OPTS = {}


def cases(tier):
    out = []
    quick = tier == 'quick'
    for pos in range(7):
        for n in ([2, 5] if quick else [1, 3, 5, 7]):
            for ch, step in ([(None, 1), (3, None), (13, 2)] if quick else [(None, 1), (None, 2), (None, 5), (1, None), (2, 1), (3, None), (7, None), (13, 2), (40, 9)]):
                out.append({'pos': pos, 'n': n, 'chunk': ch, 'step': step, 'b': 'B'})
    for pos in (3, 4, 6):
        out.append({'pos': pos, 'n': 4 if quick else 5, 'chunk': 1, 'step': None, 'b': 'B-'})
        out.append({'pos': pos, 'n': 4 if quick else 6, 'chunk': 5, 'step': 3, 'b': 'B-'})
    for n in ([7] if quick else [6, 8, 10]):
        for ch, step in [(None, 1), (4, None)]:
            out.append({'pos': 'bare', 'n': n, 'chunk': ch, 'step': step, 'b': 'B'})
    for pos in (0, 3, 4):
        out.append({'pos': pos, 'n': 1, 'chunk': 3, 'step': None, 'b': 'BoUnD', 'full': 1})
    # reads of very different sizes, one after the other
    for pos in (1, 4):
        for ch, step in ([(8, [1, 100]), (None, [1, 2, 90, 1, 1, 100])] if quick else [(8, [1, 100]), (None, [1, 2, 90, 1, 1, 100]), (16, [15, 1, 16, 2, 100]), (5, [5, 4, 5, 1, 100]), (None, [70, 1, 100])]):
            out.append({'pos': pos, 'n': 2 if quick else 3, 'chunk': ch, 'step': step, 'b': 'B'})
    for pad in ([40] if quick else [40, 900, 1100]):
        for ch in ([1, 11] if quick else [1, 7, 11, 512]):
            out.append({'pos': 4, 'n': 2, 'chunk': ch, 'step': None, 'b': 'B', 'pad': pad})
    return out


def build(case, x):
    b = case['b']
    seg = ['', '--' + b, '\r\n', 'Content-Disposition: form-data; name="a"\r\n\r\n', 'v1', '\r\n--' + b + '\r\n',
           'Content-Disposition: form-data; name="f"; filename="x"\r\n\r\nfile', '\r\n--' + b + '--\r\n']
    pos = case['pos']
    if pos == 'bare':
        return x
    pad = 'y' * case.get('pad', 0)
    out = ''
    for i, s in enumerate(seg):
        out += s
        if i == 4:
            out += pad
        if i == pos:
            out += x
    return out


def outcome(S, body, b, chunk, step):
    h = hlib.Recorder(chunk)
    st = hlib.settings()
    stream = hlib.BytesIO(body) if step is None else hlib.Dribble(body, step)
    r = S.call(hlib.multipart, body, b, [h], st, stream)
    if r[0] == 'exc':
        return (r[1], [], [])
    post = r[1][0]
    return ('ok', hlib.fields(post), [(f['field'], f['name'], f['data'], f['size']) for f in h.files])


def run(S, case):
    if case.get('full'):
        x = S.bytes('x', case['n'])
    elif case['pos'] == 'bare':
        x = S.bytes('x', case['n'], '\r\n-B')
    else:
        x = S.bytes('x', case['n'], '\r\n-Bx:')
    body = build(case, x)
    a = outcome(S, body, case['b'], None, None)
    b = outcome(S, body, case['b'], case['chunk'], case['step'])
    S.observe('a', a)
    S.observe('b', b)
    S.require(a[0] == b[0], 'the same outcome for every read size')
    S.equal(a[1], b[1], 'the same form fields for every read size')
    S.equal(a[2], b[2], 'the same files for every read size')
    S.reach(a[0])
    if case['pos'] == 'bare':
        S.reach('bare')
    if len(a[1]) + len(a[2]) > 1:
        S.reach('two')
    if a[2]:
        S.reach('file')
