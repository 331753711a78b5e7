"""base64 transfer encoding of multipart parts."""
import base64
import hlib

BOUNDS = ('contents of 0..5 (thorough 10) arbitrary bytes, encoded, with white space (CR LF, LF, space, tab) inserted after a chosen position or every k characters, '
          'handler chunk sizes 1..64, short reads, field and file parts; arbitrary data of up to 5 (thorough 6) bytes over A b 9 + / = - space LF and 0xff for the malformed side; '
          'large files of up to 70000 bytes with four symbolic bytes, their lines ended by CR LF or by other white space')
REACH = ['file', 'field', 'bad-file', 'bad-field', 'ok-file', 'space', 'big', 'limit']
OPTS = {}


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in ([0, 1, 2, 5] if quick else [0, 1, 2, 3, 4, 5, 6, 7, 10]):
        for kind in 'Ff':
            for chunk, step in ([(None, None), (1, None), (None, 3)] if quick else [(None, None), (1, None), (2, None), (3, None), (4, None), (5, None), (6, None), (7, None), (None, 1), (None, 3), (64, 5)]):
                out.append({'kind': kind, 'n': n, 'chunk': chunk, 'step': step})
    for n in ([3] if quick else [2, 3, 4, 5]):
        for kind in 'Ff':
            for chunk in ([None, 3] if quick else [None, 1, 3, 7, 20]):
                out.append({'kind': kind, 'bad': n, 'chunk': chunk, 'step': None})
    for pad in ([300, 3000] if quick else [300, 3000, 70000]):
        for every in (0, 76, 7):
            for chunk in ([None, 100] if quick else [None, 100, 1000, 4096]):
                out.append({'kind': 'F', 'n': 2, 'pad': pad, 'every': every, 'chunk': chunk, 'step': None})
    # other white space between the lines, in what is delivered in several chunks
    for every, sep in [(76, ' '), (7, '\t'), (61, ' \n')] if quick else [(76, ' '), (7, '\t'), (61, ' \n'), (3, ' '), (64, '\r'), (62, '\x0b\x0c'), (5, ' \t \r\n ')]:
        for kind in 'Ff':
            out.append({'kind': kind, 'n': 2, 'pad': 3000, 'every': every, 'sep': sep, 'chunk': None, 'step': None})
            out.append({'kind': kind, 'n': 2, 'pad': 3000, 'every': every, 'sep': sep, 'chunk': None, 'step': 50})
    out.append({'kind': 'limit', 'n': 6, 'chunk': None, 'step': None})
    return out


def send(S, case, data, st=None):
    parts = [hlib.part(case['kind'], 'a', data, tenc='base64'), hlib.part('f', 'b', 'tail')]
    h = hlib.Recorder(case['chunk'])
    body = hlib.body_of(parts, 'BoUnD')
    stream = None if case['step'] is None else hlib.Dribble(body, case['step'])
    r = S.calle(hlib.multipart, body, 'BoUnD', [h], st or hlib.settings(), stream)
    return r, h


def run(S, case):
    if case['kind'] == 'limit':
        # a field is limited by what is received, not by what it decodes to
        d = S.bytes('d', case['n'])
        enc = base64.b64encode(d)
        k = S.choice('limit', [0, 1, 7, 8, 10, 11, 30])
        case = dict(case)
        case['kind'] = 'f'
        r, h = send(S, case, enc, hlib.settings(DATA_UPLOAD_MAX_MEMORY_SIZE=k))
        total = len(enc) + 3 + 4 + 3
        S.require((r[0] == 'exc') == (total > k), 'the limit counts the bytes received')
        if r[0] == 'exc':
            S.require(r[1].__class__.__name__ == 'RequestDataTooBig', 'the documented error of the limit')
            S.reach('limit')
        return
    if 'bad' in case:
        data = S.bytes('data', case['bad'], 'Ab9+/=- \n\xff')
        r, h = send(S, case, data)
        stripped = ''.join(data.split())
        dec = S.call(base64.b64decode, stripped if case['kind'] == 'F' else data)
        S.observe('r', r[0])
        if case['kind'] == 'f':
            S.require(r[0] == 'ok', 'a field that is not base64 is no error')
            got = r[1][0].getlist('a')
            S.require(len(got) == 1, 'the field is kept')
            if dec[0] == 'ok':
                S.equal(got[0]['data'], dec[1], 'a decodable field is decoded')
            else:
                S.equal(got[0]['data'], data, 'an undecodable field keeps its raw data')
                S.reach('bad-field')
            S.equal(r[1][0].getlist('b')[0]['data'], 'tail', 'the part after it is intact')
        elif r[0] == 'exc':
            S.require(r[1].__class__.__name__ == 'MultiPartParserError', 'undecodable file data is the documented error')
            S.require(dec[0] == 'exc' or case['chunk'] is not None, 'decodable file data is no error')
            S.reach('bad-file')
        else:
            if case['chunk'] is None:
                S.require(dec[0] == 'ok', 'undecodable file data is an error')
                S.equal(h.files[0]['data'], dec[1], 'file data is decoded')
            S.equal(r[1][0].getlist('b')[0]['data'], 'tail', 'the part after it is intact')
            S.reach('ok-file')
        return
    d = S.bytes('d', case['n'])
    if case.get('pad'):
        d = d + '0123456789' * (case['pad'] // 10) + d
        S.reach('big')
    enc = base64.b64encode(d)
    if case.get('every'):
        k = case['every']
        enc = case.get('sep', '\r\n').join([enc[i:i + k] for i in range(0, len(enc), k)])
    elif case.get('pad') is None and len(enc) > 0:
        ws = S.choice('ws', ['', ' ', '\r\n', '\n\t ', '\r\n\r\n'])
        i = S.choice('pos', range(len(enc) + 1))
        enc = enc[:i] + ws + enc[i:]
        if len(ws):
            S.reach('space')
    r, h = send(S, case, enc)
    S.require(r[0] == 'ok', 'base64 data is parsed')
    if case['kind'] == 'F':
        S.require(len(h.files) == 1, 'one file')
        S.equal(h.files[0]['data'], d, 'the file is delivered decoded')
        S.require(h.files[0]['size'] == len(d), 'the size of the file is that of the decoded data')
        S.equal(h.files[0]['tenc'], 'base64', 'the transfer encoding is reported')
        S.reach('file')
    else:
        got = r[1][0].getlist('a')
        S.require(len(got) == 1, 'one field')
        S.equal(got[0]['data'], d, 'the field is delivered decoded')
        S.equal(got[0]['transfer-encoding'], 'base64', 'the transfer encoding is reported')
        S.reach('field')
    S.equal(r[1][0].getlist('b')[0]['data'], 'tail', 'the part after it is intact')
