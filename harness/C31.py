"""Base 36 and URL-safe base 64 round-trip."""
from request_parser.utils.http import int_to_base36, base36_to_int, urlsafe_base64_encode, urlsafe_base64_decode

BOUNDS = ('every integer in -5..36**3 (thorough 36**5), and in 2000 (thorough 50000) around 2**31 and 2**63; digit strings of 0..3 arbitrary bytes or digits, of 13 and 14 digits; byte strings of up to 4 '
          '(thorough 6), and of 57, 58, 77 (up to 200) arbitrary bytes in URL-safe base 64, given back as text or bytes; decoding of up to 4 arbitrary bytes or characters and of up to 6 over the base 64 alphabet')
REACH = ['int', 'negative', 'large', 'digits', 'refused', 'toolong', 'encode', 'decode', 'undecodable', 'text', 'accepted']
OPTS = {}
DIGITS = '0123456789abcdefghijklmnopqrstuvwxyz'
URLSAFE = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def cases(tier):
    quick = tier == 'quick'
    out = [{'kind': 'int', 'lo': 0, 'hi': 36 ** (3 if quick else 5)}, {'kind': 'int', 'lo': -5, 'hi': -1}]
    for base in (2 ** 31, 2 ** 63, 36 ** 4, 36 ** 12):
        out.append({'kind': 'int', 'lo': base - (1000 if quick else 25000), 'hi': base + (1000 if quick else 25000)})
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        out.append({'kind': 'digits', 'n': n})
        out.append({'kind': 'b36', 'n': n if quick else min(n, 3)})
    out.append({'kind': 'long'})
    for n in (list(range(0, 5)) + [57, 58, 77]) if quick else (list(range(0, 7)) + [56, 57, 58, 76, 77, 120, 200]):
        out.append({'kind': 'encode', 'n': n})
    for n in range(1, 3 if quick else 5):
        out.append({'kind': 'decode', 'n': n})
    out.append({'kind': 'decode', 'n': 4 if quick else 6, 'alpha': 'Aw-_=\n'})
    return out


def run(S, case):
    k = case['kind']
    if k == 'int':
        i = S.int('i', case['lo'], case['hi'])
        r = S.call(int_to_base36, i)
        S.observe('r', r)
        if case['lo'] < 0:
            S.require(r == ('exc', 'ValueError'), 'a negative integer is refused')
            S.reach('negative')
            return
        S.require(r[0] == 'ok', 'an integer is encoded')
        s = r[1]
        S.require(S.allin(s, DIGITS), 'base 36 uses digits and small letters')
        S.require(len(s) == 1 or S.neg(S.isin(s[0], '0')), 'base 36 has no leading zero')
        S.equal(S.call(base36_to_int, s), ('ok', i), 'base 36 round-trips')
        S.reach('int')
        if case['lo'] > 36 ** 4:
            S.reach('large')
    elif k == 'digits':
        s = S.bytes('s', case['n'], DIGITS)
        S.assume(case['n'] == 1 or S.neg(S.isin(s[0], '0')))
        r = S.call(base36_to_int, s)
        S.observe('r', r)
        S.require(r[0] == 'ok', 'base 36 digits are a number')
        want = 0
        for c in s:
            o = ord(c)
            want = want * 36 + S.ite(o < 97, o - 48, o - 87)
        S.equal(r[1], want, 'base 36 digits have their value')
        S.equal(S.call(int_to_base36, r[1]), ('ok', s), 'base 36 round-trips')
        S.reach('digits')
    elif k == 'b36':
        s = S.bytes('s', case['n'])
        r = S.call(base36_to_int, s)
        S.observe('r', r)
        if r[0] == 'ok':
            S.reach('accepted')
        else:
            S.require(r[1] == 'ValueError', 'undecodable input raises ValueError')
            S.require(S.neg(S.allin(s, DIGITS)), 'digits are accepted')
            S.reach('refused')
    elif k == 'long':
        s = S.bytes('s', 2, '09az')
        r = S.call(base36_to_int, s + '0' * 11)
        S.require(r[0] == 'ok', '13 digits are accepted')
        S.equal(r[1], base36_to_int(s) * 36 ** 11, '13 digits have their value')
        S.require(S.call(base36_to_int, s + '0' * 12) == ('exc', 'ValueError'), 'more than 13 digits are refused')
        S.reach('toolong')
    elif k == 'encode':
        b = S.bytes('b', case['n'])
        r = S.call(urlsafe_base64_encode, b)
        S.observe('r', r)
        S.require(r[0] == 'ok', 'bytes are encoded')
        S.require(S.allin(r[1], URLSAFE), 'only URL-safe characters are used')
        S.require(len(r[1]) == (case['n'] * 4 + 2) // 3, 'padding is stripped')
        S.reach('encode')
        s = r[1]
        if S.bool('text'):
            S.reach('text')
        else:
            s = s.encode('ascii')
        S.equal(S.call(urlsafe_base64_decode, s), ('ok', b), 'URL-safe base 64 round-trips')
        S.equal(S.call(urlsafe_base64_decode, s + '=' * (-len(s) % 4)), ('ok', b), 'padding is optional')
    else:
        if S.bool('text'):
            s = S.text('s', case['n'], 0, 255, case.get('alpha'))
        else:
            s = S.bytes('s', case['n'], case.get('alpha'))
        r = S.call(urlsafe_base64_decode, s)
        S.observe('r', r)
        if r[0] == 'ok':
            S.reach('decode')
        else:
            S.require(r[1] in ('ValueError', 'UnicodeEncodeError', 'UnicodeDecodeError'), 'undecodable input raises ValueError')
            S.reach('undecodable')
