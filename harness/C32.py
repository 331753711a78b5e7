"""HTTP dates parse exactly."""
from request_parser.utils.http import parse_http_date, parse_http_date_safe, http_date

BOUNDS = ('the three HTTP date formats with every day 00..99 of every month of the years 19xx, 20xx (thorough 10xx, 16xx, 17xx, 21xx and 99xx, too; all in two digits), every time 00:00:00..99:99:99, every month and week-day name of word characters, '
          'one (thorough two) arbitrary bytes at every position of a date, dates with a byte missing or added, up to 3 arbitrary bytes; time stamps of 2 (thorough 8) days around the epoch, five seconds around time stamp 0, leap days and century ends for formatting and parsing back; '
          'four-digit years below 100 and a trailing line feed are not judged')
REACH = ['rfc1123', 'rfc850', 'asctime', 'refused', 'none', 'window', 'format', 'case', 'text']
OPTS = {}
WORD = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
DIGIT = '0123456789'
MONTHS = ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']
GOOD = {'rfc1123': 'Sun, 06 Nov 1994 08:49:37 GMT', 'rfc850': 'Sunday, 06-Nov-94 08:49:37 GMT', 'asctime': 'Sun Nov  6 08:49:37 1994'}


def cases(tier):
    quick = tier == 'quick'
    out = []
    for f in ('rfc1123', 'rfc850', 'asctime'):
        for m in (['Feb', 'Nov'] if quick else ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']):
            for c in ['20', '19'] if quick else ['19', '20', '10', '16', '17', '21', '99']:
                if f != 'rfc850' or c == '20':
                    out.append({'kind': 'date', 'f': f, 'mon': m, 'century': c})
        out.append({'kind': 'time', 'f': f})
        out.append({'kind': 'names', 'f': f})
        n = len(GOOD[f])
        for i in range(n):
            out.append({'kind': 'byte', 'f': f, 'at': [i]})
            if not quick and i + 1 < n:
                out.append({'kind': 'byte', 'f': f, 'at': [i, i + 1]})
        for i in range(n + 1):
            if not quick or i % 5 == 0 or i == n:
                out.append({'kind': 'insert', 'f': f, 'at': i})
        for i in range(n):
            if not quick or i % 4 == 0 or i == n - 1:
                out.append({'kind': 'cut', 'f': f, 'at': i})
    for n in (0, 1, 2):
        out.append({'kind': 'junk', 'n': n})
    for lo in ([-86400 * 3, 951700000, 4102444800 - 90000] if quick else [-86400 * 3, 951700000, 4102444800 - 90000, -2208988800, 68169600, 13574563200, 1 << 31]):
        out.append({'kind': 'format', 'lo': lo, 'hi': lo + 86400 * (2 if quick else 8)})
    out.append({'kind': 'format', 'lo': -2, 'hi': 2})
    return out


def number(s):
    n = 0
    for c in s:
        n = n * 10 + (ord(c) - 48)
    return n


def clock(S, s):
    """seconds of hh:mm:ss, or None if it does not have that form, -1 if out of range"""
    if not S.both(S.allin(s[0:2] + s[3:5] + s[6:8], DIGIT), S.allin(s[2] + s[5], ':')):
        return None
    h, m, x = number(s[0:2]), number(s[3:5]), number(s[6:8])
    if h > 23 or m > 59 or x > 59:
        return -1
    return (h * 60 + m) * 60 + x


def stamp(S, year, mon, day, secs):
    if secs < 0:
        return None
    mon = mon.lower()
    m = None
    for i in range(12):
        if mon == MONTHS[i]:
            m = i + 1
            break
    if m is None or year < 1:
        return None
    leap = S.either(S.both(year % 4 == 0, year % 100 != 0), year % 400 == 0)
    dim = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    dim[1] = S.ite(leap, 29, 28)
    if day < 1 or day > dim[m - 1]:
        return None
    # days since 1970-01-01, counted from March of year 0
    y = year if m > 2 else year - 1
    k = m - 3 if m > 2 else m + 9
    days = 365 * y + y // 4 - y // 100 + y // 400 + (153 * k + 2) // 5 + day - 1 - 719468
    return days * 86400 + secs


def reference(S, s):
    """the time stamp of an HTTP date, None if it is not one, 'skip' if the property does not say"""
    n = len(s)
    if n == 29 and S.allin(s[3] + s[4] + s[7] + s[11] + s[16] + s[25:], ', GMT') and s[3:5] == ', ' and s[7] == ' ' and s[11] == ' ' and s[16] == ' ' and s[25:] == ' GMT':
        if S.both(S.allin(s[:3] + s[8:11], WORD), S.allin(s[5:7] + s[12:16], DIGIT)):
            c = clock(S, s[17:25])
            if c is not None:
                year = number(s[12:16])
                if year < 100:
                    return 'skip'
                S.reach('rfc1123')
                return stamp(S, year, s[8:11], number(s[5:7]), c)
    if 30 <= n <= 33:
        w = n - 24
        r = s[w:]
        if r[:2] == ', ' and r[4] == '-' and r[8] == '-' and r[11] == ' ' and r[20:] == ' GMT':
            if S.both(S.allin(s[:w] + r[5:8], WORD), S.allin(r[2:4] + r[9:11], DIGIT)):
                c = clock(S, r[12:20])
                if c is not None:
                    year = number(r[9:11])
                    S.reach('window')
                    S.reach('rfc850')
                    return stamp(S, year + S.ite(year < 70, 2000, 1900), r[5:8], number(r[2:4]), c)
    if n == 24 and s[3] == ' ' and s[7] == ' ' and s[10] == ' ' and s[19] == ' ':
        if S.both(S.allin(s[:3] + s[4:7], WORD), S.both(S.isin(s[8], DIGIT + ' '), S.allin(s[9] + s[20:], DIGIT))):
            c = clock(S, s[11:19])
            if c is not None:
                year = number(s[20:])
                if year < 100:
                    return 'skip'
                S.reach('asctime')
                day = number(s[9]) if s[8] == ' ' else number(s[8:10])
                return stamp(S, year, s[4:7], day, c)
    return None


def digits(S, name, n):
    return S.bytes(name, n, DIGIT)


def run(S, case):
    k = case['kind']
    if k == 'format':
        t = S.int('t', case['lo'], case['hi'])
        s = http_date(t)
        S.require(len(s) == 29, 'a date is formatted as RFC 1123 says')
        S.require(s[25:] == ' GMT', 'a date is formatted in GMT')
        S.equal(S.call(parse_http_date, s), ('ok', t), 'formatting then parsing is the identity')
        S.equal(reference(S, s), t, 'the date formatted is that of the time stamp')
        S.reach('format')
        return
    if k == 'junk':
        s = S.bytes('s', case['n'])
    else:
        f = case['f']
        g = GOOD[f]
        if k == 'date':
            d = digits(S, 'd', 2)
            y = digits(S, 'y', 2)
            if f != 'rfc850':
                y = case['century'] + y
            if f == 'asctime' and S.bool('short'):
                d = ' ' + d[1]
            if f == 'asctime':
                s = 'Sun ' + case['mon'] + ' ' + d + ' 08:49:37 ' + y
            elif f == 'rfc850':
                s = 'Sunday, ' + d + '-' + case['mon'] + '-' + y + ' 08:49:37 GMT'
            else:
                s = 'Sun, ' + d + ' ' + case['mon'] + ' ' + y + ' 08:49:37 GMT'
        elif k == 'time':
            t = digits(S, 'h', 2) + ':' + digits(S, 'm', 2) + ':' + digits(S, 's', 2)
            s = g.replace('08:49:37', t)
        elif k == 'names':
            which = S.choice('which', ['month', 'upper', 'day'])
            if which == 'month':
                m = S.bytes('mon', 1, 'jJnNxM') + S.bytes('mo2', 1, 'aAuU') + S.bytes('mo3', 1, 'nNrRyl')
                s = g.replace('Nov', m)
            elif which == 'upper':
                s = g.upper() if S.bool('all') else g.replace('Nov', S.choice('mm', ['NOV', 'nov', 'nOV', 'DEC', 'aug', 'Sep', 'oct']))
                S.reach('case')
            else:
                w = S.bytes('wd', 3, WORD + '-')
                s = w + g[3:]
        elif k == 'byte':
            b = S.bytes('b', len(case['at']))
            s = g[:case['at'][0]] + b + g[case['at'][-1] + 1:]
        elif k == 'insert':
            s = g[:case['at']] + S.bytes('b', 1) + g[case['at']:]
        else:
            s = g[:case['at']] + g[case['at'] + 1:]
    if len(s):
        S.assume(S.neg(S.isin(s[-1], '\n')))
    want = reference(S, s)
    if want == 'skip':
        return
    if k in ('time', 'cut') and S.bool('text'):
        s = s.decode('ascii')
        S.reach('text')
    r = S.call(parse_http_date, s)
    if want is None:
        S.require(r == ('exc', 'ValueError'), 'anything but an HTTP date raises ValueError')
        S.equal(S.call(parse_http_date_safe, s), ('ok', None), 'or gives None in the safe variant')
        S.reach('refused')
        S.reach('none')
    else:
        S.equal(r, ('ok', want), 'an HTTP date parses to its time stamp')
        S.equal(S.call(parse_http_date_safe, s), ('ok', want), 'the safe variant gives the same')
