"""LazyStream: pushed-back bytes come back first, reads are exact, tell() counts."""
from io import BytesIO
from request_parser.utils.datastructures import LazyStream, ChunkIter

BOUNDS = ('streams of 0..7 symbolic bytes cut into producer chunks in up to 9 ways (list producer, file-like producer read in 1..4 byte chunks, '
          'BytesIO read line by line); every sequence of up to 4 operations (quick: 3) out of read(0..8), read(), next, push back 1..3 or all delivered bytes; '
          'streams of 65535 to 70000 bytes pushed back in up to three pieces; bytes never read put in front, the stream closed after such a sequence; streams of 60 chunks of 2, 3 or 5 bytes taken apart by five repeated patterns of chunk reads, sized reads and push-backs; lines of 47 bytes in chunks of 2, 3 or 5 bytes read with 7 limits')
REACH = ['read', 'all', 'next', 'unget', 'eof', 'end', 'long', 'line', 'big', 'front', 'close']


def cases(tier):
    out = []
    shapes = [[], [1], [3], [1, 1, 1], [2, 3], [3, 1, 2], [5, 2]]
    ops = 3 if tier == 'quick' else 4
    for sh in shapes:
        out.append({'kind': 'list', 'shape': sh, 'ops': ops})
    for k in ([1, 3] if tier == 'quick' else [1, 2, 3, 4]):
        out.append({'kind': 'chunk', 'n': 5, 'size': k, 'ops': ops})
    # more steps than the stuck-parser check remembers, every one of them taking fresh data
    for size in (2, 3, 5):
        out.append({'kind': 'long', 'size': size, 'chunks': 60})
        out.append({'kind': 'line', 'size': size})
    for big in (65535, 65536, 70000):
        out.append({'kind': 'big', 'big': big})
    out.append({'kind': 'length', 'n': 5, 'ops': 1})
    for how in ('front', 'close'):
        for sh in [[], [3], [2, 3]] if tier == 'quick' else shapes:
            out.append({'kind': how, 'shape': sh, 'ops': 2 if how == 'front' else ops - 1})
    out.append({'kind': 'lines', 'n': 4 if tier == 'quick' else 5, 'ops': 2})
    return out


def run(S, case):
    kind = case['kind']
    if kind == 'list':
        n = sum(case['shape'])
        data = S.bytes('data', n)
        chunks = []
        p = 0
        for k in case['shape']:
            chunks.append(data[p:p + k])
            p += k
        ls = LazyStream(iter(chunks))
    elif kind == 'chunk':
        n = case['n']
        data = S.bytes('data', n)
        ls = LazyStream(ChunkIter(BytesIO(data), case['size']))
    elif kind == 'long':
        size, n = case['size'], case['chunks'] * case['size']
        data = S.bytes('data', 8) + 'abcdefghijklmnopqrstuvwxyz' * (n // 26) + S.bytes('tail', n % 26)
        data = data[:n - 4] + S.bytes('end', 4)
        chunks = [data[i:i + size] for i in range(0, n, size)]
        ls = LazyStream(iter(chunks)) if S.bool('list') else LazyStream(ChunkIter(BytesIO(data), size))
        how = S.choice('how', ['push', 'peek', 'split', 'read1', 'drop'])
        back = S.choice('back', [1, size - 1, size])
        pos = 0
        while pos < n:
            if how == 'read1':
                got = ls.read(back)
            else:
                got = ls.next()
                if how == 'push' or how == 'peek' and back == size:
                    # give back a part of a fresh chunk, then take it again
                    ls.unget(got[len(got) - back:])
                    got = got[:len(got) - back] + ls.next()
                elif how == 'peek':
                    ls.unget(got[1:])
                    ls.unget(got[:1])
                    got = ls.read(1) + ls.read(len(got) - 1)
                elif how == 'split':
                    ls.unget(got)
                    got = ls.read(size - 1)
            S.require(len(got) > 0, 'bytes are delivered while some are left')
            S.equal(got, data[pos:pos + len(got)], 'a long sequence of operations delivers the bytes in order')
            pos += len(got)
            S.require(ls.tell() == pos, 'tell() is the number of bytes delivered and not pushed back')
        S.require(pos == n and ls.read(1) == '', 'every byte is delivered')
        S.reach('long')
        return
    elif kind == 'big':
        # as much as the largest chunk, given back in one piece or in several
        data = S.bytes('data', 3) + 'x' * (case['big'] - 6) + S.bytes('tail', 3)
        n = len(data)
        ls = LazyStream(iter([data]) if S.bool('one') else ChunkIter(BytesIO(data), 65536))
        k = S.choice('first', [1, 65536, n])
        got = ls.read(k)
        S.equal(got, data[:k], 'a sized read gives that many bytes')
        for i in range(S.choice('pieces', [1, 2, 3])):
            b = [1, 2, k][i]
            ls.unget(got[max(0, len(got) - b):])
            got = got[:max(0, len(got) - b)]
        S.require(ls.tell() == len(got), 'tell() is the number of bytes delivered and not pushed back')
        a = ls.read(2)
        S.equal(a, data[len(got):len(got) + 2], 'what was pushed back comes first')
        got += a
        S.equal(ls.read() if S.bool('all') else ls.read(n + 5), data[len(got):], 'what is left is intact')
        S.require(ls.tell() == n and ls.read(1) == '', 'then it is at its end')
        S.reach('big')
        return
    elif kind == 'line':
        size = case['size']
        data = S.bytes('data', 2, '\nab') + 'abcdefghijklmnopqrstuvwxyz' + S.bytes('mid', 2, '\nm') + 'abcdefghijklmnop' + S.bytes('end', 1, '\nm')
        n = len(data)
        ls = LazyStream(iter([data[i:i + size] for i in range(0, n, size)]))
        k = S.choice('size', [None, -1, 1, size, 2 * size, 3 * size + 1, 7 * size])
        pos = 0
        while pos < n:
            got = ls.readline() if k is None else ls.readline(k)
            end = data.find('\n', pos) + 1
            end = end if end > 0 else n
            S.equal(got, data[pos:end if k is None or k < 0 else min(end, pos + k)], 'a line ends after its line feed or the bytes asked for, not before')
            pos += len(got)
            S.require(len(got) > 0 and ls.tell() == pos, 'tell() is the number of bytes delivered')
        S.require(ls.readline() == '', 'then it is at its end')
        S.reach('line')
        return
    elif kind == 'length':
        n = case['n']
        data = S.bytes('data', n)
        k = S.choice('length', [0, 1, 3, 5, 7])
        ls = LazyStream(ChunkIter(BytesIO(data), 2), k)
        first = ls.read()
        S.observe('first', first)
        S.equal(first, data[:k], 'read() of a stream of declared length returns that many bytes')
        rest = ls.read(9)
        S.equal(rest, data[k:], 'bytes beyond the declared length stay readable')
        return
    elif kind in ('front', 'close'):
        # the bytes still to be delivered, whatever was put in front; the first `sure` of them do not depend on the source any more
        data = S.bytes('data', sum(case['shape']))
        chunks, p = [], 0
        for k in case['shape']:
            chunks.append(data[p:p + k])
            p += k
        length = S.choice('length', [None, 1, 4]) if kind == 'close' else None
        ls = LazyStream(iter(chunks), length)
        rest, pos, sure = data, 0, 0
        for step in range(case['ops']):
            op = S.choice('op%d' % step, ['r0', 'r1', 'r3', 'next', 'back', 'new'])
            if op[0] == 'r':
                k = int(op[1:])
                got = ls.read(k)
                S.equal(got, rest[:k], 'read(n) returns exactly the next n bytes, those put in front first')
                rest, pos, sure, last = rest[k:], pos + len(got), max(0, sure - k), got
            elif op == 'next':
                r = S.call(ls.next)
                got = r[1] if r[0] == 'ok' else ''
                S.require((r[0] == 'ok') == (len(rest) > 0), 'next() delivers while bytes are left')
                S.equal(got, rest[:len(got)], 'next() delivers the following bytes')
                rest, pos, sure, last = rest[len(got):], pos + len(got), max(0, sure - len(got)), got
            else:
                new = S.bytes('new%d' % step, 2) if op == 'new' or not pos or not last else last[-2:]
                ls.unget(new)
                rest, pos, sure, last = new + rest, pos - len(new), sure + len(new), ''
            S.require(ls.tell() == pos, 'tell() is the number of bytes delivered less the number put in front')
        if kind == 'close':
            ls.close()
            got = ''
            if S.bool('whole'):
                got = ls.read()
                S.equal(got, rest[:len(got)], 'a closed stream delivers bytes it has already taken, in order')
                S.require(len(got) >= (sure if length is None else min(sure, length)), 'a closed stream delivers all bytes put back')
            while len(got) < 20:
                x = ls.read(2)
                if not x:
                    break
                got += x
            S.equal(got, rest[:len(got)], 'a closed stream delivers bytes it has already taken, in order')
            S.require(len(got) >= sure, 'a closed stream delivers all bytes put back')
            S.require(S.call(ls.next) == ('exc', 'StopIteration'), 'then it is at its end')
            S.reach('close')
        else:
            S.equal(ls.read(), rest, 'what is left at the end is intact')
            S.reach('front')
        return
    else:
        n = case['n']
        data = S.bytes('data', n, '\n\rab')
        ls = LazyStream(BytesIO(data))
    pos = 0                       # model: next byte to deliver
    for step in range(case['ops']):
        op = S.choice('op%d' % step, ['r0', 'r1', 'r2', 'r4', 'r8', 'all', 'next', 'u1', 'u2', 'uall'])
        if op == 'all':
            r = ls.read()
            S.observe('all', r)
            S.equal(r, data[pos:], 'read() returns everything left, in order')
            pos = n
            S.reach('all')
        elif op == 'next':
            r = S.call(ls.next)
            S.observe('next', r)
            if pos == n:
                S.require(r[0] == 'exc' and r[1] == 'StopIteration', 'next() at the end stops')
                S.reach('eof')
            else:
                S.require(r[0] == 'ok', 'next() delivers while bytes are left')
                S.require(len(r[1]) > 0, 'next() delivers at least one byte')
                S.equal(r[1], data[pos:pos + len(r[1])], 'next() delivers the following bytes')
                pos += len(r[1])
                S.reach('next')
        elif op[0] == 'r':
            k = int(op[1:])
            r = ls.read(k)
            S.observe('read', r)
            S.equal(r, data[pos:pos + k], 'read(n) returns exactly the next n bytes')
            pos = min(n, pos + k)
            S.reach('read')
        else:
            k = pos if op == 'uall' else min(pos, int(op[1:]))
            ls.unget(data[pos - k:pos])
            pos -= k
            S.reach('unget')
        S.require(ls.tell() == pos, 'tell() is the number of bytes delivered and not pushed back')
    r = ls.read()
    S.equal(r, data[pos:], 'what is left at the end is intact')
    S.equal(ls.read(3), '', 'an exhausted stream stays empty')
    S.reach('end')
