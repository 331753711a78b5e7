"""Writes DESIGN.md: tools/design_head.md, one section per property (properties.jsonl, BOUNDS of the harness, the oracle below),
tools/design_tail.md with the repairs (known_findings.jsonl) and the planted bugs (seeded/*/meta.json)."""
import ast, glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    'C01': 'a byte string and a position: the harness keeps what was delivered and what was pushed back and compares every return value, tell() and the end of the stream',
    'C02': 'the list of parts the body was built from; recorded handler calls and POST/FILES are compared with it',
    'C03': 'self-composition: the same symbolic bytes parsed twice, once in one big read and once with the given read sizes; outcomes (data, files, error class) must be equal',
    'C04': 'an independent splitter written from the delimiter rule (find `--boundary`, take what lies between two of them, apply the header rules to it)',
    'C05': 'the bytes that were encoded; for malformed data Python\'s base64 of the white-space-free text decides text/raw/error',
    'C06': 'the name/value pairs the header was written from; for arbitrary headers only "no undocumented error"',
    'C07': 'the decoded text of the elements the value was built from; values not in extended form stay as sent',
    'C08': 'counting the parameters the request was built from',
    'C09': 'the sum of the lengths of what the request holds in memory, computed from the parts the body was built from',
    'C10': 'a specification automaton of the upload protocol fed with the same free handler reactions; every handler call and its arguments must agree with it',
    'C11': 'the contents sent, the configured limit, and the directory listing of a scratch upload directory',
    'C12': 'the last component of the name computed on the decoded name; names of the files really created',
    'C13': 'termination (step limit as obligation), the documented error classes, and the stream being at its end',
    'C14': 'a validity predicate over content type, boundary and length written from the documentation of the parser',
    'C15': 'first blank line of the concatenated bytes; header and body must be the bytes before and after it',
    'C16': 'a splitter of the request line (three tokens; origin and absolute form) written from RFC 7230',
    'C17': 'the list of header lines the request was built from',
    'C18': 'a recogniser of host[:port] written from the documented host rule',
    'C19': 'the media type and charset the header was built from, and decoding of one percent-encoded byte in it',
    'C20': 'the bytes after the header; a state machine of which calls are allowed after which; the read that failed',
    'C21': 'a reference decoder (split at & and ;, plus to space, percent escapes, charset with replacement)',
    'C22': 'self-composition: a reused parser against a fresh one over the same second stream',
    'C23': 'the path decoded again must be the path sent; alphabet of legal URI characters; query and slash as asked',
    'C24': 'the documented request error classes and termination',
    'C25': 'a dictionary of lists under the same operations',
    'C26': 'the content before the mutation of the other copy',
    'C27': 'the content before the refused operation; when mutable a multi-value dictionary under the same operation',
    'C28': 'the dictionary that was encoded',
    'C29': 'a tuple of the same items',
    'C30': 'a browser-like reader of URLs (strip controls, backslash as slash, scheme, authority, user info, host) written from the WHATWG rules',
    'C31': 'arithmetic value of the digits; the byte string that was encoded; Python\'s base64 alphabet',
    'C32': 'calendar arithmetic on the fields of the date, written independently of calendar/datetime',
    'C33': 'a reference scanner of the RFC 7232 list grammar',
    'C34': 'label-wise comparison of lower-cased names',
    'C35': 'alphabet of URI characters, idempotence, and the original text after decoding',
    'C36': 'a scanner of references with the table of named entities',
    'C37': 'the dictionary given plus the documented defaults; limits checked on requests',
    'C38': 'the bytes the file was made from; a line reader over them',
    'C39': 'the browser-like reader of C30; the mapping that was encoded; the import system\'s own answer for a dotted name',
    'C41': 'the listing of a scratch upload directory against the files reported',
    'C42': 'a byte string, a position and a closed flag under the same operations; another file of the same name that must stay as it is',
    'C43': 'an encoder written from the definition of the encodings (cp1252 and decoding: the codec of the interpreter)',
    'C40': 'the header lines, scheme and media type the request was built from',
}
# checks that missed a planted bug at first and were strengthened until they caught it
LATE = open(os.path.join(V, 'tools', 'late.txt')).read().split()


def bounds(i):
    s = open(os.path.join(V, 'harness', i + '.py')).read()
    m = re.search(r'^BOUNDS = (\(.*?\)|.*?)\n[A-Z]', s, re.S | re.M)
    return ast.literal_eval(m.group(1))


props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
metas = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    metas[f.split('/')[-2]] = json.load(open(f))
out = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## The properties', '']
for p in props:
    i = p['id']
    bugs = [b for b in metas if metas[b]['property'] == i]
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '',
            '- *Anchored in* ' + ', '.join('`%s`' % f for f in p['anchors']['files']) + ' (' + '; '.join(m['name'] for m in p['anchors']['mechanism']) + ')',
            '- *Oracle*: ' + ORACLE[i] + '.',
            '- *Bounds*: ' + bounds(i) + '.',
            '- *Why tests cannot settle it*: ' + p['why_tests_cant'],
            '- *Planted bugs caught*: ' + (', '.join(b + ('*' if b.split('-')[0] in LATE else '') for b in bugs) or 'none kept') + '.', '']
tail = open(os.path.join(V, 'tools', 'design_tail.md')).read()
fixed = []
for l in open(os.path.join(V, 'known_findings.jsonl')):
    l = l.strip()
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixed.append('- %s `%s` %s' % m.groups())
tail = tail.replace('@FIXED@', '\n'.join(fixed)).replace('@BUGS@', str(len(metas)))
out.append(tail.rstrip())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
