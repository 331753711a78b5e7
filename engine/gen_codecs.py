# run under Jython: python engine/gen_codecs.py > engine/jython_codecs.json   (the codec names the real interpreter knows)
import codecs, encodings, json, re
from encodings import aliases
from java.nio.charset import Charset
P, J = {}, {}


def look(n):
    try:
        c = codecs.lookup(n).name
    except LookupError:
        return None
    try:
        r = 'a'.decode(n, 'replace')
        r = [ord(x) for x in r] if isinstance(r, unicode) else None
    except Exception:
        r = None
    return [c, r]


names = set(aliases.aliases) | set(aliases.aliases.values())
try:
    import java.util.jar.JarFile as JarFile
    for e in JarFile('/usr/share/java/jython-2.7.3.jar').entries():
        m = re.match(r'Lib/encodings/(\w+)\$py\.class', e.getName())
        if m and m.group(1) not in ('__init__', 'aliases', '_java'):
            names.add(m.group(1))
except Exception, e:
    pass
for n in names:
    r = look(n)
    if r:
        P[n.lower()] = r
for c in Charset.availableCharsets().values():
    for n in [c.name()] + list(c.aliases()):
        n = str(n).lower()
        k = re.sub('[^a-z0-9.]+', '_', n).strip('_')
        if k not in P:
            r = look(n)
            if r:
                J[n] = r
print json.dumps({'python': P, 'java': J}, sort_keys=True)
