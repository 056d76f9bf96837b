# Run under the PyPy interpreter that runs the project; prints the character
# tables the symbolic string model uses (sx/unitables.json).
import json, sys, re, unicodedata
N = 0x110000
def intervals(pred):
    out = []
    start = None
    for i in range(N):
        if pred(chr(i)):
            if start is None:
                start = i
        elif start is not None:
            out.append([start, i-1]); start = None
    if start is not None:
        out.append([start, N-1])
    return out
t = {'unidata': unicodedata.unidata_version, 'version': sys.version}
preds = {}
for name in ['isalpha', 'isdigit', 'isdecimal', 'isnumeric', 'isalnum', 'isspace',
             'isupper', 'islower', 'isprintable', 'isidentifier']:
    f = getattr(str, name)
    preds[name] = intervals(f)
preds['hasname'] = intervals(lambda c: unicodedata.name(c, '') != '')
preds['titlecase'] = intervals(lambda c: unicodedata.category(c) == 'Lt')
preds['cased'] = intervals(lambda c: (c + 'A').title()[-1:] == 'a')
preds['re_w'] = intervals(re.compile(r'\w').match)
preds['re_s'] = intervals(re.compile(r'\s').match)
preds['re_d'] = intervals(re.compile(r'\d').match)
preds['latin'] = intervals(lambda c: 'LATIN' in unicodedata.name(c, ''))
preds['linebreak'] = intervals(lambda c: len(('a'+c+'b').splitlines()) > 1)
cats = {}
for i in range(N):
    c = unicodedata.category(chr(i))
    l = cats.setdefault(c, [])
    if l and l[-1][1] == i-1:
        l[-1][1] = i
    else:
        l.append([i, i])
maps = {}
for name in ['lower', 'upper', 'title', 'casefold', 'swapcase']:
    f = getattr(str, name)
    d = {}
    for i in range(N):
        c = chr(i)
        r = f(c)
        if r != c:
            d[i] = r
    maps[name] = d
dec = {}
for i in range(N):
    v = unicodedata.decimal(chr(i), None)
    if v is not None:
        dec[i] = v
ic = {}
for ch in 'abcdefghijklmnopqrstuvwxyz':
    m = re.compile(ch, re.I).match
    ic[ch] = [i for i in range(N) if m(chr(i))]
t.update(preds=preds, cats=cats, maps=maps, decimal=dec, icase=ic)
json.dump(t, open(sys.argv[1], 'w'), separators=(',', ':'), sort_keys=True)
