"""Development helper: print the extracted MIR of functions whose name matches a pattern."""
import json, sys, re
F = json.load(open(sys.argv[1])); T = F['types']; by = {f['id']: f for f in F['fns']}
def tn(i): return T[i]['n']
def pl(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e[0] == '*': s = '(*%s)' % s
        elif e[0] == 'f': s += '.%d' % e[1]
        elif e[0] == 'd': s = '(%s as v%s)' % (s, e[1])
        else: s += str(e)
    return s
def op(o):
    if o[0] in 'cm' and len(o[0]) == 1: return o[0] + ' ' + pl(o[1])
    if o[0] == 'k': return 'const %s:%s' % (json.dumps(o[1]), tn(o[2]))
    return str(o)
def rv(r):
    k = r[0]
    if k == 'use': return op(r[1])
    if k in ('ref', 'addr'): return '&%s %s' % (r[1], pl(r[2]))
    if k == 'agg': return 'agg %s%s [%s]' % (r[1], (':' + tn(r[1][1])) if r[1][0] in ('adt', 'closure') else '', ', '.join(op(x) for x in r[2]))
    if k in ('bin', 'cbin'): return '%s %s(%s, %s)' % (k, r[1], op(r[2]), op(r[3]))
    if k == 'un': return '%s(%s)' % (r[1], op(r[2]))
    if k == 'cast': return 'cast %s %s -> %s' % (r[1], op(r[2]), tn(r[3]))
    if k in ('discr', 'len', 'reborrow'): return '%s %s' % (k, pl(r[1]))
    return str(r)
for f in F['fns']:
    if not f['dumped'] or not re.search(sys.argv[2], f['name']): continue
    print('fn %d %s  [%s] argc=%d' % (f['id'], f['name'], f['krate'] + f['path'], f['argc']), f['span'])
    names = dict((a, b) for a, b in f['names'])
    for i, l in enumerate(f['locals']): print('  _%d: %s %s' % (i, tn(l), names.get(i, '')))
    for bi, (st, t, sp) in enumerate(f['blocks']):
        print(' bb%d:' % bi)
        for s in st:
            if s[0] == '=': print('    %s = %s' % (pl(s[1]), rv(s[2])))
            else: print('   ', s)
        if t[0] == 'call':
            c = t[1]; g = by.get(c['inst'])
            print('    %s = call %s(%s) -> %s unw %s' % (pl(t[4]), ('#%d %s' % (g['id'], g['name'][:110])) if g else op(t[2]), ', '.join(op(x) for x in t[3]), t[5], t[6]))
        elif t[0] == 'switch': print('    switch', op(t[1]), t[2], t[3])
        elif t[0] == 'drop': print('    drop', pl(t[1]), '->', t[2], tn(t[3]))
        elif t[0] == 'assert': print('    assert', op(t[1]), t[2], t[3], [op(x) for x in t[4]], '->', t[5])
        else: print('   ', t)
