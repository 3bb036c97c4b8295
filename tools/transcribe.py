#!/usr/bin/env python3
"""One-off transcription of the published tables (signatures, catalogue) at the pinned commit into
TLA+ data modules.  Not run by any check: the TLA+ modules are the reference, not the source."""
import re, ast, sys
repo = sys.argv[1]; out = sys.argv[2]
src = open(repo + '/src/signatures.rs').read()
body = src[src.index('signatures! {'):]
alts = []; cur = None
for line in body.splitlines():
    l = line.strip()
    if l.startswith('format ='):
        cur = l.split('=')[1].strip()
    elif l.startswith('value'):
        rest = l[l.index('=') + 1:]
        parts = [(int(m.group(2) or 0), ast.literal_eval('b' + m.group(1)))
                 for m in re.finditer(r'b("(?:[^"\\]|\\.)*")(?:\s*offset\s*=\s*(\d+))?', rest)]
        alts.append((cur, parts, rest.strip()))
def tup(b): return '<<' + ','.join(str(c) for c in b) + '>>'
with open(out + '/SigTable.tla', 'w') as f:
    f.write('------------------------------ MODULE SigTable ------------------------------\n')
    f.write('(* The published signatures, most specific first.  An alternative matches a stream when every\n')
    f.write('   part [o, b] is found at its offset.  f: format; o: offset; b: bytes. *)\n')
    f.write('Alts == <<\n')
    f.write(',\n'.join('  [f |-> "%s", p |-> <<%s>>]' % (a, ', '.join('[o |-> %d, b |-> %s]' % (o, tup(v)) for o, v in p))
                       for a, p, _ in alts))
    f.write('\n>>\n=============================================================================\n')
src = open(repo + '/src/formats.rs').read(); body = src[src.index('formats! {'):]
rows = []
for blk in re.split(r'\n\s*\n', body):
    d = {k: ast.literal_eval('"' + v + '"') for k, v in re.findall(r'(\w+) = "((?:[^"\\]|\\.)*)"', blk)}
    m = re.search(r'format = (\w+)', blk); k = re.search(r'kind = (\w+)', blk)
    if m: rows.append((m.group(1), d['name'], d.get('short_name', ''), d['media_type'], d['extension'], k.group(1)))
rd = open(repo + '/README.md').read(); rd = rd[rd.index('## Supported file formats'):]
readme = []; kind = None
for l in rd.splitlines()[1:]:
    if l.startswith('## '): break
    if l.startswith('### '): kind = l[4:].strip()
    elif l.startswith('- '): readme.append((l[2:].strip(), kind))
def s(x): return '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'
with open(out + '/Catalog.tla', 'w') as f:
    f.write('------------------------------ MODULE Catalog ------------------------------\n')
    f.write('(* Catalogue of the formats: variant, name, short name ("" if none), media type, extension, kind. *)\n')
    f.write('Catalog == <<\n')
    f.write(',\n'.join('  [v |-> %s, n |-> %s, s |-> %s, m |-> %s, e |-> %s, k |-> %s]' % tuple(map(s, r)) for r in rows))
    f.write('\n>>\n\n(* The documentation: every supported format, listed under its kind. *)\nDocumented == <<\n')
    f.write(',\n'.join('  [t |-> %s, k |-> %s]' % (s(t), s(k)) for t, k in readme))
    f.write('\n>>\n=============================================================================\n')
print(len(alts), len(rows), len(readme))
