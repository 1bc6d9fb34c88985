#!/usr/bin/env python3
"""Collect the inputs of the repository's own HTML tests as seeds (run once; result is committed)."""
import glob, re
seen = []
for f in sorted(glob.glob('/repo/tests/html-ut/ut/*.test')):
    lines = open(f, encoding='utf-8').read().split('\n')
    i = 0
    while i < len(lines):
        m = re.match(r'^(`{3,})', lines[i])
        if not m:
            i += 1
            continue
        fence = m.group(1)
        i += 1
        src, rest = [], False
        while i < len(lines) and lines[i] != fence:
            if lines[i] == '.':
                rest = True
            if not rest:
                src.append(lines[i])
            i += 1
        i += 1
        s = '\n'.join(src) + '\n'
        if s not in seen and len(s) < 1500:
            seen.append(s)
open('/verif/harness/corpus/seeds.txt', 'w', encoding='utf-8').write('\x1e'.join(seen))
print(len(seen))

def unesc(s):
    return re.sub(r'\\(u\{([0-9a-fA-F]+)\}|\n\s*|.)', lambda m: chr(int(m.group(2), 16)) if m.group(2)
                  else '' if m.group(1)[0] == '\n' else {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1), m.group(1)), s, flags=re.S)
LIT = r'"(?:[^"\\]|\\.)*"'
for f in ['/repo/tests/parse_events.rs', '/repo/tests/html.rs', '/repo/src/lib.rs']:
    t = open(f, encoding='utf-8').read()
    t = re.sub(r'^\s*///', '', t, flags=re.M)
    for m in re.finditer(r'(?:test_parse!\(\s*|test_html!\(\s*|let src = )(concat!\((?:\s*' + LIT + r',?\s*)+\)|' + LIT + ')', t, flags=re.S):
        s = ''.join(unesc(x[1:-1]) for x in re.findall(LIT, m.group(1), flags=re.S))
        if s not in seen and 0 < len(s) < 1500:
            seen.append(s)
for f in ['/repo/tests/afl/in/all.dj', '/repo/bench/input/block_footnotes.dj', '/repo/bench/input/inline_attrs.dj']:
    s = open(f, encoding='utf-8').read()
    seen += [s[i:i + 1500] for i in range(0, len(s), 1500)][:4]
open('/verif/harness/corpus/seeds.txt', 'w', encoding='utf-8').write('\x1e'.join(seen))
print(len(seen))
