#!/usr/bin/env python3
"""Writes harness/C27_types_*.inc: the pattern function signatures that occur for the patterns explored by C27."""
import functools, os, sys
NFILES = 4

@functools.lru_cache(None)
def elem(n, d):
    out = set()
    if n == 1:
        out.add(('V', 0, 0)); out.add(('', 0, 0))
    if d > 0:
        for t, nu, re in seq(n, d - 1):
            if not nu: out.add(('O(' + t + ')', 1, re))
            if not nu and not re: out.add(('R(' + t + ')', 0, 1))
        for k in range(1, n):
            for t, n1, r1 in branch(k, d - 1):
                for u, n2, r2 in branch(n - k, d - 1):
                    if not (n1 and n2): out.add(('A(' + t + '|' + u + ')', n1 or n2, r1 or r2))
                for m in range(1, n - k):
                    for u, n2, r2 in branch(m, d - 1):
                        for v, n3, r3 in branch(n - k - m, d - 1):
                            if n1 + n2 + n3 < 2: out.add(('A(' + t + '|' + u + '|' + v + ')', n1 or n2 or n3, r1 or r2 or r3))
    return out

def branch(n, d):
    # Directly nested alternatives are flattened
    out = {e for e in elem(n, d) if not e[0].startswith('A')}
    for k in range(1, n):
        for t, n1, r1 in elem(k, d):
            for u, n2, r2 in seq(n - k, d):
                out.add((t + u, n1 and n2, (r1 and n2) or (n1 and r2)))
    return out

@functools.lru_cache(None)
def seq(n, d):
    out = set(elem(n, d))
    for k in range(1, n):
        for t, n1, r1 in elem(k, d):
            for u, n2, r2 in seq(n - k, d):
                out.add((t + u, n1 and n2, (r1 and n2) or (n1 and r2)))
    return out

def cxx(t):
    """type string -> list of C++ parameter types"""
    out, i = [], 0
    while i < len(t):
        if t[i] == 'V':
            out.append('V'); i += 1; continue
        kind, depth, j = t[i], 0, i + 1
        parts, start = [], i + 2
        while True:
            if t[j] == '(': depth += 1
            elif t[j] == ')':
                depth -= 1
                if depth == 0: break
            elif t[j] == '|' and depth == 1:
                parts.append(t[start:j]); start = j + 1
            j += 1
        parts.append(t[start:j])
        if kind == 'A':
            out.append('A<' + ', '.join('S<' + ', '.join(cxx(p)) + '>' for p in parts) + '>')
        else:
            out.append(kind + '<' + ', '.join(cxx(parts[0])) + '>')
        i = j + 1
    return out

types = set()
for n, d in [(1, 2), (2, 2), (3, 1)]:
    types |= {t for t, _, _ in seq(n, d)}
# Some deeper ones
types |= {'R(VR(V))', 'R(O(V)V)', 'R(VO(V))', 'O(VR(V))', 'O(R(VV))', 'R(A(V|VV))', 'O(A(V|VV))', 'A(VR(V)|O(V)V)', 'A(R(V)|O(V)V)',
          'R(A(V|)V)', 'R(VA(|V))', 'O(VO(VO(V)))', 'O(VO(V))', 'R(VO(VV))', 'R(O(V)VO(V))', 'A(O(V)|R(V))', 'A(A(V|)V|V)',
          'R(VO(R(V)))', 'O(R(V)V)', 'R(O()V)', 'R(O()VO())', 'R(A(|)V)', 'R(VR())', 'O(VR())', 'O(R())V', 'R(VO(R()))', 'O()A(|)O(R(V))', 'R(V)', 'O(V)'}
types = sorted(types)
here = os.path.dirname(os.path.abspath(__file__))
for f in range(NFILES):
    with open(os.path.join(here, '..', 'harness', 'C27_types_%d.inc' % f), 'w') as out:
        for t in types[f::NFILES]:
            c = cxx(t)
            out.write('    reg<' + ', '.join(c) + '>("' + t + '");\n')
print(len(types))
