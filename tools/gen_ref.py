#!/usr/bin/env python3
"""Generates /verif/ref/ (the extended-precision shadow model) from the pinned /repo sources.

Run once when the reference was frozen (commit recorded in ref/ORIGIN); never run by a check.
Every `float`/`double` becomes `long double`, namespace sla becomes slaref; constants keep the values
they have in the pinned sources.  The pseudo-random generators and wait() are not part of the model."""
import re, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo/src'
out = os.path.join(V, 'ref')
SKIP = {'random', 'gresid', 'wait', 'vers', 'veri'}
BIG = {'epv', 'rcc', 'nutc', 'nutc80', 'dmoon', 'moon', 'evp', 'obs'}
def strip_comments(s):
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    s = re.sub(r'//[^\n]*', '', s)
    return s
def conv(s):
    s = strip_comments(s)
    s = re.sub(r'\b(double|float)\b', 'LDBL', s)
    s = re.sub(r'namespace sla\b', 'namespace slaref', s)
    s = s.replace('sla::', 'slaref::')
    s = re.sub(r'std::(max|min)\(', r'r_\1(', s)
    s = re.sub(r'\n\s*\n+', '\n', s)
    return s
LIC = '// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.\n'
os.makedirs(out, exist_ok=True)
h = conv(open(f'{REPO}/slalib.h').read())
h = re.sub(r'#define SLALIB_\w+( .*)?\n', '', h); h = re.sub(r'#if SLALIB_THREAD_SAFE.*?#endif\n', '', h, count=1, flags=re.S)
h = h.replace('SLALIB_H_INCLUDED', 'SLAREF_H_INCLUDED').replace('#ifndef SLAREF_H_INCLUDED', '#ifndef SLAREF_H_INCLUDED\n#define SLAREF_H_INCLUDED\nusing LDBL = long double;', 1)
open(f'{out}/slaref.h', 'w').write(LIC + h)
MM = '''
template <class A, class B> inline auto r_max(A a, B b) -> typename std::common_type<A, B>::type { typename std::common_type<A, B>::type x = a, y = b; return x < y ? y : x; }
template <class A, class B> inline auto r_min(A a, B b) -> typename std::common_type<A, B>::type { typename std::common_type<A, B>::type x = a, y = b; return y < x ? y : x; }
'''
f = conv(open(f'{REPO}/f77_utils.h').read()).replace('SLALIB_F77', 'SLAREF_F77')
f = f.replace('namespace slaref {', 'namespace slaref {' + MM, 1)
open(f'{out}/slaref_f77.h', 'w').write(LIC + f)
names = sorted(n[:-3] for n in os.listdir(REPO) if n.endswith('.cc'))
small = [n for n in names if n not in SKIP and n not in BIG]
def body(n):
    s = conv(open(f'{REPO}/{n}.cc').read())
    s = re.sub(r'#include "[^"]*"\n', '', s)
    s = re.sub(r'#include <[^>]*>\n', '', s)
    return f'// ---- {n}\n' + s
HEAD = LIC + '#include "slaref.h"\n#include "slaref_f77.h"\n#include <cmath>\n#include <cstring>\n#include <cstdint>\n#include <algorithm>\n'
groups = {'ref_small%d' % k: small[k::4] for k in range(4)}
for b in BIG: groups['ref_' + b] = [b]
for g, ns in groups.items():
    open(f'{out}/{g}.cc', 'w').write(HEAD + ''.join(body(n) for n in ns))
rev = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
open(f'{out}/ORIGIN', 'w').write(f'generated from /repo commit {rev}\n')
