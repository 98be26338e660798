#!/usr/bin/env python3
"""Writes DESIGN.md from the texts beside it, the checks, the table of
properties and the results of planted bugs (tools/plants.json)."""
import importlib.util
import json
import os
import re
import subprocess
import sys

T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)


def consts(pid):
    import ast
    src = open(os.path.join(V, 'checks', pid.lower() + '.py')).read()
    out = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(
                n.targets[0], 'id', '') in (
                'LEVEL', 'RULE', 'BOUNDS', 'ASSUMPTIONS'):
            out[n.targets[0].id] = eval(compile(ast.Expression(n.value), '',
                                                'eval'))
    return out


def main():
    sys.path.insert(0, T)
    import meta
    import oracle
    plants = json.load(open(os.path.join(T, 'plants.json')))
    cost = json.load(open(os.path.join(T, 'cost.json')))
    out = [open(os.path.join(T, 'design_head.md')).read()]
    out.append('## 3. The properties\n')
    for p in meta.P:
        pid = p['pid']
        c = consts(pid)
        flat = ' '.join
        out.append('### %s %s\n' % (pid, p['title']))
        out.append(p['statement'] + '\n')
        out.append('* Anchored in: %s (%s).' % (
            ', '.join('`%s`' % f for f in p['files']), '; '.join(p['mech'])))
        out.append('* Method: %s. Level: `%s`.' % (p['tech'], c['LEVEL']))
        out.append('* Enumerated: %s' % re.sub(r'\s+', ' ', c['RULE']))
        out.append('* Oracle: %s' % re.sub(r'\s+', ' ', oracle.O[pid]))
        out.append('* Bounds: quick: %s. Thorough: %s.' % (
            c['BOUNDS']['quick'], c['BOUNDS']['thorough']))
        if c['ASSUMPTIONS']:
            out.append('* Assumes: %s.' % '; '.join(c['ASSUMPTIONS']))
        k = cost.get(pid, {})
        out.append('* Cost on 8 cores: quick %s, thorough %s.' % (
            k.get('quick', '?'), k.get('thorough', '?')))
        out.append('* What tests cannot settle: %s' % p['why'])
        out.append('* Limits: %s.\n' % p['note'])
    out.append('## 4. Planted bugs\n')
    out.append('Each was written from the text of the property and the code, '
               'confirmed to build, to pass the stable tests and to fail its '
               'demonstration, and then run against the check of its '
               'property (`tools/plants.py`). "Missed at first" marks those '
               'the check of that time did not report; the check was '
               'strengthened until it did.\n')
    out.append('| bug | what it breaks | needs | reported by | |')
    out.append('|---|---|---|---|---|')
    missed = set(oracle.MISSED.split())
    for i in sorted(plants):
        m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
        esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
        out.append('| %s | %s | %s | %s | %s |' % (
            i, esc(m['what_it_breaks']), esc(m['needs']),
            ', '.join(plants[i]) or 'none',
            'missed at first' if i in missed else ''))
    out.append('')
    gone = [i for i in sorted(missed) if i not in plants]
    if gone:
        out.append('Missed at first and later dropped or replaced by a '
                   'variant, since they did not count formally: %s.\n'
                   % ', '.join(gone))
    fixed = [x[len('fixed: property='):].strip().split(' ', 2)
             for x in open(os.path.join(V, 'KNOWN_FINDINGS.txt'))
             if x.startswith('fixed:')]
    tab = ['| property | commit | what failed |', '|---|---|---|'] + [
        '| %s | %s | %s |' % tuple(x) for x in fixed]
    tail = open(os.path.join(T, 'design_tail.md')).read()
    tail = tail.replace('@@FIXED@@', '\n'.join(tab))
    tail = tail.replace('@@REFACTOR@@', oracle.REFACTOR.strip())
    out.append(tail)
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
