#!/usr/bin/env python3
"""
Fill the generated parts of DESIGN.md (between <!-- begin X --> and
<!-- end X -->): table of suites from the evidence files of a quick run, list
of findings and table of planted bugs.  mkdesign.py [--caught FILE]
"""
import glob, json, os, re
V = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))

def suites ():
    out = []
    for f in sorted (glob.glob (f'{V}/evidence/C??.json')):
        e = json.load (open (f))
        if e['tier'] != 'quick':
            raise SystemExit (f'{f} is not from a quick run')
        c = e['coverage']
        def rnd (x):
            return f'{x:,}'.replace (',', ' ')
        out.append (f'**{e["property"]}** ({rnd (c["states"])} states, {rnd (c["transitions"])} transitions, {rnd (c["traces_validated_against_impl"])} traces on the implementation)\n')
        for n, s in c['suites'].items ():
            out.append (f'* `{n}`: {s["bounds"]} — {rnd (s["states"])} / {rnd (s["transitions"])} / {rnd (s["traces"])}')
        out.append ('')
    return '\n'.join (out)

def findings ():
    d = json.load (open (f'{V}/known_findings.json'))
    return '\n'.join (f'* {e["text"]}' for e in d['findings'])

def seeds ():
    out = ['| id | property | breaks | needs |', '|---|---|---|---|']
    for f in sorted (glob.glob (f'{V}/seeded/*/meta.json')):
        m = json.load (open (f))
        esc = lambda s: s.replace ('|', '\\|').replace ('\n', ' ')
        out.append (f'| {os.path.basename (os.path.dirname (f))} | {m["property"]} | {esc (m["what_it_breaks"])} | {esc (m["needs"])} |')
    return '\n'.join (out)

p = f'{V}/DESIGN.md'
t = open (p).read ()
for k, fn in dict (suites=suites, findings=findings, seeds=seeds).items ():
    b, e = f'<!-- begin {k} -->', f'<!-- end {k} -->'
    i, j = t.index (b) + len (b), t.index (e)
    t = t[:i] + '\n' + fn () + '\n' + t[j:]
open (p, 'w').write (t)
