#!/usr/bin/env python3
# design.py writes DESIGN.md from its fixed parts, the comments of the harnesses and seeded/*/meta.json.
import re, glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
head = open('tools/design_head.md').read()
tail = open('tools/design_tail.md').read()
star = json.load(open('tools/missed.json'))
items = {}
for f in sorted(glob.glob('harness/*/*.go')):
    s = open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func ([MPSC]\d\d)_(\w+)\(', s):
        doc = re.sub(r'\n?// ?', ' ', m.group(1)).strip()
        if ':' in doc[:40]:
            doc = doc[doc.find(':') + 1:].strip()
        items.setdefault(m.group(2), []).append((m.group(3), doc))
body = ''
for l in open('properties.jsonl'):
    d = json.loads(l)
    body += '**%s** %s\n\n' % (d['id'], d['title'])
    for n, doc in items.get(d['id'], []):
        body += '- `%s`: %s\n' % (n, doc)
    body += '\n'
rows = ''
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    n = f.split('/')[1]
    rows += '| %s%s | %s | %s: %s | %s |\n' % (n, '*' if n in star else '', d['property'], d['needs'], d['what_it_breaks'], star.get(n, ''))
open('DESIGN.md', 'w').write(head + body + tail + rows)
