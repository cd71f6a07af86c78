"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- seeds -->', '<!-- /seeds -->'


def cell(text):
    return ' '.join(text.split()).replace('|', '\\|')


def table():
    rows = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
    base = os.path.join(HERE, 'seeded')
    for name in sorted(os.listdir(base)):
        meta = json.load(open(os.path.join(base, name, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (
            name, meta['property'], cell(meta['what_it_breaks']), cell(meta['needs'])))
    return '\n'.join(rows)


path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
new = re.sub(re.escape(BEGIN) + '.*' + re.escape(END),
             lambda m: BEGIN + '\n' + table() + '\n' + END, text, flags=re.S)
open(path, 'w').write(new)
