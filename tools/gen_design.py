"""Writes DESIGN.md from tools/design/*.md, pbt/props.py, the facets,
KNOWN_FINDINGS.txt and tools/design/planted.json (tools/plant.py results)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pbt import core                       # noqa
from pbt.props import PROPS                # noqa

D = os.path.join(ROOT, 'tools', 'design')


def notes():
    out, cur = {}, None
    for line in open(os.path.join(D, 'notes.md')):
        if line.startswith('## '):
            cur = line[3:].strip()
            out[cur] = []
        elif cur:
            out[cur].append(line)
    return {k: ''.join(v).strip() for k, v in out.items()}


def main():
    o = [open(os.path.join(D, 'head.md')).read().rstrip(), '']
    ns = notes()
    fixed = {}
    for line in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
        if line.startswith('fixed:'):
            w = line.split()
            fixed.setdefault(w[1].split('=')[1], []).append(
                (w[2], ' '.join(w[3:])))
    planted = {}
    sd = os.path.join(ROOT, 'seeded')
    catch = json.load(open(os.path.join(D, 'planted.json')))
    for b in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, b, 'meta.json')))
        planted.setdefault(m['property'], []).append((b, m, catch.get(b, '?')))
    o += ['## Properties', '']
    for p in PROPS:
        i = p['id']
        core.load(i)
        o += ['### %s %s' % (i, p['title']), '',
              '**Specified.** ' + p['statement'], '',
              '**Generated.** ' + p['domain'] + '.', '',
              '**Oracle.** ' + p['oracle'] + '.', '',
              '**Why tests cannot settle it.** ' + p['why'], '']
        if p['note']:
            o += ['**Limits.** ' + p['note'], '']
        o += ['| facet | cases quick / thorough | what it decides |',
              '|---|---|---|']
        for f in core.FACETS[i]:
            o.append('| %s | %d / %d | %s |' % (
                f.name, f.quick, f.thorough,
                ' '.join(f.doc.split()).replace('|', '\\|')))
        o.append('')
        if ns.get(i):
            o += ['**Decisions and corrected false alarms.** ' + ns[i], '']
        if fixed.get(i):
            o += ['**Defects found and repaired.**', '']
            o += ['- `%s` %s' % t for t in fixed[i]]
            o.append('')
        if planted.get(i):
            o += ['**Planted bugs.**', '']
            o += ['- `%s` (%s): %s - %s' % (b, c, m['needs'],
                                            m['what_it_breaks'])
                  for b, m, c in planted[i]]
            o.append('')
    o += [open(os.path.join(D, 'tail.md')).read().rstrip(), '']
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fp:
        fp.write('\n'.join(o))


main()
