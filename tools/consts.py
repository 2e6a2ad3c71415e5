"""Writes harness/consts.inc: the index constants of both public headers for the frozen list of encodings (spec/names.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
db = json.load(open(V + '/spec/names.json'))
by = {e['index']: e['i'] for e in db['encodings']}
rows = [(e['index'], e['i']) for e in db['encodings']] + [(a, by[t]) for a, t in db['index_aliases']]
with open(V + '/harness/consts.inc', 'w') as f:
    f.write('/* written by tools/consts.py: constant, number of the encoding in spec/names.json */\n')
    f.writelines('X(%s, %d)\n' % r for r in rows)
