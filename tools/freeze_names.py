"""One-off: freeze names/aliases/codepages/indexes of the pinned tree into spec/names.json."""
import re, json
t = open('/repo/lib/encodings.h.snippet', encoding='utf-8').read()
t = re.sub(r'/\*.*?\*/', '', t, flags=re.S); t = re.sub(r'//[^\n]*', '', t)
encs, cps, idx = [], {}, []
for m in re.finditer(r'DEFENCODING\s*\(\s*\((.*?)\)\s*,\s*(\w+)\s*,\s*(\w+)\s*,|DEFCODEPAGE\s*\(\s*(\d+)\s*,\s*(\w+)\s*\)|DEFINDEX\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)', t, re.S):
    if m.group(1) is not None:
        encs.append(dict(i=len(encs), c=m.group(2), index=m.group(3), names=re.findall(r'"([^"]*)"', m.group(1))))
    elif m.group(4): cps[int(m.group(4))] = m.group(5)
    else: idx.append((m.group(6), m.group(7)))
byc = {e['c']: e['i'] for e in encs}
json.dump(dict(encodings=encs, codepages={k: byc[v] for k, v in cps.items()}, index_aliases=idx), open('/verif/spec/names.json', 'w'), indent=0)
print(len(encs), sum(len(e['names']) for e in encs), len(cps), idx[:5], max(len(n) for e in encs for n in e['names']))
al = re.findall(r'', '')
