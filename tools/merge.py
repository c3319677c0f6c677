"""merge.py FIRST SECOND NAME: SECOND becomes the union of both runs' evidence."""
import json, sys
a, b = json.load(open(sys.argv[1])), json.load(open(sys.argv[2]))
c, d = a['coverage'], b['coverage']
for k in ('evaluations', 'distinct_nontrivial', 'unreproduced', 'harness_errors', 'shrink_attempts'):
    c[k] = c.get(k, 0) + d.get(k, 0)
c['variant_' + sys.argv[3]] = {k: d[k] for k in ('evaluations', 'distinct_nontrivial', 'totals') if k in d}
a['wall_s'] = a.get('wall_s', 0) + b.get('wall_s', 0)
a['violations'] = a.get('violations', 0) + b.get('violations', 0)
json.dump(a, open(sys.argv[2], 'w'), indent=1)
