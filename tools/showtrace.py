"""showtrace.py REPLAY.json | TRACES.json INDEX [POSITION]: prints a trace."""
import json, sys
f = sys.argv[1]
if len(sys.argv) == 2:
    d = json.load(open(f)); pos = d.get("position", 0)
else:
    i, pos = int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 0
    d = json.loads(open(f).read().splitlines()[i - 1])
print({k: v for k, v in d.items() if k not in ('ev', 'event')})
for j, e in enumerate(d['ev'], 1):
    print('>>' if j == pos else '  ', j, 't%s' % e.get('t'), e['k'], e.get('op'), *[e.get(x) for x in 'pab'], repr(e.get('r')), 'n=%s' % e.get('n'))
