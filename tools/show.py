import json, sys
d = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 15
print(d['message'])
w = d.get('witness')
if isinstance(w, dict):
    for k, v in w.items():
        print(' ', k, ':', str(v)[:1500])
else:
    print(str(w)[:5000])
for line in d.get('trace', [])[-n:]:
    print('   >', line[:700])
