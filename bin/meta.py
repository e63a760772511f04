import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = os.path.join(R, 'seeded', sys.argv[1], 'meta.json')
d = json.load(open(m)); d['needs'], d['what_it_breaks'] = sys.argv[2:4]
json.dump(d, open(m, 'w'), indent=1)
