import json,sys
d=json.load(open(sys.argv[1])); print(d['message'][:600]); print(json.dumps(d['case'])); print((d.get('traceback') or '')[-1200:])
