import json,sys
d=json.load(open(sys.argv[1]))
print(d['counts'],d['broken'])
for f in d['findings']: print(f['rule'],f['file'],f['line'],f['function'],f['key'],'|',f['message'])
if len(sys.argv)>2:
  for x in d['samples']: print(x)
