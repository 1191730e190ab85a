import json,sys
r=json.load(open(f'/verif/evidence/replays/{sys.argv[1]}.json'))
print(json.dumps(r['case']['config'],ensure_ascii=False)[:900])
for o in r['case']['ops']: print(json.dumps(o,ensure_ascii=False))
print(r['family'], r['mismatch'])
