"""every file named in properties.jsonl exists"""
import json, os
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    for f in p['anchors']['files']:
        if not os.path.exists('/repo/' + f):
            print(p['id'], f)
