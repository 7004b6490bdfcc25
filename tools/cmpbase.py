import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    return x
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()}); print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
