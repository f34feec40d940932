import json
def dumps(o, **k): return json.dumps(o, indent=1)
def loads(s, **k): return json.loads(s)
def load(f, **k): return json.load(f)
def dump(o, f, **k): json.dump(o, f)
HjsonDecodeError=json.JSONDecodeError
