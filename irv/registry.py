import os, json
_p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'proofs', 'registry.json')
REG = json.load(open(_p))
