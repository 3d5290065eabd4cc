"""Run once: fixed keys so that runs are reproducible and start quickly."""
import json
from cryptojwt.key_jar import build_keyjar
out = {}
for who in ['rp', 'rp2', 'op1', 'op2', 'op3', 'evil', 'src']:
    kj = build_keyjar([{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]},
                       {"type": "RSA", "use": ["enc"]}])
    out[who] = kj.export_jwks(True, '')
json.dump(out, open('keys.json', 'w'), indent=1)
