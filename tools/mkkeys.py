"""One-off: fixed test keys for the JOSE workloads (rv/keys.json)."""
import json, os
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.jwk.ec import new_ec_key
out = {}
for who in ('iss1', 'iss2', 'rp', 'evil'):
    ks = [new_rsa_key(2048, kid=who + '-rsa', use='sig').serialize(private=True),
          new_rsa_key(2048, kid=who + '-enc', use='enc').serialize(private=True)]
    for crv in ('P-256', 'P-384', 'P-521'):
        ks.append(new_ec_key(crv, kid=who + '-' + crv, use='sig').serialize(private=True))
    ks.append({'kty': 'oct', 'k': __import__('base64').urlsafe_b64encode(os.urandom(64)).rstrip(b'=').decode(), 'kid': who + '-oct', 'use': 'sig'})
    out[who] = ks
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'rv', 'keys.json'), 'w'), indent=1)
