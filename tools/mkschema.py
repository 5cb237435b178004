"""One-off: snapshot of the pinned tree's message schema (reviewed by hand against RFC 6749/7662/8693,
OIDC Core/Registration/Discovery/Session/Back-channel).  The committed rv/schema.json is the oracle's own
table; checks never read the specification tables of the tree under test."""
import inspect, json, sys
from oidcmsg import message, oauth2, oidc
from oidcmsg.oauth2 import device_authorization as da
from oidcmsg.oidc import session, identity_assurance as ida
from oidcmsg.message import Message

def kind(spec):
    t, req, ser, deser, null = spec
    s = getattr(ser, '__name__', None); d = getattr(deser, '__name__', None)
    if t is str and s == 'time_stamp_ser': return 'timestamp'
    if t is str: return 'str'
    if t is int: return 'int'
    if t is bool: return 'bool'
    if t == [str]: return 'splist' if s == 'sp_sep_list_serializer' else 'list'
    if t is dict: return 'json' if s == 'json_serializer' else 'dict'
    if isinstance(t, list): return 'list:' + t[0].__name__
    if d == 'msg_deser': return 'msg' if t is Message else 'msg:' + t.__name__
    if d is None: return 'idtoken'
    return 'msg:' + {'address_deser': 'AddressClaim', 'claims_deser': 'Claims',
                     'claims_request_deser': 'ClaimsRequest'}.get(d, t.__name__)

out = {}
for mod in (message, oauth2, da, oidc, session, ida):
    for n, c in sorted(vars(mod).items()):
        if inspect.isclass(c) and issubclass(c, Message) and c.__module__ == mod.__name__:
            out[mod.__name__ + ':' + n] = {
                'params': {k: [kind(v), bool(v[1])] for k, v in c.c_param.items()},
                'default': c.c_default, 'allowed': {k: list(v) for k, v in c.c_allowed_values.items()}}
json.dump(out, open(sys.argv[1], 'w'), indent=1, sort_keys=True)
