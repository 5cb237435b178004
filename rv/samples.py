"""Content that must verify, per message class: schema conforming and obeying the class's own rules."""
import time

from . import gen, jose

NO = {'oidcmsg.oidc.identity_assurance:Evidence', 'oidcmsg.oidc.identity_assurance:IdDocument',
      'oidcmsg.oidc.identity_assurance:UtilityBill', 'oidcmsg.oidc.identity_assurance:QES',
      'oidcmsg.oidc.identity_assurance:VerificationElementRequest',
      'oidcmsg.oidc.identity_assurance:VerifiedClaimsRequest', 'oidcmsg.oidc.identity_assurance:IDAClaimsRequest'}
DEVICE = 'oidcmsg.oauth2.device_authorization:AccessTokenRequest'
NAMES = [n for n in sorted(gen.SCHEMA) if n not in NO]
TOKEN_KINDS = ('idtoken',)


def idt(rng):
    now = int(time.time())
    return {'iss': jose.ISS1, 'sub': 's', 'aud': [jose.RP], 'exp': now + 600, 'iat': now - 5}


def valid(rng, name, p=None, nested=True):
    """(params, verify kwargs)"""
    now = int(time.time())
    sch = gen.SCHEMA[name]['params']
    if name.startswith(gen.CUSTOM):
        d = gen.full(rng, name, 1, p=p)
        for k, (kind, _) in sch.items():
            if k in d and kind in ('int', 'json') and not d[k]:
                d[k] = 7 if kind == 'int' else {'a': 'b'}
        return d, {}
    avoid = {'error_description', 'birthdate', 'at_hash', 'c_hash', 'nonce', 'id_token_hint', 'request', 'azp'}
    if name.endswith(('JWTSecuredAuthorizationRequest',)):
        avoid -= {'request'}
    kw = {}
    d = gen.full(rng, name, 1 if nested else 0, p=p, avoid=avoid, kinds=None)
    for k, (kind, req) in sch.items():
        if kind == 'int' and k in d and not d[k]:
            d[k] = 7                            # a zero counts as missing in required parameters
        if kind == 'timestamp' and k in d and not d[k]:
            d[k] = 7
        if kind == 'dict' and k in d:
            d[k] = {'a': 'b'}
        if kind == 'json' and k in d and not d[k]:
            d[k] = {'a': 'b'}
    if 'iat' in d:
        d['iat'] = now - 50
    if 'exp' in d:
        d['exp'] = now + 500
    if 'nbf' in d:
        d['nbf'] = now - 50
    if 'aud' in d and name == 'oidcmsg.oidc:IdToken':
        d['aud'] = [jose.RP]
    short = name.split(':')[1]
    if short in ('AuthorizationRequest', 'OpenIDRequest') and name.startswith('oidcmsg.oidc:'):
        d['scope'] = ['openid', 'profile']
        d['response_type'] = ['code']
        d.pop('prompt', None)
    for k in [k for k, (kind, _) in sch.items() if kind == 'idtoken']:
        if k in d or sch[k][1]:
            d[k] = jose.sign(idt(rng), 'ES256')
            kw['keyjar'] = jose.rp_jar()
    if 'id_token' in d and name == 'oidcmsg.oidc:AuthorizationResponse':
        c = idt(rng)
        if 'access_token' in d:
            c['at_hash'] = jose.left_hash(d['access_token'], 'ES256')
        if 'code' in d:
            c['c_hash'] = jose.left_hash(d['code'], 'ES256')
        d['id_token'] = jose.sign(c, 'ES256')
    elif 'id_token' in d and 'keyjar' not in kw and sch['id_token'][0] == 'str':
        d['id_token'] = jose.sign(idt(rng), 'ES256')
        kw['keyjar'] = jose.rp_jar()
    if short == 'EndSessionRequest' and 'id_token_hint' not in d:
        d.pop('post_logout_redirect_uri', None)
    if short == 'LogoutToken':
        d['events'] = {'http://schemas.openid.net/event/backchannel-logout': {}}
        d.setdefault('sub', 'x')
    if short == 'BackChannelLogoutRequest':
        from rv.checks import c01
        d['logout_token'] = jose.sign(c01.base_claims(rng, short), 'ES256')
        kw['keyjar'] = jose.rp_jar()
    if short in ('RegistrationRequest', 'RegistrationResponse'):
        if 'initiate_login_uri' in d:
            d['initiate_login_uri'] = 'https://rp.example.com/login'
        if d.get('token_endpoint_auth_signing_alg') == 'none':
            d['token_endpoint_auth_signing_alg'] = 'RS256'
        for x in ('request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response'):
            if x + '_enc' in d and x + '_alg' not in d:
                d.pop(x + '_enc')
        if ('registration_client_uri' in d) != ('registration_access_token' in d):
            d.pop('registration_client_uri', None)
            d.pop('registration_access_token', None)
    if short == 'ProviderConfigurationResponse':
        d['issuer'] = 'https://op.example.org'
        d['id_token_signing_alg_values_supported'] = ['RS256', 'ES256']
        d['token_endpoint'] = 'https://op.example.org/token'
        if 'scopes_supported' in d:
            d['scopes_supported'] = ['openid', 'email']
    if short == 'JWTSecuredAuthorizationRequest':
        d.pop('request', None)
        d.pop('request_uri', None)
        inner = {k: v for k, v in d.items()}
        d['request'] = jose.sign(dict(inner, iss=jose.ISS1), 'ES256')
        kw['keyjar'] = jose.rp_jar()
    if name == DEVICE:
        for k in ('client_id', 'grant_type') if 'device_code' in d else ('code', 'redirect_uri'):
            d.setdefault(k, gen.text(rng))
    if short == 'PushedAuthorizationRequest':
        d.pop('request', None)
    return d, kw
