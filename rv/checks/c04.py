"""C04 algorithm policy: unsigned tokens only on explicit request; the expected algorithm is enforced everywhere."""
import json
import time

from rv import gen, jose
from rv.checks import c01
from oidcmsg import oidc

IDT = ('AccessTokenResponse', 'AuthorizationResponse', 'RefreshSessionRequest', 'RefreshSessionResponse',
       'CheckSessionRequest', 'EndSessionRequest')


def make(rng, c, talg):
    if talg == 'none':
        hdr = {}
        if rng.random() < .3:
            hdr['typ'] = 'JWT'
        if rng.random() < .3:
            hdr['kid'] = jose.kid_for('iss1', 'RS256')
        return jose.unsigned(c, 'none' if rng.random() < .85 else None, rng.choice((b'', b'', b'', b'x', b'\0' * 256)), **hdr)
    return jose.sign(c, talg)


def wrap(rng, tok):
    hdr = rng.choice(({}, {'cty': 'JWT'}, {'cty': 'jwt'}, {'typ': 'JWT'}))
    return jose.encrypt(tok, 'rp', rng.choice(jose.ENC_ALGS), rng.choice(jose.ENC_ENCS), **hdr)


def policy(talg, kw):
    if talg == 'none':
        s, a, w = kw.get('sigalg'), kw.get('allow_sign_alg_none', False), kw.get('allowed_sign_alg')
        if w not in (None, 'none') and (s == 'none' or a):
            return None
        if a and s not in (None, 'none'):
            return None
        return bool(s == 'none' or a)
    if 'allowed_sign_alg' in kw and kw['allowed_sign_alg'] != talg:
        return False
    if 'sigalg' in kw and kw['sigalg'] != talg:
        return False
    return True


def kwargs(rng, talg):
    kw = {}
    near = [talg] * 3 + jose.ALGS + ['none', 'none', 'None', 'rs256', 'RS', 'RS256 ']
    if rng.random() < .4:
        kw['sigalg'] = rng.choice(near)
    if rng.random() < .4:
        kw['allowed_sign_alg'] = rng.choice(near)
    if rng.random() < .4:
        kw['allow_sign_alg_none'] = rng.random() < .5
    return kw


def id_token(run, rng):
    which = rng.choice(IDT)
    talg = rng.choice(jose.ALGS + ['none'] * 9)
    now = int(time.time())
    c = {'iss': jose.ISS1, 'sub': gen.text(rng), 'aud': [jose.RP], 'exp': now + 600, 'iat': now - 5}
    tok = make(rng, c, talg)
    m, slot = c01.carrier(which, tok)
    kw = kwargs(rng, talg)
    if rng.random() < .5:
        kw.update(iss=jose.ISS1, client_id=jose.RP)
    want = policy(talg, kw)
    if want is False and (talg == 'none' or kw.get('allowed_sign_alg', talg) != talg) and rng.random() < .3:
        kw['verify'] = False        # not to verify the signature says nothing about this
    run.note(which=which, token_alg=talg, expectations=kw, token=tok)
    kw['keyjar'] = jose.rp_jar()
    if want is None:
        run.obs('unspecified')
        return
    if rng.random() < .3:       # history: the same message object was verified under a laxer policy before
        try:
            m.verify(keyjar=jose.rp_jar(), allow_sign_alg_none=True)
        except Exception:
            pass
    vs = '__verified_' + slot
    if want:
        run.expect(run.must('%s with a %s token allowed by %r' % (which, talg, kw), m.verify, **kw) is True, 'not accepted')
        run.expect(m[vs].to_dict() == {k: v for k, v in c.items()}, 'verified token says %r', m[vs].to_dict())
        run.obs('accepted', (which, talg == 'none', tuple(sorted(kw))))
    else:
        run.refuses('%s: token with alg %s although the caller said %r' % (
            which, talg, {k: v for k, v in kw.items() if k != 'keyjar'}), m.verify, **kw)
        run.expect(vs not in m, 'refused token presented as verified')
        run.obs('none_refused' if talg == 'none' else 'mismatch_refused', (which, talg, tuple(sorted(kw))))


def logout(run, rng):
    talg = rng.choice(jose.ALGS + ['none'] * 9)
    c = c01.base_claims(rng, 'BackChannelLogoutRequest')
    tok = make(rng, c, talg)
    enc = rng.random() < .3
    if enc:
        tok = wrap(rng, tok)
    m, slot = c01.carrier('BackChannelLogoutRequest', tok)
    kw = kwargs(rng, talg)
    run.note(token_alg=talg, expectations=kw, encrypted=enc, token=tok)
    want = talg != 'none' and policy(talg, kw)
    kw['keyjar'] = jose.rp_jar()
    if want:
        run.expect(run.must('logout token signed with %s' % talg, m.verify, **kw) is True, 'not accepted')
        run.obs('logout_accepted', (talg, enc))
    else:
        run.refuses('logout token with alg %s (%r)' % (talg, sorted(kw)), m.verify, **kw)
        run.expect('__verified_' + slot not in m, 'refused logout token presented as verified')
        run.obs('logout_refused', (talg, enc, tuple(sorted(kw))))


def hint(run, rng):
    talg = rng.choice(['none'] * 3 + jose.ALGS)
    now = int(time.time())
    c = {'iss': jose.ISS1, 'sub': gen.text(rng), 'aud': [jose.RP], 'exp': now + 600, 'iat': now - 5}
    tok = make(rng, c, talg)
    enc = rng.random() < .3
    if enc:
        tok = wrap(rng, tok)
    m, _ = c01.carrier('hint', tok)
    kw = {'keyjar': jose.rp_jar()}
    r = rng.random()
    if r < .3:
        kw['allow_sign_alg_none'] = rng.random() < .5
    elif r < .6 and talg == 'none':
        kw['sigalg'] = rng.choice(('none', 'RS256'))
    run.note(token_alg=talg, kw=sorted(kw), encrypted=enc, token=tok)
    if talg == 'none' and not (kw.get('sigalg') == 'none' or kw.get('allow_sign_alg_none')):
        run.refuses('unsigned id_token_hint in an authorization request', m.verify, **kw)
        run.expect('verified_id_token_hint' not in m, 'unsigned hint presented as verified')
        run.obs('hint_refused', (enc, tuple(sorted(kw))))
    else:
        run.expect(run.must('id_token_hint with alg %s' % talg, m.verify, **kw) is True, 'not accepted')
        run.expect(m['verified_id_token_hint'].to_dict() == c, 'verified hint says something else')
        run.obs('hint_accepted', (talg, enc))


def pinned(run, rng):
    """Any message read from a token, with the algorithm the caller demands; encrypted or not."""
    cls = rng.choice(c01.CLASSES)
    c = c01.claims(rng)
    kind = rng.choice(('signed', 'signed', 'signed', 'none', 'text'))
    enc = rng.random() < .5 or kind == 'text'
    talg = rng.choice(jose.ALGS) if kind == 'signed' else kind
    inner = jose.sign(c, talg) if kind == 'signed' else make(rng, c, 'none') if kind == 'none' else json.dumps(c)
    tok = jose.encrypt(inner, 'rp') if enc else inner
    sig = talg if kind == 'signed' and rng.random() < .4 else rng.choice(jose.ALGS)
    kw = {'sigalg': sig}
    if enc and rng.random() < .3:
        kw.update(encalg='RSA-OAEP', encenc='A128CBC-HS256')
    m = cls()
    run.note(cls=cls.__name__, token_alg=talg, encrypted=enc, demanded=sig, token=tok)
    if sig == talg:
        run.must('a token with the demanded algorithm', m.from_jwt, tok, jose.rp_jar(), **kw)
        run.expect(m.to_dict() == c, 'claims differ')
        run.obs('pinned_accepted', (talg, enc))
    else:
        run.raises('a token with alg %s, demanded %s, encrypted: %s' % (talg, sig, enc), m.from_jwt, tok, jose.rp_jar(), **kw)
        run.expect(len(m) == len(cls()), 'a refused token left content behind')
        run.obs('pinned_refused', (talg, sig, enc))


TOGETHER = ('id_token', 'logout', 'hint', 'pinned')


def scenarios(run):
    run.rules.append('token algorithm x caller policy x consuming message; distinct = (consumer, algorithm, policy keywords)')
    run.assumptions.append('combinations of a demanded signing algorithm with an explicit permission for "none" are not judged')
    run.require(accepted=200, none_refused=200, mismatch_refused=100, logout_accepted=30, logout_refused=100,
                hint_refused=30, hint_accepted=50, pinned_accepted=100, pinned_refused=200)
    return {'id_token': (id_token, 2500, 60000), 'logout': (logout, 600, 15000), 'hint': (hint, 500, 10000),
            'pinned': (pinned, 800, 20000)}
