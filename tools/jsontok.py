"""A strict JSON tokenizer: turns the bytes of a JSON stream into the tokens
the JsonProtocol specification speaks about."""
import re, struct
WS = b' \t\n\r'
NUM = re.compile(rb'-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?')
INT = re.compile(rb'-?(?:0|[1-9][0-9]*)\Z')
DELIM = b' \t\n\r\x00,]}:'
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'

def dbits(x): return list(struct.pack('>d', x))
SPECIAL = {b'NaN': dbits(float('nan')), b'Infinity': dbits(float('inf')), b'-Infinity': dbits(float('-inf'))}

def number(lit):
    """(64-bit integer or [], double or [])"""
    i = []
    if INT.match(lit):
        v = int(lit)
        if -(1 << 63) <= v < (1 << 63): i = list((v & ((1 << 64) - 1)).to_bytes(8, 'big'))
    d = float(lit)
    return i, ([] if d in (float('inf'), float('-inf')) else dbits(d))

def b64(raw):
    """(status, bytes)"""
    if any(c < 32 or c == 92 for c in raw): return 2, []
    if len(raw) % 4: return 0, []
    body = raw.rstrip(b'=')
    pad = len(raw) - len(body)
    if pad > 2 or any(c not in B64 for c in body) or (pad and len(body) % 4 != 4 - pad): return 0, []
    v = 0; n = 0; out = []
    for c in body:
        v = (v << 6 | B64.index(c)) & 0xffff; n += 6
        if n >= 8: n -= 8; out.append(v >> n & 255)
    return 1, out

def text(raw):
    """(legal, specified, characters as UTF-8) of a string body"""
    out = bytearray(); i = 0; n = len(raw); spec = 1
    E = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
    while i < n:
        c = raw[i]
        if c < 32: return 0, 0, b''
        if c != 92: out.append(c); i += 1; continue
        if i + 1 >= n: return 0, 0, b''
        e = raw[i + 1]
        if e in E: out.append(E[e]); i += 2
        elif e == 117:
            h = raw[i + 2:i + 6]
            if not re.match(rb'[0-9a-fA-F]{4}\Z', h): return 0, 0, b''
            u = int(h, 16); i += 6
            if 0xd800 <= u < 0xdc00 and re.match(rb'\\u[dD][c-fC-F][0-9a-fA-F]{2}', raw[i:i + 6]):
                u = 0x10000 + ((u - 0xd800) << 10) + int(raw[i + 2:i + 6], 16) - 0xdc00; i += 6
            if 0xd800 <= u < 0xe000: spec = 0; u = 0xfffd
            out += chr(u).encode()
        else: return 0, 0, b''
    try: bytes(out).decode('utf-8')
    except UnicodeDecodeError: spec = 0
    return 1, spec, bytes(out)

def tokens(wire):
    w = bytes(wire); n = len(w); p = 0; out = []
    def tok(k, s, e, **f):
        t = {'k': k, 's': s, 'e': e, 'v': [], 'va': 1, 'b': [], 'bs': 0, 'i': [], 'd': [], 'sp': 0, 'te': 0}
        t.update(f); out.append(t)
    while True:
        while p < n and w[p] in WS: p += 1
        if p >= n: tok('end', n, n); return out
        c = w[p:p + 1]
        if c in b'{}[],:': tok(c.decode(), p, p + 1); p += 1; continue
        if c == b'"':
            q = p + 1
            while q < n and w[q] != 34: q += 2 if w[q] == 92 else 1
            if q >= n: tok('err', p, n); p = n; continue
            raw = w[p + 1:q]; ok, spec, v = text(raw); bs, b = b64(raw)
            f = {}
            if NUM.fullmatch(raw): f['i'], f['d'] = number(raw)
            elif raw in SPECIAL: f['d'] = SPECIAL[raw]; f['sp'] = 1
            elif raw[:9] == b'+Infinity': f['sp'] = 2
            if ok: tok('str', p, q + 1, v=list(v), va=spec, b=b, bs=bs, **f)
            else: tok('bstr', p, q + 1, bs=2)
            p = q + 1; continue
        for lit in (b'true', b'false', b'null'):
            if w.startswith(lit, p): tok(lit.decode(), p, p + len(lit)); p += len(lit); break
        else:
            for lit in (b'NaN', b'Infinity', b'-Infinity', b'+Infinity'):
                if w.startswith(lit, p): tok('inf', p, p + len(lit)); p += len(lit); break
            else:
                m = NUM.match(w, p)
                if m and (m.end() >= n or w[m.end()] in DELIM):
                    i, d = number(m.group()); tok('num', p, m.end(), i=i, d=d, te=int(m.end() >= n)); p = m.end()
                else:
                    q = p + 1
                    while q < n and w[q] not in DELIM: q += 1
                    tok('err', p, q); p = q
