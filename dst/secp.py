"""secp256k1 and ECDSA, independent of OpenSSL; and ways to forge signatures for malformed keys"""

P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


# Jacobian coordinates; None is infinity.  The constant of the curve doesn't
# occur in the formulas, as usual.

def dbl(p):
    if p is None or p[1] == 0:
        return None
    x, y, z = p
    a = x * x % P
    b = y * y % P
    c = b * b % P
    d = 2 * ((x + b) ** 2 - a - c) % P
    e = 3 * a
    f = e * e - 2 * d
    x3 = f % P
    return (x3, (e * (d - x3) - 8 * c) % P, 2 * y * z % P)


def add(p, q):
    if p is None:
        return q
    if q is None:
        return p
    x1, y1, z1 = p
    x2, y2, z2 = q
    z1z1, z2z2 = z1 * z1 % P, z2 * z2 % P
    u1, u2 = x1 * z2z2 % P, x2 * z1z1 % P
    s1, s2 = y1 * z2 * z2z2 % P, y2 * z1 * z1z1 % P
    if u1 == u2:
        return dbl(p) if s1 == s2 else None
    h = (u2 - u1) % P
    r = (s2 - s1) % P
    hh = h * h % P
    hhh = h * hh % P
    v = u1 * hh % P
    x3 = (r * r - hhh - 2 * v) % P
    return (x3, (r * (v - x3) - s1 * hhh) % P, z1 * z2 * h % P)


def affine(p):
    if p is None:
        return None
    i = pow(p[2], -1, P)
    return (p[0] * i * i % P, p[1] * i * i * i % P)


_TABLE = []


def mul_g(k):
    if not _TABLE:
        q = (G[0], G[1], 1)
        for _ in range(256):
            _TABLE.append(q)
            x, y = affine(dbl(q))
            q = (x, y, 1)
    r = None
    i = 0
    while k:
        if k & 1:
            r = add(r, _TABLE[i])
        k >>= 1
        i += 1
    return r


def mul(k, pt):
    r = None
    q = (pt[0], pt[1], 1)
    for b in bin(k)[2:] if k else '':
        r = dbl(r)
        if b == '1':
            r = add(r, q)
    return r


def on_curve(x, y):
    return (y * y - x * x * x - 7) % P == 0


def lift(x, odd):
    a = (x * x * x + 7) % P
    y = pow(a, (P + 1) // 4, P)
    if y * y % P != a:
        return None
    return (x, P - y if (y & 1) != odd else y)


def decode(b):
    """The point a public key stands for, or None"""
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        return lift(x, b[0] & 1) if x < P else None
    if len(b) == 65 and b[0] in (4, 6, 7):
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P or y >= P or not on_curve(x, y):
            return None
        if b[0] != 4 and (b[0] & 1) != (y & 1):
            return None
        return (x, y)
    return None


def pubkey(secret, compressed=True):
    x, y = affine(mul_g(secret))
    if compressed:
        return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def der(r, s):
    def i(v):
        b = v.to_bytes(v.bit_length() // 8 + 1, 'big')
        return b'\x02' + bytes([len(b)]) + b
    b = i(r) + i(s)
    return b'\x30' + bytes([len(b)]) + b


def undo(sig):
    """(r, s) of strict DER, or None"""
    def i(p):
        if p + 2 > len(sig) or sig[p] != 2:
            return None
        n = sig[p + 1]
        b = sig[p + 2:p + 2 + n]
        if n == 0 or n > 0x7f or len(b) != n or b[0] & 0x80 or (n > 1 and b[0] == 0 and not b[1] & 0x80):
            return None
        return int.from_bytes(b, 'big'), p + 2 + n
    if len(sig) < 8 or sig[0] != 0x30 or sig[1] > 0x7f or sig[1] != len(sig) - 2:
        return None
    a = i(2)
    b = a and i(a[1])
    if not b or b[1] != len(sig):
        return None
    return a[0], b[0]


def verify(point, digest, sig):
    """Of a strictly encoded signature"""
    if point is None:
        return False
    rs = undo(sig)
    if rs is None:
        return False
    r, s = rs
    if not (0 < r < N and 0 < s < N):
        return False
    w = pow(s, -1, N)
    z = int.from_bytes(digest, 'big')
    p = affine(add(mul_g(z * w % N), mul(r * w % N, point)))
    return p is not None and p[0] % N == r


def sign(secret, digest, k):
    x, _ = affine(mul_g(k))
    r = x % N
    s = pow(k, -1, N) * (int.from_bytes(digest, 'big') + r * secret) % N
    return der(r, s)


def forge(digest, k, multiple=1):
    """A signature for a `key` that has no effect: the point at infinity, or one of an order that divides `multiple`"""
    z = int.from_bytes(digest, 'big') % N
    if z == 0:
        return der(affine(mul_g(k))[0] % N, k)
    while True:
        r = affine(mul_g(k))[0] % N
        s = z * pow(k, -1, N) % N
        if s and r and r * pow(s, -1, N) % N % multiple == 0:
            return der(r, s)
        k += 1
