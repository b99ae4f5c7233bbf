"""Ed25519, to make inputs (the expected outcomes come from the specification)."""
import hashlib

P = 2**255 - 19
Q = 2**252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
I = pow(2, (P - 1) // 4, P)


def _x(y, sign):
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * I % P
    return P - x if (x & 1) != sign else x


GY = 4 * pow(5, P - 2, P) % P
G = (_x(GY, 0), GY, 1, _x(GY, 0) * GY % P)


def _add(a, b):
    A = (a[1] - a[0]) * (b[1] - b[0]) % P
    B = (a[1] + a[0]) * (b[1] + b[0]) % P
    C = 2 * a[3] * b[3] * D % P
    E = 2 * a[2] * b[2] % P
    e, f, g, h = B - A, E - C, E + C, B + A
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def _mul(s, p):
    q = (0, 1, 1, 0)
    while s:
        if s & 1:
            q = _add(q, p)
        p = _add(p, p)
        s >>= 1
    return q


def _enc(p):
    z = pow(p[2], P - 2, P)
    x, y = p[0] * z % P, p[1] * z % P
    return (y | (x & 1) << 255).to_bytes(32, "little")


def _expand(sk):
    h = hashlib.sha512(sk).digest()
    a = int.from_bytes(h[:32], "little")
    return (a & ((1 << 254) - 8)) | 1 << 254, h[32:]


def public(sk):
    return _enc(_mul(_expand(sk)[0], G))


def sign(sk, m):
    a, pre = _expand(sk)
    A = _enc(_mul(a, G))
    r = int.from_bytes(hashlib.sha512(pre + m).digest(), "little") % Q
    R = _enc(_mul(r, G))
    k = int.from_bytes(hashlib.sha512(R + A + m).digest(), "little") % Q
    return R + ((r + k * a) % Q).to_bytes(32, "little")
