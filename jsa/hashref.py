"""Reference compression functions (RFC 1321, RFC 3174, RFC 7693) built as abstract values."""
import math
from . import terms as t
from .terms import C

MD5_IV = (0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476)
SHA1_IV = MD5_IV + (0xC3D2E1F0,)
B2B_IV = (0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1,
          0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179)
B2S_IV = (0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19)
SIGMA = ((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15),
         (14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3),
         (11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4),
         (7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8),
         (9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13),
         (2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9),
         (12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11),
         (13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10),
         (6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5),
         (10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0))


def words(bs, wbytes, little):
    w = wbytes * 8
    return [t.word_of(bs[i:i + wbytes], w, little) for i in range(0, len(bs), wbytes)]


def addw(w, *xs):
    return t.wrap(t.psum(xs), w)


def md5(h, bs):
    X = words(bs, 4, True)
    K = [int(abs(math.sin(i + 1)) * 2 ** 32) for i in range(64)]
    S = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4
    a, b, c, d = h
    for i in range(64):
        if i < 16:
            f = t.bor(t.band(b, c, 32), t.band(t.bnot(b, 32), d, 32), 32)
            g = i
        elif i < 32:
            f = t.bor(t.band(b, d, 32), t.band(c, t.bnot(d, 32), 32), 32)
            g = (5 * i + 1) % 16
        elif i < 48:
            f = t.bxor(t.bxor(b, c, 32), d, 32)
            g = (3 * i + 5) % 16
        else:
            f = t.bxor(c, t.bor(b, t.bnot(d, 32), 32), 32)
            g = 7 * i % 16
        s = addw(32, a, f, C(K[i]), X[g])
        a, d, c, b = d, c, b, addw(32, b, t.rotl(s, S[i], 32))
    return [addw(32, x, y) for x, y in zip(h, (a, b, c, d))]


def sha1(h, bs):
    W = words(bs, 4, False)
    for i in range(16, 80):
        x = t.bxor(t.bxor(W[i - 3], W[i - 8], 32), t.bxor(W[i - 14], W[i - 16], 32), 32)
        W.append(t.rotl(x, 1, 32))
    a, b, c, d, e = h
    for i in range(80):
        if i < 20:
            f, k = t.bor(t.band(b, c, 32), t.band(t.bnot(b, 32), d, 32), 32), 0x5A827999
        elif i < 40:
            f, k = t.bxor(t.bxor(b, c, 32), d, 32), 0x6ED9EBA1
        elif i < 60:
            f = t.bor(t.bor(t.band(b, c, 32), t.band(b, d, 32), 32), t.band(c, d, 32), 32)
            k = 0x8F1BBCDC
        else:
            f, k = t.bxor(t.bxor(b, c, 32), d, 32), 0xCA62C1D6
        tmp = addw(32, t.rotl(a, 5, 32), f, e, C(k), W[i])
        a, b, c, d, e = tmp, a, t.rotl(b, 30, 32), c, d
    return [addw(32, x, y) for x, y in zip(h, (a, b, c, d, e))]


def blake2(h, bs, counter, last, w):
    """counter: abstract value of 2w bits; last: python bool"""
    IV, rounds, R = (B2B_IV, 12, (32, 24, 16, 63)) if w == 64 else (B2S_IV, 10, (16, 12, 8, 7))
    m = words(bs, w // 8, True)
    v = list(h) + [C(x) for x in IV]
    lo = t.wrap(counter, w)
    hi = t.wrap(t.shr(counter, w, 2 * w), w)
    v[12] = t.bxor(v[12], lo, w)
    v[13] = t.bxor(v[13], hi, w)
    if last:
        v[14] = t.bnot(v[14], w)

    def rotr(x, r):
        return t.rotl(x, w - r, w)

    def g(a, b, c, d, x, y):
        v[a] = addw(w, v[a], v[b], x)
        v[d] = rotr(t.bxor(v[d], v[a], w), R[0])
        v[c] = addw(w, v[c], v[d])
        v[b] = rotr(t.bxor(v[b], v[c], w), R[1])
        v[a] = addw(w, v[a], v[b], y)
        v[d] = rotr(t.bxor(v[d], v[a], w), R[2])
        v[c] = addw(w, v[c], v[d])
        v[b] = rotr(t.bxor(v[b], v[c], w), R[3])
    for i in range(rounds):
        s = SIGMA[i % 10]
        g(0, 4, 8, 12, m[s[0]], m[s[1]])
        g(1, 5, 9, 13, m[s[2]], m[s[3]])
        g(2, 6, 10, 14, m[s[4]], m[s[5]])
        g(3, 7, 11, 15, m[s[6]], m[s[7]])
        g(0, 5, 10, 15, m[s[8]], m[s[9]])
        g(1, 6, 11, 12, m[s[10]], m[s[11]])
        g(2, 7, 8, 13, m[s[12]], m[s[13]])
        g(3, 4, 9, 14, m[s[14]], m[s[15]])
    return [t.bxor(t.bxor(h[i], v[i], w), v[i + 8], w) for i in range(8)]
