"""Reference formulas over residues mod P, written from the property statements (independent of the code's structure)."""
from .evalt import P, F, modp


def inv(a):
    return pow(a % P, P - 2, P)


def form(env, kind, name=None):
    return (env.uf('form', 'pairing') | 1) % P if kind == 'pairing' else (env.uf('form', kind, name) | 1) % P


def num(env, path):
    return modp(env.num(path))


def seq(env, path, n):
    return [num(env, path + (('i', i),)) for i in range(n)]


def bits_product(i, xs):
    r = 1
    for k, x in enumerate(xs):
        if i >> k & 1:
            r = r * x % P
    return r


def fold_commitment(start, firsts, seconds, xs):
    r = start
    for f, s, x in zip(firsts, seconds, xs):
        r = (r + f * x + s * inv(x)) % P
    return r


def fold_keys(keys, xs):
    """sum_i key_i * prod of x_k over the set bits k of i (challenges: last round first)"""
    return sum(k * bits_product(i, xs) for i, k in enumerate(keys)) % P


def kzg_value(xs, z, r):
    """prod_j (1 + x_j (z^2 r)^(2^j))"""
    v, p = 1, z * z * r % P
    for x in xs:
        v = v * (1 + x * p) % P
        p = p * p % P
    return v


def kzg_coefficients(xs, r):
    c = [1]
    p = r
    for x in xs:
        c = c + [a * x * p % P for a in c]
        p = p * p % P
    out = []
    for i, a in enumerate(c):
        out.append(a)
        if i + 1 < len(c):
            out.append(0)
    return out


def final_scalar(xs, b):
    v, p = 1, b
    for x in xs:
        v = v * (1 + inv(x) * p) % P
        p = p * p % P
    return v


def poly_eval(c, x):
    r = 0
    for a in reversed(c):
        r = (r * x + a) % P
    return r


def quotient(c, z):
    """(p(X) - p(z)) / (X - z)"""
    q = [0] * max(len(c) - 1, 0)
    acc = 0
    for i in range(len(c) - 1, 0, -1):
        acc = (c[i] + acc * z) % P
        q[i - 1] = acc
    return q


def dot(a, b):
    return sum(x * y for x, y in zip(a, b)) % P
