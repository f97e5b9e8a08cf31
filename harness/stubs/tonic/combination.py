def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def C(n, r):
    if r < 0 or r > n:
        return 0
    return fact(n) // fact(r) // fact(n - r)


def C_Hash(xs, c):
    """rank of a 0/1 sequence with c ones, its first item being the most significant"""
    n, r, k = len(xs), 0, c
    for i, x in enumerate(xs):
        if x:
            r += C(n - i - 1, k)
            k -= 1
    return r


def C_RHash(h, n, c):
    xs, k = [], c
    for i in range(n):
        w = C(n - i - 1, k)
        if k and h >= w:
            xs.append(1)
            h -= w
            k -= 1
        else:
            xs.append(0)
    return xs
