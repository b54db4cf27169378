"""Shared generators."""


def hx(b):
    if isinstance(b, str):
        b = b.encode("utf-8")
    return "x" + b.hex()


def unhex(tok):
    assert tok[0] == "x", tok
    return bytes.fromhex(tok[1:])


BOUND = [1, 0x20, 0x2f, 0x30, 0x39, 0x41, 0x5a, 0x61, 0x7a, 0x7e, 0x7f, 0x80, 0xa0, 0xff, 0x100, 0x7fe, 0x7ff, 0x800,
         0x801, 0xfff, 0x1000, 0x2028, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001,
         0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0xdf, 0x149, 0x130, 0x131, 0x345, 0x301]


def scalar(rng):
    k = rng.random()
    if k < 0.30:
        return rng.randrange(0x20, 0x7f)
    if k < 0.35:
        return rng.randrange(1, 0x20)
    if k < 0.50:
        return rng.randrange(0x80, 0x800)
    if k < 0.65:
        c = rng.randrange(0x800, 0x10000 - 0x800)
        return c if c < 0xd800 else c + 0x800
    if k < 0.80:
        return rng.randrange(0x10000, 0x110000)
    return rng.choice(BOUND)


def length(rng, big=2000):
    k = rng.random()
    if k < 0.08:
        return 0
    if k < 0.60:
        return rng.randrange(1, 9)
    if k < 0.88:
        return rng.randrange(9, 40)
    if k < 0.97:
        return rng.randrange(40, 300)
    if k < 0.99:
        return rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025])
    return rng.randrange(300, big)


def huge(rng):
    """A text around or beyond the limits of 16-bit lengths."""
    n = rng.choice([32767, 32768, 65534, 65535, 65536, 65537, 70001, 131073])
    if rng.random() < 0.3:
        n //= rng.choice([2, 3, 4])
    t = text(rng, n=n // 8 + 1)
    return (t * 9)[:n]


def text(rng, big=2000, n=None):
    n = length(rng, big) if n is None else n
    k = rng.random()
    if k < 0.25:  # ascii only
        return "".join(chr(rng.randrange(0x20, 0x7f)) for _ in range(n))
    if k < 0.40:  # one encoded length
        lo, hi = rng.choice([(1, 0x80), (0x80, 0x800), (0xe000, 0x10000), (0x800, 0xd800), (0x10000, 0x110000)])
        return "".join(chr(rng.randrange(lo, hi)) for _ in range(n))
    if k < 0.55:  # tiny alphabet
        al = [chr(scalar(rng)) for _ in range(rng.randrange(1, 4))]
        return "".join(rng.choice(al) for _ in range(n))
    return "".join(chr(scalar(rng)) for _ in range(n))
