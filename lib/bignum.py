"""Generators of integers and decimals shared by C14-C16."""
import sys
sys.set_int_max_str_digits(0)


def digits(rng, big=200):
    k = rng.random()
    n = rng.randrange(1, 4) if k < 0.3 else rng.randrange(1, 25) if k < 0.75 else rng.randrange(20, 60) if k < 0.95 else rng.randrange(60, max(big, 70))
    k = rng.random()
    if k < 0.4:
        return "".join(rng.choice("0123456789") for _ in range(n))
    if k < 0.55:
        return "9" * n
    if k < 0.65:
        return "1" + "0" * (n - 1)
    if k < 0.75:
        return "".join(rng.choice("09") for _ in range(n))
    if k < 0.8:
        return "0"
    if k < 0.9:
        return str(rng.choice([2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 10 ** 9, 10 ** 18]) + rng.randrange(-2, 3))
    return str(rng.choice([2, 3, 5, 10]) ** rng.randrange(1, 60) + rng.randrange(-1, 2))


def long_digits(rng, n):
    """About n digits: random, runs of one digit (long carries), sparse, or a repeated pattern."""
    k = rng.random()
    if k < 0.4:
        s = str(rng.randrange(10 ** (n - 1), 10 ** n))
    elif k < 0.6:
        s = "9" * n
    elif k < 0.7:
        s = "1" + "0" * (n - 1)
    elif k < 0.85:
        s = "".join(c * rng.randrange(1, max(2, n // 3)) for c in (rng.choice("0123456789") for _ in range(6)))[:n]
    else:
        s = (str(rng.randrange(1, 10 ** 9)) * (n // 5 + 1))[:n]
    return s if s[0] != "0" else "7" + s[1:]


def integer(rng, big=200):
    return int(rng.choice(["", "-"]) + digits(rng, big))


def related(rng, a, big=200):
    """A second operand, often close to a in some way."""
    k = rng.random()
    if k < 0.6:
        return integer(rng, big)
    if k < 0.7:
        return rng.choice([1, -1]) * a + rng.randrange(-2, 3)
    if k < 0.8:
        s = str(abs(a))
        return rng.choice([1, -1]) * int(s[:rng.randrange(1, len(s) + 1)])
    if k < 0.9:
        return rng.choice([1, -1]) * (a * rng.randrange(1, 12) + rng.randrange(-1, 2))
    return rng.choice([0, 1, -1, 2, -2, 9, 10, -10, 99, 100])


def spell(rng, n):
    s = str(abs(n))
    if rng.random() < 0.25:
        s = "0" * rng.randrange(1, 6) + s
    return ("-" if n < 0 or n == 0 and rng.random() < 0.2 else "+" if rng.random() < 0.15 else "") + s
