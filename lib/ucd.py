"""Reference case data from Python's Unicode database (simple mappings = one-character results)."""
import unicodedata

SPACE = set([9, 10, 11, 12, 13, 0x20, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000]) | set(range(0x2000, 0x200b))
# U+1F88.. etc. are titlecase letters whose simple lower mapping is one character but upper().len > 1


def counterparts(c):
    """Everything that may be called a case counterpart of c (upper, lower) by Unicode's simple mappings."""
    ch = chr(c)
    up = {c}
    lo = {c}
    if 0xd800 <= c < 0xe000:
        return up, lo
    u, l, t = ch.upper(), ch.lower(), ch.title()
    if len(u) == 1:
        up.add(ord(u))
    elif len(t) == 1:  # Greek letters with iota subscript: simple uppercase is the titlecase letter
        up.add(ord(t))
    if len(l) == 1:
        lo.add(ord(l))
    return up, lo


SPECIAL_UP = {0xdf: {0x1e9e, 0xdf}, 0x149: {0x2bc, 0x149}}
SPECIAL_LO = {0x130: {0x69, 0x130}}

MUST_UP = set(range(0x61, 0x7b)) | set(range(0x430, 0x450)) | set(range(0x3b1, 0x3c2)) | set(range(0x3c3, 0x3ca)) \
    | set(range(0x100, 0x130)) | set(range(0x132, 0x138)) | set(range(0x139, 0x149)) | set(range(0x14a, 0x178)) \
    | {0x131} | set(range(0x1f00, 0x1f08)) | set(range(0x1f10, 0x1f16)) | set(range(0x1f20, 0x1f28)) | set(range(0x1f30, 0x1f38)) \
    | set(range(0x1f40, 0x1f46)) | set(range(0x1f60, 0x1f68)) | set(range(0x1f70, 0x1f7e))
MUST_LO = set(range(0x41, 0x5b)) | set(range(0x410, 0x430)) | (set(range(0x391, 0x3aa)) - {0x3a2}) \
    | set(range(0x100, 0x130)) | set(range(0x132, 0x138)) | set(range(0x139, 0x149)) | set(range(0x14a, 0x178)) \
    | {0x1e9e, 0x130, 0x212a, 0x212b} \
    | set(range(0x1f08, 0x1f10)) | set(range(0x1f18, 0x1f1e)) | set(range(0x1f28, 0x1f30)) | set(range(0x1f38, 0x1f40)) \
    | set(range(0x1f48, 0x1f4e)) | set(range(0x1f68, 0x1f70)) | set(range(0x1fb8, 0x1fbc)) | set(range(0x1fc8, 0x1fcc)) \
    | set(range(0x1fd8, 0x1fda)) | set(range(0x1fe8, 0x1fed))


def allowed_upper(c):
    up, _ = counterparts(c)
    if c in SPECIAL_UP:
        return SPECIAL_UP[c]
    return up - {c} if c in MUST_UP and len(up) > 1 else up


def allowed_lower(c):
    _, lo = counterparts(c)
    if c == 0x130:
        return {0x69}
    return lo - {c} if c in MUST_LO and len(lo) > 1 else lo


def category(c):
    return unicodedata.category(chr(c))
