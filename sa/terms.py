"""Abstract values: hash-consed-by-equality tuples (value numbering) plus a
small simplifier.  No solver; every rewrite below is a local identity.

  ('c', v, w)            integer constant (also the null pointer)
  ('p', obj, off)        pointer into abstract object obj at offset term off
  ('s', key, w)          opaque symbol (result of one call site, a phi ...)
  ('lin', w, k, ((t,c)..))   k + sum c*t  (mod 2^w)
  ('o', op, w, args)     any other operation
  ('cmp', pred, a, b)    comparison, width 1
  ('blob', key, off, n)  n bytes at off of an opaque byte string
  ('cat', w, (b0,b1..))  little-endian concatenation of byte terms
  ('by', t, k)           byte k of term t
  ('fp', v, w)           float constant
  ('f', key)             function address
  ('u', w)               unknown, equal to nothing
"""
M64 = (1 << 64) - 1


def mask(w):
    return (1 << w) - 1


def C(v, w=64):
    return ("c", v & ((1 << w) - 1), w)


ZERO = C(0, 64)
TRUE = C(1, 1)
FALSE = C(0, 1)


def width(t):
    k = t[0]
    if k in ("c", "s", "fp"):
        return t[2]
    if k in ("p", "f"):
        return 64
    if k in ("lin", "cat", "u"):
        return t[1]
    if k == "o":
        return t[2]
    if k == "cmp":
        return 1
    if k == "blob":
        return 8 * t[3]
    if k == "by":
        return 8
    raise ValueError(t)


def isc(t):
    return t[0] == "c"


_top_memo = {}


def has_top(t):
    """True when t contains an identity-less part."""
    k = t[0]
    if k == "u":
        return True
    if k in ("c", "s", "blob", "fp", "f"):
        return False
    r = _top_memo.get(t)
    if r is None:
        if k == "p":
            r = has_top(t[2])
        elif k == "lin":
            r = any(has_top(x) for x, _ in t[3])
        elif k == "o":
            r = any(has_top(x) for x in t[3])
        elif k == "cmp":
            r = has_top(t[2]) or has_top(t[3])
        elif k == "cat":
            r = any(has_top(x) for x in t[2])
        elif k == "by":
            r = has_top(t[1])
        else:
            r = False
        if len(_top_memo) > 400000:
            _top_memo.clear()
        _top_memo[t] = r
    return r


_size_memo = {}


def tsize(t):
    k = t[0]
    if k in ("c", "s", "blob", "fp", "f", "u"):
        return 1
    r = _size_memo.get(t)
    if r is None:
        if k == "p":
            r = 1 + tsize(t[2])
        elif k == "lin":
            r = 1 + sum(tsize(x) for x, _ in t[3])
        elif k == "o":
            r = 1 + sum(tsize(x) for x in t[3])
        elif k == "cmp":
            r = 1 + tsize(t[2]) + tsize(t[3])
        elif k == "cat":
            r = 1 + sum(tsize(x) for x in t[2])
        elif k == "by":
            r = 1 + tsize(t[1])
        else:
            r = 1
        if len(_size_memo) > 400000:
            _size_memo.clear()
        _size_memo[t] = r
    return r


MAXSIZE = 60


def cut(t):
    if t[0] in ("o", "lin", "cat", "cmp") and tsize(t) > MAXSIZE:
        return ("u", width(t))
    return t


def _key(t):
    return repr(t)


def lin_parts(t, w):
    """-> (k, {term: coef})"""
    if t[0] == "c":
        return t[1], {}
    if t[0] == "lin":
        return t[2], dict(t[3])
    return 0, {t: 1}


def mklin(w, k, d):
    m = mask(w)
    k &= m
    it = [(t, c & m) for t, c in d.items() if c & m]
    if not it:
        return C(k, w)
    if any(t[0] == "u" for t, _ in it):
        return ("u", w)
    if len(it) == 1 and it[0][1] == 1 and k == 0:
        return it[0][0]
    it.sort(key=lambda x: _key(x[0]))
    return cut(("lin", w, k, tuple(it)))


def add(a, b, w):
    if a[0] == "p" and b[0] != "p":
        return ("p", a[1], add(a[2], b, 64))
    if b[0] == "p" and a[0] != "p":
        return ("p", b[1], add(b[2], a, 64))
    if a[0] == "u" or b[0] == "u":
        return ("u", w)
    k, d = lin_parts(a, w)
    k2, d2 = lin_parts(b, w)
    d = dict(d)
    for t, c in d2.items():
        d[t] = d.get(t, 0) + c
    return mklin(w, k + k2, d)


def neg(a, w):
    if a[0] == "u":
        return a
    k, d = lin_parts(a, w)
    return mklin(w, -k, {t: -c for t, c in d.items()})


def sub(a, b, w):
    if a[0] == "p" and b[0] == "p":
        if a[1] == b[1]:
            return sub(a[2], b[2], 64)
        return ("u", w)
    if a[0] == "p":
        return ("p", a[1], sub(a[2], b, 64))
    if b[0] == "p":
        return ("u", w)
    if a[0] == "u" or b[0] == "u":
        return ("u", w)
    return add(a, neg(b, w), w)


def mul(a, b, w):
    if a[0] == "p" or b[0] == "p" or a[0] == "u" or b[0] == "u":
        return ("u", w)
    if a[0] == "c":
        a, b = b, a
    if b[0] == "c":
        k, d = lin_parts(a, w)
        return mklin(w, k * b[1], {t: c * b[1] for t, c in d.items()})
    x, y = sorted((a, b), key=_key)
    return cut(("o", "mul", w, (x, y)))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---- bytes -----------------------------------------------------------------

def tobytes(t, n):
    """n little-endian byte terms of t (None if t is not byte-like)."""
    k = t[0]
    if k == "c":
        return [C((t[1] >> (8 * i)) & 255, 8) for i in range(n)]
    if k == "blob":
        return [("blob", t[1], t[2] + i, 1) for i in range(n)]
    if k == "cat":
        return list(t[2])
    if k == "u":
        return [("u", 8)] * n
    if n == 1 and width(t) == 8:
        return [t]
    if k == "o" and t[1] == "zext" and width(t[3][0]) % 8 == 0:
        m = width(t[3][0]) // 8
        return tobytes(t[3][0], m) + [C(0, 8)] * (n - m)
    return [("by", t, i) for i in range(n)]


def frombytes(bs):
    """inverse of tobytes with normalisation"""
    n = len(bs)
    w = 8 * n
    if any(b[0] == "u" for b in bs):
        return ("u", w)
    if n == 1:
        return bs[0]
    if all(b[0] == "c" for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= b[1] << (8 * i)
        return C(v, w)
    b0 = bs[0]
    if b0[0] == "blob" and all(b[0] == "blob" and b[1] == b0[1] and b[2] == b0[2] + i
                               for i, b in enumerate(bs)):
        return ("blob", b0[1], b0[2], n)
    if b0[0] == "by" and b0[2] == 0 and width(b0[1]) == w and \
            all(b[0] == "by" and b[1] == b0[1] and b[2] == i for i, b in enumerate(bs)):
        return b0[1]
    # zext(x): low bytes form a narrower value, the rest zero
    m = n
    while m > 1 and bs[m - 1] == ("c", 0, 8):
        m -= 1
    if m < n and m in (1, 2, 4):
        lo = frombytes(bs[:m])
        if lo[0] != "cat":
            return ("o", "zext", w, (lo,))
    return ("cat", w, tuple(bs))


def slice_bytes(t, start, n):
    """bytes [start,start+n) of value t as a term of n bytes"""
    tot = width(t) // 8
    if start == 0 and n == tot:
        return t
    if t[0] == "blob":
        return ("blob", t[1], t[2] + start, n)
    if t[0] == "c":
        return C(t[1] >> (8 * start), 8 * n)
    if tot > 64:
        return ("u", 8 * n)
    return frombytes(tobytes(t, tot)[start:start + n])


def _bytey(t):
    w = width(t)
    return w % 8 == 0 and w <= 64 and t[0] not in ("u", "p")


# ---- integer ops -------------------------------------------------------------

def zext(t, w):
    sw = width(t)
    if t[0] == "c":
        return C(t[1], w)
    if t[0] == "u":
        return ("u", w)
    if t[0] == "o" and t[1] == "zext":
        return zext(t[3][0], w)
    if t[0] == "cat":
        return frombytes(list(t[2]) + [C(0, 8)] * ((w - sw) // 8))
    return ("o", "zext", w, (t,))


def sext(t, w):
    if t[0] == "c":
        return C(sgn(t[1], t[2]), w)
    if t[0] == "u":
        return ("u", w)
    if t[0] == "o" and t[1] == "zext":
        return zext(t[3][0], w)     # top bit is zero
    if t[0] == "o" and t[1] == "sext":
        return sext(t[3][0], w)
    return ("o", "sext", w, (t,))


def trunc(t, w):
    sw = width(t)
    if sw == w:
        return t
    if t[0] == "c":
        return C(t[1], w)
    if t[0] == "u":
        return ("u", w)
    if t[0] == "o" and t[1] in ("zext", "sext"):
        x = t[3][0]
        xw = width(x)
        if xw == w:
            return x
        if xw > w:
            return trunc(x, w)
        return zext(x, w) if t[1] == "zext" else sext(x, w)
    if t[0] == "lin":
        r = C(t[2], w)
        for x, c in t[3]:
            r = add(r, mul(trunc(x, w), C(c, w), w), w)
        return r
    if w % 8 == 0 and sw % 8 == 0 and t[0] != "p":
        return frombytes(tobytes(t, sw // 8)[:w // 8])
    return ("o", "trunc", w, (t,))


def shl(a, b, w):
    if b[0] == "c":
        s = b[1]
        if s >= w:
            return ("u", w)
        if a[0] == "c":
            return C(a[1] << s, w)
        if s % 8 == 0 and s and _bytey(a) and a[0] not in ("lin",):
            bs = tobytes(a, w // 8)
            return frombytes([C(0, 8)] * (s // 8) + bs[:w // 8 - s // 8])
        return mul(a, C(1 << s, w), w)
    return cut(("o", "shl", w, (a, b)))


def lshr(a, b, w):
    if b[0] == "c":
        s = b[1]
        if s >= w:
            return ("u", w)
        if a[0] == "c":
            return C(a[1] >> s, w)
        if s % 8 == 0 and _bytey(a):
            bs = tobytes(a, w // 8)
            return frombytes(bs[s // 8:] + [C(0, 8)] * (s // 8))
    return cut(("o", "lshr", w, (a, b)))


def ashr(a, b, w):
    if a[0] == "c" and b[0] == "c" and b[1] < w:
        return C(sgn(a[1], w) >> b[1], w)
    return cut(("o", "ashr", w, (a, b)))


def and_(a, b, w):
    if a[0] == "c":
        a, b = b, a
    if b[0] == "c":
        if a[0] == "c":
            return C(a[1] & b[1], w)
        if b[1] == 0:
            return C(0, w)
        if b[1] == mask(w):
            return a
        if _bytey(a) and w >= 8 and all(((b[1] >> (8 * i)) & 255) in (0, 255)
                                        for i in range(w // 8)):
            bs = tobytes(a, w // 8)
            return frombytes([x if (b[1] >> (8 * i)) & 255 else C(0, 8)
                              for i, x in enumerate(bs)])
    if a == b:
        return a
    if a[0] == "u" or b[0] == "u":
        return ("u", w)
    x, y = sorted((a, b), key=_key)
    return cut(("o", "and", w, (x, y)))


def or_(a, b, w):
    if a[0] == "c" and b[0] == "c":
        return C(a[1] | b[1], w)
    for x, y in ((a, b), (b, a)):
        if x[0] == "c" and x[1] == 0:
            return y
        if x[0] == "c" and x[1] == mask(w):
            return x
    if a == b and not has_top(a):
        return a
    if a[0] == "u" or b[0] == "u":
        return ("u", w)
    if w % 8 == 0 and w > 8 and w <= 64 and (a[0] in ("cat", "o", "c") and b[0] in
                                             ("cat", "o", "c")):
        xs, ys = tobytes(a, w // 8), tobytes(b, w // 8)
        Z = ("c", 0, 8)
        if all(x == Z or y == Z for x, y in zip(xs, ys)):
            return frombytes([y if x == Z else x for x, y in zip(xs, ys)])
    x, y = sorted((a, b), key=_key)
    return cut(("o", "or", w, (x, y)))


def xor(a, b, w):
    if a[0] == "c" and b[0] == "c":
        return C(a[1] ^ b[1], w)
    if a[0] == "c":
        a, b = b, a
    if b[0] == "c" and b[1] == 0:
        return a
    if w == 1 and b == TRUE:
        return notb(a)
    if a == b and not has_top(a):
        return C(0, w)
    if a[0] == "u" or b[0] == "u":
        return ("u", w)
    x, y = sorted((a, b), key=_key)
    return cut(("o", "xor", w, (x, y)))


def udiv(a, b, w):
    if a[0] == "c" and b[0] == "c" and b[1]:
        return C(a[1] // b[1], w)
    if b[0] == "c" and b[1] == 1:
        return a
    return cut(("o", "udiv", w, (a, b))) if not (has_top(a) or has_top(b)) else ("u", w)


def urem(a, b, w):
    if a[0] == "c" and b[0] == "c" and b[1]:
        return C(a[1] % b[1], w)
    if b[0] == "c" and b[1] and b[1] & (b[1] - 1) == 0:
        return and_(a, C(b[1] - 1, w), w)
    return cut(("o", "urem", w, (a, b))) if not (has_top(a) or has_top(b)) else ("u", w)


def generic(op, a, b, w):
    if a[0] == "c" and b[0] == "c" and b[1]:
        x, y = sgn(a[1], w), sgn(b[1], w)
        if op == "sdiv":
            q = abs(x) // abs(y)
            return C(q if (x < 0) == (y < 0) else -q, w)
        if op == "srem":
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            return C(x - q * y, w)
    if has_top(a) or has_top(b):
        return ("u", w)
    return cut(("o", op, w, (a, b)))


BIN = {"add": add, "sub": sub, "mul": mul, "shl": shl, "lshr": lshr, "ashr": ashr,
       "and": and_, "or": or_, "xor": xor, "udiv": udiv, "urem": urem}

NEGP = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
        "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}


def notb(t):
    if t[0] == "c":
        return C(1 - t[1], 1)
    if t[0] == "cmp" and t[1] in NEGP:
        return ("cmp", NEGP[t[1]], t[2], t[3])
    if t[0] == "o" and t[1] == "not":
        return t[3][0]
    if t[0] == "u":
        return t
    return ("o", "not", 1, (t,))


def ccmp(pred, x, y, w):
    if pred == "eq":
        return x == y
    if pred == "ne":
        return x != y
    if pred[0] == "s":
        x, y = sgn(x, w), sgn(y, w)
    return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]


NONNULL = ("al", "g", "h", "arg", "str", "file", "ext")


def mkcmp(pred, a, b):
    """comparison term, folded as far as structure alone allows"""
    w = width(a)
    if a[0] == "c" and b[0] == "c":
        return C(1 if ccmp(pred, a[1], b[1], w) else 0, 1)
    if a[0] == "c" or (b[0] != "c" and _key(a) > _key(b)):
        a, b, pred = b, a, SWAP[pred]
    if a[0] == "u" or b[0] == "u":
        return ("u", 1)
    if a == b and not has_top(a):
        return C(1 if pred in ("eq", "ule", "uge", "sle", "sge") else 0, 1)
    if b[0] == "c":
        # pointers against null
        if a[0] == "f" and b[1] == 0:
            return C(1 if pred in ("ne", "ugt") else 0, 1)
        if a[0] == "p" and b[1] == 0:
            o = a[1]
            if o[0] == "d":
                if a[2] == ZERO:
                    return mkcmp(pred, o[1], b)
            else:
                return C(1 if pred in ("ne", "ugt") else 0, 1) if pred in (
                    "eq", "ne", "ugt", "ule") else ("u", 1)
            return C(1 if pred in ("ne", "ugt") else 0, 1)
        if a[0] == "p" and b[1] == mask(64) and a[1][0] in ("h", "al", "file") and \
                a[2] == ZERO and pred in ("eq", "ne"):
            return C(1 if pred == "ne" else 0, 1)
        if a[0] == "o" and a[1] == "zext":
            x = a[3][0]
            xw = width(x)
            if xw == 1 and pred in ("eq", "ne"):
                if b[1] > 1:
                    return C(0 if pred == "eq" else 1, 1)
                return x if (b[1] == 1) == (pred == "eq") else notb(x)
            if pred in ("eq", "ne"):
                if b[1] >> xw:
                    return C(0 if pred == "eq" else 1, 1)
                return mkcmp(pred, x, C(b[1], xw))
            sb = sgn(b[1], w) if pred[0] == "s" else b[1]
            if sb < 0:
                return C(1 if pred in ("sgt", "sge") else 0, 1)
            if sb >> xw:
                return C(1 if pred[1:] in ("lt", "le") else 0, 1)
            return mkcmp("u" + pred[1:], x, C(sb, xw))
        if a[0] == "o" and a[1] == "sext" and pred in ("eq", "ne"):
            x = a[3][0]
            xw = width(x)
            if C(sgn(b[1] & mask(xw), xw), w) != b:
                return C(0 if pred == "eq" else 1, 1)
            return mkcmp(pred, x, C(b[1], xw))
        if a[0] == "o" and a[1] == "sext" and pred[0] == "s":
            x = a[3][0]
            xw = width(x)
            sb = sgn(b[1], w)
            if -(1 << (xw - 1)) <= sb < (1 << (xw - 1)):
                return mkcmp(pred, x, C(sb, xw))
        if w == 1:
            if (pred, b[1]) in (("ne", 0), ("eq", 1)):
                return a
            if (pred, b[1]) in (("eq", 0), ("ne", 1)):
                return notb(a)
        # x + k == c
        if a[0] == "lin" and pred in ("eq", "ne") and a[2]:
            return mkcmp(pred, mklin(w, 0, dict(a[3])), C(b[1] - a[2], w))
        if a[0] == "lin" and pred in ("eq", "ne") and len(a[3]) == 1 and \
                a[3][0][1] == mask(w):
            return mkcmp(pred, a[3][0][0], C(-b[1], w))
        # canonical strictness: use ult/ugt/slt/sgt
        if pred == "ule" and b[1] < mask(w):
            return ("cmp", "ult", a, C(b[1] + 1, w))
        if pred == "ule":
            return TRUE
        if pred == "uge":
            return TRUE if b[1] == 0 else ("cmp", "ugt", a, C(b[1] - 1, w))
        if pred == "ult" and b[1] == 0:
            return FALSE
        if pred == "ugt" and b[1] == mask(w):
            return FALSE
        if pred == "ult" and b[1] == 1:
            return mkcmp("eq", a, C(0, w))
        if pred == "ugt" and b[1] == 0:
            return mkcmp("ne", a, C(0, w))
        if pred == "sle":
            if sgn(b[1], w) == (1 << (w - 1)) - 1:
                return TRUE
            return ("cmp", "slt", a, C(b[1] + 1, w))
        if pred == "sge":
            if sgn(b[1], w) == -(1 << (w - 1)):
                return TRUE
            return ("cmp", "sgt", a, C(b[1] - 1, w))
        return ("cmp", pred, a, b)
    if a[0] == "p" and b[0] == "p":
        if a[1] == b[1]:
            if pred in ("eq", "ne"):
                return mkcmp(pred, a[2], b[2])
            return ("cmp", pred, a[2], b[2])
        if pred in ("eq", "ne") and a[1][0] in NONNULL and b[1][0] in NONNULL:
            return C(0 if pred == "eq" else 1, 1)
    if a[0] == "lin" or b[0] == "lin":
        if pred in ("eq", "ne"):
            d = sub(a, b, w) if a[0] != "p" and b[0] != "p" else None
            if d is not None and d[0] == "c":
                return mkcmp(pred, d, C(0, w))
    if a[0] == "o" and b[0] == "o" and a[1] == "zext" and b[1] == "zext" and \
            width(a[3][0]) == width(b[3][0]):
        p = pred if pred in ("eq", "ne") else "u" + pred[1:]
        return mkcmp(p, a[3][0], b[3][0])
    return ("cmp", pred, a, b)


# ---- substitution / atoms -----------------------------------------------------

_atom_memo = {}


# Descriptions of digests are interned: ('digest', ('#', id)) stands for DESC[id].
DESC = []
_desc_id = {}


def mkdigest(desc):
    i = _desc_id.get(desc)
    if i is None:
        i = _desc_id[desc] = len(DESC)
        DESC.append(desc)
    return ("digest", ("#", i))


def desc(key):
    """what a ('digest', ...) key is a digest of"""
    return DESC[key[1][1]]


def atoms(t):
    """keys of symbols/blobs/objects occurring in t"""
    if not isinstance(t, tuple) or not t:
        return frozenset()
    r = _atom_memo.get(t)
    if r is not None:
        return r
    k = t[0]
    if k == "c" or k == "u" or k == "fp" or k == "f":
        r = frozenset()
    elif k == "s":
        r = frozenset((t[1],)) | _key_atoms(t[1])
    elif k == "blob":
        r = frozenset((t[1],)) | _key_atoms(t[1])
    elif k == "p":
        r = frozenset((t[1],)) | _key_atoms(t[1]) | atoms(t[2])
    elif k == "lin":
        r = frozenset().union(*[atoms(x) for x, _ in t[3]])
    elif k == "o":
        r = frozenset().union(*[atoms(x) for x in t[3]]) if t[3] else frozenset()
    elif k == "cmp":
        r = atoms(t[2]) | atoms(t[3])
    elif k == "cat":
        r = frozenset().union(*[atoms(x) for x in t[2]])
    elif k == "by":
        r = atoms(t[1])
    elif k == "#":
        r = atoms(("desc",) + DESC[t[1]])
    else:
        r = frozenset().union(*[atoms(x) for x in t if isinstance(x, tuple)])
    if len(_atom_memo) > 400000:
        _atom_memo.clear()
    _atom_memo[t] = r
    return r


def _key_atoms(key):
    """symbols nested inside object / blob keys, e.g. ('d', term)"""
    if isinstance(key, tuple) and key and key[0] == "d":
        return atoms(key[1])
    if isinstance(key, tuple) and len(key) > 1 and key[0] == "digest":
        return atoms(key[1])
    if isinstance(key, tuple) and len(key) > 1 and key[0] in ("init", "old", "strl"):
        return frozenset((key[1],)) | _key_atoms(key[1])
    return frozenset()


def secret_in(t, pred, depth=0):
    """does the value t contain secret bytes? pred(key) classifies opaque sources"""
    if not isinstance(t, tuple) or not t or depth > 40:
        return None
    k = t[0]
    if k in ("c", "u", "f", "fp"):
        return None
    if k == "p":
        return secret_in(t[2], pred, depth + 1)
    if k == "cmp":
        return secret_in(t[2], pred, depth + 1) or secret_in(t[3], pred, depth + 1)
    if k in ("s", "blob"):
        return pred(t[1])
    if k == "lin":
        for x, _ in t[3]:
            r = secret_in(x, pred, depth + 1)
            if r:
                return r
        return None
    if k == "o":
        for x in t[3]:
            r = secret_in(x, pred, depth + 1)
            if r:
                return r
        return None
    if k == "cat":
        for x in t[2]:
            r = secret_in(x, pred, depth + 1)
            if r:
                return r
        return None
    if k == "by":
        return secret_in(t[1], pred, depth + 1)
    return None
