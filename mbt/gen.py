"""Stimuli: values, types, texts and messages in the terms of spec/Data.tla, and operation sequences.

Nothing here knows what the right answer is; that is what the specification is for."""
import random, struct

INT_BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64}
INTS = list(INT_BITS)

def nd(k, n=0, i=0, b=b"", c=()):
    return {"k": k, "n": n, "i": i, "b": list(b), "c": list(c)}
def leaf(k): return nd(k)
def text(k, b): return nd(k, b=b if isinstance(b, (bytes, bytearray, list)) else b.encode())
def wrap(k, *c): return nd(k, c=c)
def boolv(x): return nd("bool", n=int(x))
def intv(k, z): return nd(k, b=bytes([1 if z < 0 else 0]) + abs(z).to_bytes(8, "big"))
def f32b(x): return nd("f32", b=struct.pack(">f", x))
def f64b(x): return nd("f64", b=struct.pack(">d", x))
def f32bits(u): return nd("f32", b=u.to_bytes(4, "big"))
def f64bits(u): return nd("f64", b=u.to_bytes(8, "big"))
def field(name, v, n=0): return nd("field", n=n, b=name if isinstance(name, bytes) else name.encode(), c=[v])
def intof(v): m = int.from_bytes(bytes(v["b"][1:9]), "big"); return -m if v["b"][0] else m
def irange(k):
    w = INT_BITS[k]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k[0] == "i" else (0, (1 << w) - 1)

def boundary_ints():
    s = set()
    for e in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 52, 53, 54, 62, 63, 64):
        for d in (-2, -1, 0, 1, 2):
            s.add((1 << e) + d); s.add(-(1 << e) + d)
    for e in range(1, 21):
        for d in (-1, 0, 1):
            s.add(10 ** e + d); s.add(-10 ** e + d)
    for x in (9, 95, 96, 97, 99, 123, 12345, 1844674407370955161, 18446744073709551609, 922337203685477580): s.add(x); s.add(-x)
    return sorted(s)
BOUND = boundary_ints()

FLOATS64 = [0.0, -0.0, 1.0, -1.0, 1.5, 0.1, 0.2, 0.3, 1/3, 2.5, 10.0, 100.0, 123.456, 1e-5, 1e-6, 1.5e-6, 9.99e-7, 1e-7, 1.2e-7, 1e15, 1e16, 1e17, 1e20,
            1.2e20, 123456789012345680000.0, 1e21, 1.5e21, 1e22, 1e23, 1e100, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324,
            -5e-324, 4.35, 0.000001, 0.00001234, 9007199254740993.0, 9007199254740992.0, 4294967296.0, 18446744073709551616.0, 3.4028234663852886e38,
            1e-323, 2.2250738585072011e-308, 5e22, 9.5e-3, 99999999999999990000.0, 999999999999999900000.0, 123456.7, 12345678.9, 1e300, 1e-300]
INF, NAN = float("inf"), float("nan")
FLOATS32 = [0.0, -0.0, 1.0, 0.1, 0.3, 1e-6, 1e-7, 1.5e-7, 1e10, 1e20, 1.2e20, 1e21, 1.5e21, 3.4028234663852886e38, 1.1754943508222875e-38, 1e-45, 16777216.0,
            16777217.0, 33554432.0, 123.456, 8388608.5, 3.1415927, 1e-38, 2.5, 7e20]

CHARS = [0x22, 0x5c, 0x2f, 0x08, 0x09, 0x0a, 0x0c, 0x0d, 0x00, 0x01, 0x0b, 0x0e, 0x1b, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xe9, 0x7ff, 0x800, 0x2028, 0x2029,
         0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x2c, 0x5b, 0x5d, 0x7b, 0x7d, 0x3a, 0x61, 0x75, 0x6e, 0x41, 0x30]

NAMES = ["a", "b", "c", "x", "id", "name", "Ab", "q\"t", "k\\e", "z\n", "0", "1", "ключ", "value_long_enough_for_str_8__32b", "e\u0301", "", "t/s", "\u0001", "😀"]

class G:
    def __init__(self, seed, json=True):
        self.r = random.Random(seed)
        self.json = json
    # --- leaves -------------------------------------------------------------
    def p(self, x): return self.r.random() < x
    def pick(self, xs): return self.r.choice(xs)
    def decimal(self):
        """any number of digits and any exponent alike: every length and notation of the shortest decimal form"""
        n = self.pick([1, 2, 3, 5, 8, 9, 12, 15, 16, 17, 17, 17]); m = self.r.randrange(10 ** (n - 1), 10 ** n)
        return float("%de%d" % (m, self.r.randrange(-9, 25) - n))
    def digits(self, k):
        """an integer with runs of the same digit, next to a multiple of a power of ten, or in the middle of one"""
        lo, hi = irange(k); t = self.r.random()
        n = self.r.randrange(1, len(str(hi)) + 1)
        if t < .4: z = self.r.randrange(1, 1000) * 10 ** self.r.randrange(0, n + 1) + self.r.randrange(-12, 13)
        elif t < .7: z = int("".join(self.pick("0123456789") * self.r.randrange(1, 7) for _ in range(4))[:n])
        elif t < .85: z = hi - self.r.randrange(0, 300) * 10 ** self.r.randrange(0, n)
        else: z = self.r.randrange(10 ** (n - 1), 10 ** n)
        if k[0] == "i" and self.p(.5): z = -z
        return max(lo, min(hi, z))
    def anint(self, k):
        lo, hi = irange(k)
        t = self.r.random()
        if t < 0.2: return self.digits(k)
        if t < 0.5:
            c = [z for z in BOUND if lo <= z <= hi]; return self.pick(c)
        if t < 0.6: return self.pick([lo, hi, lo + 1, hi - 1])
        if t < 0.8: return max(lo, min(hi, self.r.randrange(-40, 300)))
        w = self.r.randrange(1, INT_BITS[k] + 1); z = self.r.getrandbits(w)
        return max(lo, min(hi, -z if k[0] == "i" and self.p(.5) else z))
    def afloat(self, k, special=True):
        t = self.r.random()
        if special and t < 0.08: return self.pick([INF, -INF, NAN])
        if t < 0.45: x = self.pick(FLOATS64 if k == "f64" else FLOATS32)
        elif t < 0.65: x = self.r.randrange(-10**6, 10**6) / self.pick([1, 2, 10, 100, 1000, 4096])
        elif t < 0.75: x = self.r.randrange(1, 1000) * 10.0 ** self.r.randrange(-12, 25)
        else:
            while True:
                if k == "f64": x = struct.unpack(">d", self.r.getrandbits(64).to_bytes(8, "big"))[0]
                else: x = struct.unpack(">f", self.r.getrandbits(32).to_bytes(4, "big"))[0]
                if x == x and abs(x) != INF: break
        if self.p(.3): x = -x
        if k == "f32":
            try: x = struct.unpack(">f", struct.pack(">f", x))[0]
            except OverflowError: x = 1.5
        return x
    def floatv(self, k, special=True):
        if special and self.p(.04):       # NaN with payload
            return f64bits(0x7ff0000000000001 | self.r.getrandbits(51) | (self.r.getrandbits(1) << 63)) if k == "f64" else f32bits(0x7f800001 | self.r.getrandbits(22))
        x = self.afloat(k, special)
        return f64b(x) if k == "f64" else f32b(x)
    def achar(self):
        t = self.r.random()
        if t < .5: return chr(self.pick(CHARS))
        if t < .8: return chr(self.r.randrange(0x20, 0x7f))
        while True:
            c = self.r.randrange(0, 0x110000 if self.p(.5) else 0x900)
            if not 0xd800 <= c < 0xe000: return chr(c)
    def astr(self, maxlen=12):
        t = self.r.random()
        if t < .1: return ""
        if t < .35: return self.pick(NAMES)
        if t < .5: return "".join(chr(self.r.randrange(0x20, 0x7f)) for _ in range(self.r.randrange(1, maxlen + 1)))
        if t < .56 and maxlen >= 12: return "s" * self.pick([15, 16, 31, 32, 33])
        return "".join(self.achar() for _ in range(self.r.randrange(1, maxlen + 1)))
    def abytes(self, maxlen=10):
        t = self.r.random()
        if t < .1: return b""
        if t < .2: return self.astr(maxlen).encode()
        if t < .3: return bytes(self.pick([0, 255, 34, 92, 10, 128, 61, 43]) for _ in range(self.r.randrange(1, maxlen + 1)))
        if t < .36: return bytes(self.r.randrange(256) for _ in range(self.pick([16, 31, 32, 33])))
        return bytes(self.r.randrange(256) for _ in range(self.r.randrange(1, maxlen + 1)))
    def cstr(self, b):
        """a value formatted in chunks"""
        s = b.decode(); cs = []
        while s:
            k = self.r.randrange(1, len(s) + 1); cs.append(text("str", s[:k])); s = s[k:]
        if self.p(.1): cs.append(text("str", ""))
        return nd("cstr", c=cs)
    def names(self, n):
        if self.p(.5): return self.r.sample(NAMES[:10], n) if n <= 10 else self.r.sample(NAMES, n)
        return self.r.sample(NAMES, n)
    # --- types --------------------------------------------------------------
    SCALARS = ["bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "char", "str", "string", "bytes", "bytebuf", "unit", "ustruct", "hr"]
    def keyshape(self, depth=1):
        t = self.r.random()
        if t < .35: return leaf(self.pick(["str", "string"]))
        if t < .7: return leaf(self.pick(INTS))
        if t < .78: return leaf("bool")
        if t < .86: return leaf("char")
        if t < .93 or depth == 0: return nd("enum", c=[nd("uvar", b=x.encode()) for x in self.names(self.r.randrange(1, 4))])
        return wrap("nstruct", self.keyshape(depth - 1))
    def structshape(self, depth, kind="struct", name=b""):
        n = self.pick([0, 1, 1, 2, 2, 3, 4])
        fs = []
        for x in self.names(n):
            sh = wrap("opt", self.shape(depth - 1)) if self.p(.3) else self.shape(depth - 1)
            d = 1 if self.p(.15) and sh["k"] in ("opt", "bool", "f64", "string", "seq", "map", "unit", "bytebuf", *INTS) else 0
            fs.append(field(x, sh, d))
        return nd(kind, n=1 if self.p(.15) else 0, b=name, c=fs)
    def shape(self, depth):
        if depth <= 0: return leaf(self.pick(self.SCALARS))
        t = self.r.random()
        if t < .25: return leaf(self.pick(self.SCALARS))
        if t < .35: return wrap("opt", self.shape(depth - 1))
        if t < .42: return wrap("nstruct", self.shape(depth - 1))
        if t < .55: return wrap("seq", self.shape(depth - 1))
        if t < .65: return nd(self.pick(["tuple", "tstruct"]), c=[self.shape(depth - 1) for _ in range(self.r.randrange(0, 4))])
        if t < .75: return wrap("map", self.keyshape() if self.json else (self.keyshape() if self.p(.6) else self.shape(depth - 1)), self.shape(depth - 1))
        if t < .9: return self.structshape(depth)
        return self.enumshape(depth)
    def enumshape(self, depth):
        vs = []
        for x in self.names(self.r.randrange(1, 5)):
            k = self.pick(["uvar", "nvar", "tvar", "svar"])
            if k == "uvar": vs.append(nd("uvar", b=x.encode()))
            elif k == "nvar": vs.append(nd("nvar", b=x.encode(), c=[self.shape(depth - 1)]))
            elif k == "tvar": vs.append(nd("tvar", b=x.encode(), c=[self.shape(depth - 1) for _ in range(self.r.randrange(0, 4))]))
            else: vs.append(self.structshape(depth, "svar", x.encode()))
        return nd("enum", c=vs)
    # --- values of a type ---------------------------------------------------
    def fields(self, sh):
        c = []; n = 0
        for f in sh["c"]:
            if f["c"][0]["k"] == "opt" and self.p(.3): c.append(nd("skip", b=f["b"]))
            else: c.append(nd("field", b=f["b"], c=[self.value(f["c"][0])])); n += 1
        return n, c
    def value(self, sh, ser=True):
        k = sh["k"]; c = sh["c"]
        if k == "bool": return boolv(self.p(.5))
        if k == "hr": return leaf("hr")
        if k in INT_BITS: return intv(k, self.anint(k))
        if k in ("f32", "f64"): return self.floatv(k)
        if k == "char": return text("char", self.achar())
        if k in ("str", "string"):
            s = self.astr().encode()
            return self.cstr(s) if ser and self.p(.1) else text("str", s)
        if k in ("bytes", "bytebuf"): return text("bytes", self.abytes())
        if k in ("unit", "ustruct"): return leaf(k)
        if k == "opt": return leaf("none") if self.p(.3) else wrap("some", self.value(c[0], ser))
        if k == "nstruct": return wrap("nstruct", self.value(c[0], ser))
        if k == "seq":
            m = self.pick([0, 1, 2, 2, 3, 5]) if not self.p(.03) else self.pick([15, 16, 17])
            xs = [self.value(c[0], ser) for _ in range(m)]; return nd("seq", n=m, c=xs)
        if k in ("tuple", "tstruct"): return nd(k, n=len(c), c=[self.value(x, ser) for x in c])
        if k == "map":
            m = self.pick([0, 1, 1, 2, 3]) if not self.p(.03) else self.pick([15, 16])
            xs = []
            for _ in range(m): xs += [self.value(c[0], ser), self.value(c[1], ser)]
            return nd("map", n=m, c=xs)
        if k == "struct":
            n, fs = self.fields(sh); return nd("struct", n=n, c=fs)
        if k == "enum":
            j = self.r.randrange(len(c)); v = c[j]
            if v["k"] == "uvar": return nd("uvar", i=j, b=v["b"])
            if v["k"] == "nvar": return nd("nvar", i=j, b=v["b"], c=[self.value(v["c"][0], ser)])
            if v["k"] == "tvar": return nd("tvar", n=len(v["c"]), i=j, b=v["b"], c=[self.value(x, ser) for x in v["c"]])
            n, fs = self.fields(v); return nd("svar", n=n, i=j, b=v["b"], c=fs)
        if k == "ign": return self.anyvalue(2)
        if k == "any": return self.anyvalue(2)
        raise ValueError(k)
    # --- free values (serialization only) -----------------------------------
    def keyvalue(self, good=True):
        if good: return self.value(self.keyshape())
        k = self.pick(["f64", "f32", "bytes", "unit", "ustruct", "none", "some", "seq", "tuple", "tstruct", "map", "struct", "nvar", "tvar", "svar", "nstruct", "some"])
        if k == "nstruct": return wrap("nstruct", self.keyvalue(False))
        return self.bad(k)
    def bad(self, k):
        if k in ("f64", "f32"): return self.floatv(k)
        if k == "bytes": return text("bytes", self.abytes())
        if k in ("unit", "ustruct", "none"): return leaf(k)
        if k == "some": return wrap("some", self.keyvalue(True))
        if k in ("seq", "tuple", "tstruct"): return nd(k, n=1, c=[text("str", "k")])
        if k == "map": return nd(k, n=0)
        if k == "struct": return nd(k, n=1, c=[field("a", intv("u8", 1))])
        if k == "nvar": return nd(k, b=b"V", c=[intv("u8", 1)])
        if k == "tvar": return nd(k, n=1, b=b"V", c=[intv("u8", 1)])
        if k == "svar": return nd(k, n=1, b=b"V", c=[field("a", intv("u8", 1))])
        raise ValueError(k)
    def anyvalue(self, depth, unknown=False):
        """any serializable value"""
        sh = self.shape(depth)
        v = self.value(sh)
        if unknown: v = self.unknown(v)
        return v
    def unknown(self, v):
        """sequences and maps of unknown length"""
        w = dict(v)
        if v["k"] in ("seq", "map") and self.p(.5): w["n"] = -1
        w["c"] = [self.unknown(x) for x in v["c"]]
        return w

# ---------------------------------------------------------------------------------------------------------------------------
# JSON texts
class JText(G):
    def ws(self):
        t = self.r.random()
        if t < .75: return b""
        return bytes(self.pick(b" \t\n\r") for _ in range(self.r.randrange(1, 3)))
    def esc(self, b, heavy=.15):
        """a string literal for UTF-8 bytes b; each character in one of its spellings"""
        out = bytearray(b'"')
        try: s = b.decode()
        except UnicodeDecodeError:
            for x in b:
                if x < 32: out += b"\\u%04x" % x
                elif x in b'"\\': out += bytes([92, x])
                else: out.append(x)
            return bytes(out + b'"')
        for ch in s:
            o = ord(ch)
            short = {34: b'\\"', 92: b"\\\\", 8: b"\\b", 9: b"\\t", 10: b"\\n", 12: b"\\f", 13: b"\\r", 47: b"\\/"}
            must = o < 32 or o in (34, 92)
            if not must and not self.p(heavy): out += ch.encode(); continue
            if o in short and self.p(.6): out += short[o]; continue
            u = [o] if o < 0x10000 else [0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff)]
            for x in u:
                h = "%04x" % x
                h = "".join(c.upper() if self.p(.5) else c for c in h)
                out += b"\\u" + h.encode()
        return bytes(out + b'"')
    def inttext(self, z): return str(z).encode()
    def floattext(self, v):
        b = bytes(v["b"])
        x = struct.unpack(">f" if v["k"] == "f32" else ">d", b)[0]
        if x != x or abs(x) == INF: return b"null"
        t = self.r.random()
        if t < .4: return repr(x).encode()
        if t < .55 and x == int(x) and abs(x) < 1e25: return str(int(x)).encode()
        if t < .7: return ("%.17e" % x).encode()
        if t < .8: return ("%.3f" % x).encode() if abs(x) < 1e12 else repr(x).encode()
        if t < .9: return repr(x).upper().encode()
        return ("%se%s%d" % (repr(self.r.randrange(-999, 999) / 10), self.pick(["", "+", "-"]), self.r.randrange(0, 30))).encode()
    def midpoint(self, k):
        """decimal texts of a number halfway between two floats, and of its closest neighbours"""
        bits, lo, hi = (24, -60, 60) if k == "f32" else (53, -70, 70)
        m = (1 << (bits - 1)) | self.r.getrandbits(bits - 1); e = self.r.randrange(lo, hi)
        if self.p(.1): m = (1 << bits) - 1
        n, e = 2 * m + 1, e - bits
        if e >= 0: d, x = n << e, 0                 # d * 10^x
        else: d, x = n * 5 ** -e, e
        def show(d, x):
            s = str(d)
            if self.p(.4) or x > 0: return (s[0] + "." + s[1:] if len(s) > 1 and self.p(.7) else None) and (s[0] + "." + s[1:] + "e" + str(x + len(s) - 1)) or s + "e" + str(x)
            if x == 0: return s
            return s[:x] + "." + s[x:] if len(s) > -x else "0." + "0" * (-x - len(s)) + s
        sg = "-" if self.p(.3) else ""
        out = [(d, x), (d * 10 ** 3 + 1, x - 3), (d * 10 ** 3 - 1, x - 3)]
        if self.p(.5): out += [(d * 10 ** 20 + 1, x - 20), (d * 10 ** 20 - 1, x - 20)]
        return [(sg + show(*o)).encode() for o in out]
    def dectext(self):
        """a number of 1 to 20 digits with the point at any place, mostly without an exponent: where a shortcut would round twice"""
        d = self.r.choice([1, 2, 5, 7, 8, 9, 10, 14, 15, 16, 16, 16, 17, 17, 18, 19, 20]); s = str(self.r.randrange(10 ** (d - 1), 10 ** d)); at = self.r.randrange(0, d + 1)
        if self.p(.1): s = str((1 << 53) + self.r.randrange(-3, 1 << 12)); at = self.r.randrange(0, len(s) + 1)
        t = s[:at] + "." + s[at:] if 0 < at < len(s) else "0." + "0" * self.pick([0, 0, 1, 4, 21]) + s if at == 0 else s
        if self.p(.3): t += self.pick("eE") + self.pick(["", "+", "-"]) + str(self.r.choice([0, 1, 5, 9, 10, 11, 15, 21, 22, 23, 24, 30, 37, 38]))
        return (("-" if self.p(.2) else "") + t).encode()
    def bytetext(self, b, fl):
        if self.p(.25):
            w = self.ws
            return b"[" + w() + b",".join(w() + str(x).encode() + w() for x in b) + w() + b"]"
        if fl == 4: return b'"' + b"".join(bytes([97 + (x >> 4), 97 + (x & 15)]) for x in b) + b'"'
        if fl == 0: return self.esc(b, .2)
        if fl == 1:
            h = b.hex(); return b'"' + "".join(c.upper() if self.p(.4) else c for c in h).encode() + b'"'
        import base64
        e = base64.b64encode(b)
        return b'"' + (e if self.p(.5) else e.rstrip(b"=")) + b'"'
    def key(self, v):
        k = v["k"]
        if k in INT_BITS: return b'"' + self.inttext(intof(v)) + b'"'
        if k in ("bool",): return b'"true"' if v["n"] else b'"false"'
        if k == "hr": return b'"true"'
        if k == "nstruct": return self.key(v["c"][0])
        return self.esc(bytes(v["b"]))
    def junk(self, depth=2):
        """any JSON text"""
        t = self.r.random(); w = self.ws
        if depth == 0 or t < .5:
            return self.pick([b"null", b"true", b"false", b"0", b"-1", b"12.5e-3", b'""', b'"a\\"]b"', b'"\\\\"', b'"\\\\\\""', b'"{[,:]}"', b"[]", b"{}", b"[ ]", b"{ }",
                              b'"\\u0041\\n"', b"18446744073709551615", b"-9223372036854775808", self.esc(self.astr().encode())])
        if t < .75: return b"[" + w() + b",".join(w() + self.junk(depth - 1) + w() for _ in range(self.r.randrange(0, 4))) + b"]"
        return b"{" + w() + b",".join(w() + self.esc(self.astr(5).encode()) + w() + b":" + w() + self.junk(depth - 1) + w() for _ in range(self.r.randrange(0, 3))) + b"}"
    def fieldsj(self, sh, fs, fl):
        w = self.ws
        items = [(bytes(f["b"]), f["c"][0], s["c"][0]) for f, s in zip(fs, sh["c"]) if f["k"] != "skip"]
        if self.p(.2):   # as an array, all fields
            vals = [leaf("none") if f["k"] == "skip" else f["c"][0] for f in fs]
            return b"[" + w() + b",".join(w() + self.jtext(s["c"][0], v, fl) + w() for v, s in zip(vals, sh["c"])) + b"]"
        if self.p(.4): self.r.shuffle(items)
        ents = [self.esc(n) + w() + b":" + w() + self.jtext(s, v, fl) for n, v, s in items]
        if sh["n"] != 1 and self.p(.25): ents.insert(self.r.randrange(len(ents) + 1), self.esc(self.pick([b"unknown", b"zz", b"A", b"a2"])) + w() + b":" + w() + self.junk())
        return b"{" + w() + b",".join(w() + e + w() for e in ents) + b"}"
    def jtext(self, sh, v, fl):
        """a text for the value v of type sh"""
        if sh["k"] in ("any", "ign"): return self.junk()
        k = v["k"]; w = self.ws; c = v["c"]
        if k == "bool": return b"true" if v["n"] else b"false"
        if k == "hr": return self.pick([b"true", b"false"])
        if k in INT_BITS: return self.inttext(intof(v))
        if k in ("f32", "f64"): return self.floattext(v)
        if k in ("char", "str"): return self.esc(bytes(v["b"]))
        if k == "cstr": return self.esc(b"".join(bytes(x["b"]) for x in c))
        if k == "bytes": return self.bytetext(bytes(v["b"]), fl)
        if k in ("none", "unit", "ustruct"): return b"null"
        if k in ("some", "nstruct"): return self.jtext(sh["c"][0], c[0], fl)
        if k == "uvar": return self.esc(bytes(v["b"]))
        if k == "seq": return b"[" + w() + b",".join(w() + self.jtext(sh["c"][0], x, fl) + w() for x in c) + b"]"
        if k in ("tuple", "tstruct"): return b"[" + w() + b",".join(w() + self.jtext(s, x, fl) + w() for s, x in zip(sh["c"], c)) + b"]"
        if k == "map":
            return b"{" + w() + b",".join(w() + self.key(c[j]) + w() + b":" + w() + self.jtext(sh["c"][1], c[j + 1], fl) + w() for j in range(0, len(c), 2)) + b"}"
        if k == "struct": return self.fieldsj(sh, c, fl)
        if k in ("nvar", "tvar", "svar"):
            vs = sh["c"][v["i"]]
            if k == "nvar": inner = self.jtext(vs["c"][0], c[0], fl)
            elif k == "tvar": inner = b"[" + w() + b",".join(w() + self.jtext(s, x, fl) + w() for s, x in zip(vs["c"], c)) + b"]"
            else: inner = self.fieldsj(vs, c, fl)
            return b"{" + w() + self.esc(bytes(v["b"])) + w() + b":" + w() + inner + w() + b"}"
        raise ValueError(k)
    def doc(self, sh, fl, maxlen=300):
        for _ in range(50):
            t = self.ws() + self.jtext(sh, self.value(sh, False), fl) + self.ws()
            if len(t) <= maxlen: return t
        return b"null"
    TOKENS = [b",", b":", b"[", b"]", b"{", b"}", b'"', b"\\", b"null", b"true", b"false", b"nul", b"tru", b"0", b"-", b"-1", b"1", b"1.", b".5", b"e", b"E+", b"01", b"00", b"+1",
              b" ", b"\n", b"\x0b", b"\x00", b"\x1f", b"\x7f", b"\xc3", b"\xa9", b"\xed\xa0\x80", b"\xff", b"\\u", b"\\ud800", b"\\udc00", b"\\uD83D\\uDE00", b"\\u00e9", b"\\x", b"\\u12", b"\\\\",
              b"256", b"65536", b"4294967296", b"18446744073709551616", b"-129", b"99999999999999999999", b"1e999", b"a", b"NaN", b"Infinity", b"//", b"'", b"=", b"==", b"[]", b"{}", b'""', b"null,", b",null", b'"a":1']
    def mutate(self, t):
        t = bytearray(t)
        for _ in range(self.pick([1, 1, 1, 2, 3])):
            x = self.r.random(); n = len(t)
            if x < .2 and n: i = self.r.randrange(n); del t[i]
            elif x < .45: i = self.r.randrange(n + 1); t[i:i] = self.pick(self.TOKENS)
            elif x < .6 and n: i = self.r.randrange(n); t[i:i + 1] = self.pick(self.TOKENS)
            elif x < .7 and n: i = self.r.randrange(n); t[i] = self.r.randrange(256)
            elif x < .8 and n: i = self.r.randrange(n); j = min(n, i + self.r.randrange(1, 6)); del t[i:j]
            elif x < .88 and n: i = self.r.randrange(n); j = min(n, i + self.r.randrange(1, 6)); t[j:j] = t[i:j]
            elif x < .94 and n: t = t[:self.r.randrange(n + 1)]
            else: t += self.pick([b" ", b",", b"]", b"}", b"0", b" 1", b"null", b"\x00", b'"', b"\n\n", b"x"])
        return bytes(t)

# ---------------------------------------------------------------------------------------------------------------------------
# MessagePack messages
def be(n, w): return n.to_bytes(w, "big")
class MText(G):
    def __init__(self, seed): super().__init__(seed, json=False)
    def strh(self, n):
        o = []
        if n <= 31: o.append(bytes([0xa0 + n]))
        if n <= 255: o.append(b"\xd9" + be(n, 1))
        if n <= 65535: o.append(b"\xda" + be(n, 2))
        o.append(b"\xdb" + be(n, 4))
        return o[0] if self.p(.6) else self.pick(o)
    def binh(self, n):
        o = []
        if n <= 255: o.append(b"\xc4" + be(n, 1))
        if n <= 65535: o.append(b"\xc5" + be(n, 2))
        o.append(b"\xc6" + be(n, 4))
        return o[0] if self.p(.6) else self.pick(o)
    def arrh(self, n):
        o = []
        if n <= 15: o.append(bytes([0x90 + n]))
        if n <= 65535: o.append(b"\xdc" + be(n, 2))
        o.append(b"\xdd" + be(n, 4))
        return o[0] if self.p(.6) else self.pick(o)
    def maph(self, n):
        o = []
        if n <= 15: o.append(bytes([0x80 + n]))
        if n <= 65535: o.append(b"\xde" + be(n, 2))
        o.append(b"\xdf" + be(n, 4))
        return o[0] if self.p(.6) else self.pick(o)
    def int(self, z):
        o = []
        if 0 <= z <= 127: o.append(bytes([z]))
        if -32 <= z < 0: o.append(bytes([256 + z]))
        for w, cu, ci in ((1, 0xcc, 0xd0), (2, 0xcd, 0xd1), (4, 0xce, 0xd2), (8, 0xcf, 0xd3)):
            if 0 <= z < 1 << (8 * w): o.append(bytes([cu]) + be(z, w))
            if -(1 << (8 * w - 1)) <= z < 1 << (8 * w - 1): o.append(bytes([ci]) + (z % (1 << (8 * w))).to_bytes(w, "big"))
        return o[0] if self.p(.3) else self.pick(o)
    def str(self, b): return self.strh(len(b)) + b
    def ident(self, idx, name):
        if self.p(.5): return self.str(name)
        o = [bytes([idx]) if idx < 128 else None, b"\xcc" + be(idx, 1), b"\xcd" + be(idx, 2), b"\xce" + be(idx, 4)]
        return self.pick([x for x in o if x])
    def junk(self, depth=2):
        t = self.r.random()
        if depth == 0 or t < .6:
            x = self.pick(["nil", "bool", "int", "f32", "f64", "str", "bin", "ext", "fixext", "empty"])
            if x == "nil": return b"\xc0"
            if x == "bool": return self.pick([b"\xc2", b"\xc3"])
            if x == "int": return self.int(self.anint(self.pick(INTS)))
            if x == "f32": return b"\xca" + be(self.r.getrandbits(32), 4)
            if x == "f64": return b"\xcb" + be(self.r.getrandbits(64), 8)
            if x == "str": return self.str(self.astr().encode())
            if x == "bin": b = self.abytes(); return self.binh(len(b)) + b
            if x == "empty": return self.pick([b"\x80", b"\x90", b"\xdc\x00\x00", b"\xdf\x00\x00\x00\x00"])
            if x == "fixext": n = self.pick([1, 2, 4, 8, 16]); return bytes([{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[n]]) + bytes(self.r.randrange(256) for _ in range(n + 1))
            b = self.abytes(); h = self.pick([b"\xc7" + be(len(b), 1), b"\xc8" + be(len(b), 2), b"\xc9" + be(len(b), 4)])
            return h + bytes([self.r.randrange(256)]) + b
        n = self.r.randrange(0, 4)
        if t < .8: return self.arrh(n) + b"".join(self.junk(depth - 1) for _ in range(n))
        return self.maph(n) + b"".join(self.junk(depth - 1) for _ in range(2 * n))
    def mfields(self, sh, fs):
        if self.p(.4):
            vals = [leaf("none") if f["k"] == "skip" else f["c"][0] for f in fs]
            return self.arrh(len(vals)) + b"".join(self.mtext(s["c"][0], v) for v, s in zip(vals, sh["c"]))
        items = [self.ident(j, bytes(f["b"])) + self.mtext(s["c"][0], f["c"][0]) for j, (f, s) in enumerate(zip(fs, sh["c"])) if f["k"] != "skip"]
        if self.p(.4): self.r.shuffle(items)
        if sh["n"] != 1 and self.p(.25):
            items.insert(self.r.randrange(len(items) + 1), self.pick([self.str(b"unknown"), self.str(b"zz"), b"\x64", b"\xcc\xff", b"\xcd\x01\x00"]) + self.junk())
        return self.maph(len(items)) + b"".join(items)
    def mtext(self, sh, v):
        if sh["k"] in ("any", "ign"): return self.junk()
        k = v["k"]; c = v["c"]
        if k == "bool": return b"\xc3" if v["n"] else b"\xc2"
        if k == "hr": return self.pick([b"\xc2", b"\xc3"])
        if k in INT_BITS: return self.int(intof(v))
        if k in ("f32", "f64"):
            b = bytes(v["b"]); t = self.r.random()
            if t < .55: return (b"\xca" if k == "f32" else b"\xcb") + b
            if t < .7: return b"\xca" + be(self.r.getrandbits(32), 4)
            if t < .8: return self.int(self.anint(self.pick(INTS)))
            if t < .83: return b"\xc0"
            if k == "f32": return b"\xcb" + self.f64near32()
            return b"\xcb" + b
        if k in ("char", "str"): return self.str(bytes(v["b"]))
        if k == "cstr": return self.str(b"".join(bytes(x["b"]) for x in c))
        if k == "bytes": b = bytes(v["b"]); return self.binh(len(b)) + b
        if k in ("none", "unit", "ustruct"): return b"\xc0"
        if k in ("some", "nstruct"): return self.mtext(sh["c"][0], c[0])
        if k == "uvar": return self.ident(v["i"], bytes(v["b"]))
        if k == "seq": return self.arrh(len(c)) + b"".join(self.mtext(sh["c"][0], x) for x in c)
        if k in ("tuple", "tstruct"): return self.arrh(len(c)) + b"".join(self.mtext(s, x) for s, x in zip(sh["c"], c))
        if k == "map": return self.maph(len(c) // 2) + b"".join(self.mtext(sh["c"][0], c[j]) + self.mtext(sh["c"][1], c[j + 1]) for j in range(0, len(c), 2))
        if k == "struct": return self.mfields(sh, c)
        vs = sh["c"][v["i"]]
        if k == "nvar": inner = self.mtext(vs["c"][0], c[0])
        elif k == "tvar": inner = self.arrh(len(c)) + b"".join(self.mtext(s, x) for s, x in zip(vs["c"], c))
        else: inner = self.mfields(vs, c)
        return b"\x81" + self.ident(v["i"], bytes(v["b"])) + inner
    def nearmid(self):
        """integers at and next to the points halfway between two single (or double) precision numbers"""
        w, bits = self.pick([(32, 24), (64, 24), (64, 24), (64, 53)])
        e = self.r.randrange(bits, w); m = (1 << (bits - 1)) | self.r.getrandbits(bits - 1)
        if self.p(.1): m = (1 << bits) - 1
        sh = e + 1 - bits
        z = (m << sh) + ((1 << (sh - 1)) if sh else 0)
        r = [z + d for d in (-1, 0, 1)]
        if sh > 30: r += [z + (1 << self.r.randrange(0, sh - 29)), z - (1 << self.r.randrange(0, sh - 29))]
        r = [x for x in r if 0 <= x < 1 << 64]
        return r + [-x for x in r if x <= 1 << 63]
    def f64near32(self):
        """a double at or near a rounding boundary of single precision"""
        t = self.r.random()
        if t < .3: return struct.pack(">d", self.pick([3.4028234663852886e38, 3.4028235677973366e38, 3.402823669209385e38, 1e39, 1e-45, 7e-46, 7.1e-46, 1.1754943508222875e-38, 0.1, -0.0, INF, 16777217.0, 33554433.0, 5e-324]))
        u = self.r.getrandbits(32)
        f = struct.unpack(">f", be(u, 4))[0]
        if f != f or abs(f) == INF: f = 1.0
        d = int.from_bytes(struct.pack(">d", f), "big")
        d += self.pick([0, 1, -1, 1 << 28, (1 << 28) - 1, (1 << 28) + 1, 3 << 28])
        return be(max(0, d) % (1 << 64), 8)
    def msg(self, sh, maxlen=200):
        for _ in range(50):
            t = self.mtext(sh, self.value(sh, False))
            if len(t) <= maxlen: return t
        return b"\xc0"
    def mutate(self, t):
        t = bytearray(t)
        for _ in range(self.pick([1, 1, 1, 2, 3])):
            x = self.r.random(); n = len(t)
            if x < .2 and n: del t[self.r.randrange(n)]
            elif x < .35: t.insert(self.r.randrange(n + 1), self.r.randrange(256))
            elif x < .55 and n: t[self.r.randrange(n)] = self.r.randrange(256)
            elif x < .7 and n: i = self.r.randrange(n); t[i] = self.pick([0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xbf, *range(0xc0, 0xe1), 0xff, 0x7f, 0])
            elif x < .78 and n: i = self.r.randrange(n); t[i] = (t[i] + self.pick([1, -1, 2, -2])) % 256
            elif x < .85 and n: i = self.r.randrange(n); t[i:i] = self.junk(1)
            elif x < .92 and n: t = t[:self.r.randrange(n + 1)]
            else: t += self.junk(1)
        return bytes(t)

# ---------------------------------------------------------------------------------------------------------------------------
# the same things, only more of them: what a small sample never reaches
EDGES = sorted({z for e in range(3, 13) for z in ((1 << e) - 1, 1 << e, (1 << e) + 1)} | {10, 20, 24, 40, 48, 50, 80, 96, 99, 100, 101, 192, 200, 300, 384, 500, 768, 1000})
SPECIAL = [b"", b"\\n", b"\\\"", b"\\\\", b"\\/", b"\\u00e9", b"\\uD83D\\uDE00", b"\\u0000", "é".encode(), "€".encode(), "😀".encode(), b"\x7f", b"\\b\\f\\r\\t"]
BADSPECIAL = [b"\n", b"\x00", b"\\x", b"\\u12G4", b"\\uD800", b"\\uDC00", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\\uD83D\\n", b"\x1f", b"\""]
def edge(g, most):
    t = g.r.random()
    if t < .5: return g.pick([z for z in EDGES if z <= most])
    if t < .8: return g.r.randrange(0, min(most, 140) + 1)
    return int(most ** g.r.random())
def plain(g, n):
    t = g.r.random()
    if t < .5: return b"s" * n
    return bytes(g.pick(b"abc xyz,:[]{}/'=0") for _ in range(n))

class Scale:
    """(flavor, shape, text) of one large thing each"""
    def __init__(self, g): self.g = g
    def jstr(self, bad=False):
        g = self.g; n = edge(g, 600); m = g.pick([0, 1, 5, edge(g, 120)])
        x = g.pick(BADSPECIAL if bad else SPECIAL)
        t = g.r.random()
        if t < .6: return plain(g, n) + x + plain(g, m)
        if t < .8: k = edge(g, 60); return g.pick(SPECIAL) * k + (x if bad else b"") + plain(g, m)
        return b"".join(plain(g, g.r.randrange(0, 40)) + g.pick(SPECIAL) for _ in range(g.r.randrange(1, 12))) + x
    def json(self, bad=False):
        g = self.g; S = g.pick([leaf("str"), leaf("string")]); A = leaf("any"); I = leaf("ign"); fl = g.r.randrange(3)
        fam = g.pick(["str"] * 5 + ["ws"] * 2 + ["arr"] * 3 + ["obj"] * 3 + ["deep"] * 2 + ["digits"] * 2 + ["bytes"] * 2 + ["names"])
        other = bad and g.p(.5)        # something else is wrong with it
        if fam == "str":
            s = b'"' + self.jstr(bad and not other) + b'"'
            t = g.r.random()
            if t < .35: sh, x = S, s
            elif t < .45: sh, x = A, s
            elif t < .55: sh, x = I, s
            elif t < .62: fl, sh, x = 0, leaf("bytes"), s
            elif t < .72: sh, x = wrap("seq", S), b"[" + s + b" , " + s + b"]"
            elif t < .8: sh, x = wrap("map", S, leaf("u8")), b"{" + s + b":1}"
            elif t < .86: sh, x = nd("struct", c=[field("a", leaf("u8"))]), b'{"z":' + s + b',"a":7}'
            elif t < .92: sh, x = nd("struct", c=[field("a", leaf("u8"))]), b"{" + s + b':[1],"a":7}'
            else: sh, x = nd("tuple", c=[I, S, A, S]), b"[" + b",".join([s] * 4) + b"]"
        elif fam == "ws":
            w = lambda: bytes(g.pick(b" \t\n\r") for _ in range(edge(g, 200))) if g.p(.4) else b""
            t = g.r.random()
            if t < .4: sh, x = g.pick([wrap("seq", leaf("u8")), A, I, nd("tuple", c=[leaf("u8"), leaf("u8")])]), w() + b"[" + w() + b"1" + w() + b"," + w() + b"22" + w() + b"]" + w()
            elif t < .8: sh, x = g.pick([wrap("map", S, leaf("u8")), A, I, nd("struct", c=[field("a", leaf("u8")), field("b", leaf("u8"), 1)])]), w() + b"{" + w() + b'"a"' + w() + b":" + w() + b"1" + w() + b"," + w() + b'"b"' + w() + b":" + w() + b"2" + w() + b"}" + w()
            else: sh, x = nd("enum", c=[nd("nvar", b=b"B", c=[leaf("bool")])]), w() + b"{" + w() + b'"B"' + w() + b":" + w() + b"true" + w() + b"}" + w()
        elif fam == "arr":
            n = edge(g, 260)
            e, sh = g.pick([(b"1", leaf("u8")), (b"[]", wrap("seq", leaf("u8"))), (b"null", wrap("opt", leaf("u8"))), (b'"x"', S), (b"{}", A), (b"-5", I), (b"true", leaf("bool")), (b'"\\n"', I)])
            x = b"[" + g.pick([b",", b" , ", b",\n"]).join([e] * n) + b"]"
            sh = g.pick([wrap("seq", sh)] * 3 + [nd("tuple", c=[sh] * n), nd("tuple", c=[sh] * (n + g.pick([-1, 1]))), A, I, wrap("seq", A)])
        elif fam == "obj":
            n = edge(g, 130)
            key = g.pick([lambda i: b'"k%d"' % i, lambda i: b'"%d"' % i, lambda i: b'"k"'])
            e, sh = g.pick([(b"1", leaf("u8")), (b"{}", A), (b'"x"', S), (b"[1]", I)])
            ks = S if key(0) != b'"0"' else g.pick([S, leaf("u16"), leaf("i64")])
            x = b"{" + g.pick([b",", b" , "]).join(key(i) + b":" + e for i in range(n)) + b"}"
            sh = g.pick([wrap("map", ks, sh)] * 2 + [A, I, nd("struct", c=[field("a", leaf("u8"), 1)]), nd("struct", c=[field("k%d" % i, sh) for i in range(n)])])
        elif fam == "deep":
            n = edge(g, 50 if g.p(.5) else 110)          # (what TLC can read of a nested answer is limited)
            op, mid, cl = g.pick([(b"[", b"", b"]"), (b'{"a":', b"1", b"}"), (b"[1,", b"2", b"]"), (b"[", b"1", b",2]"),  (b" [ ", b'"]"', b" ] ")])
            x = op * n + mid + cl * n
            t = g.r.random()
            if t < .3: sh = A
            elif t < .6: sh = I
            elif t < .75: sh, x = nd("struct", c=[field("a", leaf("u8"))]), b'{"z":' + x + b',"a":7}'
            elif t < .85: sh, x = nd("tuple", c=[I, leaf("u8")]), b"[" + x + b",7]"
            else:
                n = min(n, 40); sh = leaf("u8")
                for _ in range(n): sh = wrap("seq", sh)
                x = b"[" * n + b"1" + b"]" * n
        elif fam == "digits":
            d = lambda n: b"".join(g.pick([b"0", b"1", b"5", b"9"]) for _ in range(n))
            n = edge(g, 300)
            x = g.pick([b"", b"-"]) + g.pick([b"1" + d(n), b"0." + d(n + 1), b"1." + b"0" * n + b"1", b"1" + d(min(n, 40)) + b"." + d(n + 1), b"1e" + b"0" * n + b"2", b"1" + b"0" * n + b"e-" + str(n).encode(), b"0." + b"0" * n + b"1e" + str(n).encode()])
            sh = g.pick([leaf("f64"), leaf("f64"), leaf("f32"), A, I, leaf("u64"), leaf("i32")])
            if g.p(.3): sh, x = wrap("seq", sh), b"[" + x + b"," + x + b"]"
        elif fam == "bytes":
            n = edge(g, 400); b = bytes(g.r.randrange(256) for _ in range(n)); sh = leaf(g.pick(["bytes", "bytebuf"]))
            x = g.bytetext(b if fl else bytes(z & 127 for z in b), fl)
            if g.p(.4): sh, x = nd("tuple", c=[sh, leaf("str"), sh]), b"[" + x + b',"q",' + x + b"]"
        else:
            n = edge(g, 300); nm = b"n" * n; en = nd("enum", c=[nd("uvar", b=nm[:-1] + b"m"), nd("uvar", b=nm), nd("nvar", b=nm + b"x", c=[leaf("u8")])])
            sh, x = g.pick([(en, b'"' + nm + b'"'), (en, b'{"' + nm + b'x":3}'), (nd("struct", c=[field(nm + b"y", leaf("u8"), 1), field(nm, leaf("u8"))]), b'{"' + nm + b'":3}'), (wrap("map", en, leaf("u8")), b'{"' + nm + b'":3}')])
        if other: x = g.mutate(x)
        return fl, sh, x
    def msg(self, bad=False):
        g = self.g; S = g.pick([leaf("str"), leaf("string")]); A = leaf("any"); I = leaf("ign")
        fam = g.pick(["str"] * 3 + ["bin"] * 2 + ["ext"] * 2 + ["arr"] * 3 + ["map"] * 3 + ["deep"] * 2 + ["names"])
        st = nd("struct", c=[field("a", leaf("u8"))])
        def place(x, sh):
            return g.pick([(sh, x), (sh, x), (A, x), (I, x), (nd("tuple", c=[sh, leaf("u8")]), b"\x92" + x + b"\x07"), (nd("tuple", c=[I, leaf("u8")]), b"\x92" + x + b"\x07"), (st, b"\x82\xa1z" + x + b"\x00\x07"), (wrap("map", sh, leaf("u8")), b"\x81" + x + b"\x07"), (st, b"\x82" + x + b"\x01\x00\x07") if x[0] >= 0xa0 and x[0] < 0xc0 or x[0] in (0xd9, 0xda, 0xdb) else (I, x)])
        if fam == "str":
            s = plain(g, edge(g, 700)) + g.pick(["é", "€", "😀", ""]).encode() + (g.pick([b"\xff", b"\xc3", b"\xed\xa0\x80"]) if bad and g.p(.4) else b"")
            sh, x = place(g.str(s), S)
        elif fam == "bin": b = bytes(g.r.randrange(256) for _ in range(edge(g, 700))); sh, x = place(g.binh(len(b)) + b, leaf(g.pick(["bytes", "bytebuf"])))
        elif fam == "ext":
            n = edge(g, 700); h = g.pick(([b"\xc7" + be(n, 1)] if n < 256 else []) + [b"\xc8" + be(n, 2), b"\xc9" + be(n, 4)]); sh, x = place(h + bytes([g.r.randrange(256)]) + b"\xc1" * n, I)
        elif fam == "arr":
            n = edge(g, 300); e, sh = g.pick([(b"\x01", leaf("u8")), (b"\x90", wrap("seq", A)), (b"\xc0", wrap("opt", leaf("u8"))), (b"\xa1x", S), (b"\x80", A), (b"\xcd\x01\x02", I), (b"\xd4\x01\x02", I)])
            x = g.arrh(n) + e * n
            sh, x = place(x, g.pick([wrap("seq", sh)] * 3 + [nd("tuple", c=[sh] * n), nd("tuple", c=[sh] * (n + g.pick([-1, 1]))), nd("struct", c=[field("f%d" % i, sh) for i in range(n)])]))
        elif fam == "map":
            n = edge(g, 200); key = g.pick([lambda i: g.str(b"k%d" % i), lambda i: bytes([i % 128]), lambda i: b"\xcd" + be(i, 2)])
            e, sh = g.pick([(b"\x01", leaf("u8")), (b"\x80", A), (b"\xa1x", S), (b"\x91\x01", I)])
            x = g.maph(n) + b"".join(key(i) + e for i in range(n))
            sh, x = place(x, g.pick([wrap("map", A, sh)] * 2 + [nd("struct", c=[field("a", leaf("u8"), 1)]), nd("struct", c=[field("k%d" % i, sh, 1) for i in range(n)])]))
        elif fam == "deep":
            n = edge(g, 110); op, mid, cl = g.pick([(b"\x91", b"\x01", b""), (b"\x81\x01", b"\x01", b""), (b"\xdc\x00\x02", b"\xc0", b"\xc3"), (b"\x81", b"\x01", b"\xc0"), (b"\xdd\x00\x00\x00\x01", b"\x90", b"")])
            sh, x = place(op * n + mid + cl * n, A)
            if g.p(.2):
                n = min(n, 40); sh = leaf("u8")
                for _ in range(n): sh = wrap("seq", sh)
                x = b"\x91" * n + b"\x07"
        else:
            n = edge(g, 300); nm = b"n" * n; en = nd("enum", c=[nd("uvar", b=nm[:-1] + b"m"), nd("uvar", b=nm), nd("nvar", b=nm + b"x", c=[leaf("u8")])])
            sh, x = g.pick([(en, g.str(nm)), (en, b"\x81" + g.str(nm + b"x") + b"\x03"), (nd("struct", c=[field(nm + b"y", leaf("u8"), 1), field(nm, leaf("u8"))]), b"\x81" + g.str(nm) + b"\x03")])
        if bad: x = g.pick([lambda: g.mutate(x), lambda: x[:-1], lambda: x + b"\x01"])()
        return sh, x
    def value(self, fmt):
        """(value, shape)"""
        g = self.g
        fam = g.pick(["str"] * 4 + ["bytes"] * 2 + ["seq"] * 2 + ["map"] * 2 + ["deep", "struct", "names", "tuple"])
        if fam == "str":
            raw = ["", "\n", "\"", "\\", "é", "€", "😀", "\x7f", "\x1f", "\0"]
            s = ("s" * edge(g, 600) + g.pick(raw) + "t" * g.pick([0, 1, 5, edge(g, 100)])) if g.p(.6) else "".join(g.pick(raw) + "u" * g.r.randrange(0, 30) for _ in range(g.r.randrange(1, 20)))
            v = g.cstr(s.encode()) if g.p(.2) else text("str", s); sh = leaf("string")
            return g.pick([(v, sh), (v, sh), (nd("map", n=1, c=[v, intv("u8", 1)]), wrap("map", sh, leaf("u8"))), (nd("seq", n=2, c=[v, v]), wrap("seq", sh))])
        if fam == "bytes": return text("bytes", bytes(g.r.randrange(256 if fmt == "m" else 128) for _ in range(edge(g, 400)))), leaf(g.pick(["bytes", "bytebuf"]))
        e, sh = g.pick([(intv("u8", 200), leaf("u8")), (leaf("none"), wrap("opt", leaf("u8"))), (text("str", "x"), leaf("string")), (nd("seq", n=0), wrap("seq", leaf("u8"))), (boolv(1), leaf("bool")), (nd("struct", n=1, c=[field("a", intv("i8", -1))]), nd("struct", c=[field("a", leaf("i8"))]))])
        n = edge(g, 260)
        if fam == "seq": return nd("seq", n=n if fmt == "m" or g.p(.5) else -1, c=[e] * n), wrap("seq", sh)
        if fam == "tuple": return nd("tuple", n=n, c=[e] * n), nd("tuple", c=[sh] * n)
        if fam == "map":
            n = min(n, 130); c = []
            for i in range(n): c += [intv("u16", i * 257), e]
            return nd("map", n=n if fmt == "m" or g.p(.5) else -1, c=c), wrap("map", leaf("u16"), sh)
        if fam == "struct":
            n = min(n, 130); full = g.p(.5); e = intv("u8", 200); sh = leaf("u8")
            if full: return nd("struct", n=n, c=[field("f%d" % i, e) for i in range(n)]), nd("struct", c=[field("f%d" % i, sh) for i in range(n)])
            c = [field("f%d" % i, wrap("some", e)) if i % 2 else nd("skip", b=b"f%d" % i) for i in range(n)]
            return nd("struct", n=n // 2, c=c), nd("struct", c=[field("f%d" % i, wrap("opt", sh), 0) for i in range(n)])
        if fam == "names":
            nm = b"n" * edge(g, 300); return nd("nvar", i=1, b=nm, c=[nd("struct", n=1, c=[field(nm, e)])]), nd("enum", c=[nd("uvar", b=nm + b"z"), nd("nvar", b=nm, c=[nd("struct", c=[field(nm, sh)])])])
        n = min(n, 100); v, s = e, sh
        for _ in range(n):
            j = g.r.randrange(3)
            v, s = [(nd("seq", n=1, c=[v]), wrap("seq", s)), (wrap("nstruct", v), wrap("nstruct", s)), (nd("map", n=1, c=[text("str", "k"), v]), wrap("map", leaf("string"), s))][j]
        return v, s
