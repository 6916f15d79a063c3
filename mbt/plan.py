"""What is tried for each property: lists of stimuli (with q = property), and the configurations they run in."""
import itertools, random
from gen import *
import models

def L(b): return list(b)
def noskip(v):
    """the same value with nothing left out (the compact MessagePack layout has no room for gaps)"""
    w = dict(v); c = []
    for x in v["c"]:
        if x["k"] == "skip": c.append(nd("field", b=x["b"], c=[leaf("none")]))
        else: c.append(noskip(x))
    w["c"] = c
    if v["k"] in ("struct", "svar"): w["n"] = len(c)
    return w
def has(v, pred): return pred(v) or any(has(x, pred) for x in v["c"])
def size(v): return 1 + len(v["b"]) // 4 + sum(size(x) for x in v["c"])

# the plain types of harness/src/types.rs and their shapes
def _st(n=0, **fs): return nd("struct", n=n, c=[field(k, v) for k, v in fs.items()])
def _opt(x): return wrap("opt", x)
def _seq(x): return wrap("seq", x)
def _tup(*c): return nd("tuple", c=c)
U8, U16, U32, I8, I16, I32, I64, BOOL, CHAR, STR, UNIT, F32, F64, BUF = [leaf(k) for k in ("u8", "u16", "u32", "i8", "i16", "i32", "i64", "bool", "char", "string", "unit", "f32", "f64", "bytebuf")]
T_Plain = _st(a=U8, b=I64, c=BOOL, d=CHAR, e=STR, f=_opt(U16), g=_seq(I32), h=F64)
T_Plain2 = _st(x=I8, y=F32)
T_New = wrap("nstruct", U32)
T_Pair = nd("tstruct", c=[I16, _opt(BOOL)])
T_Nested = _st(p=T_Plain2, q=_opt(T_Plain2), r=_seq(T_Plain2), s=_tup(U8, STR), t=_tup(U16, U16, U16), u=UNIT, v=leaf("ustruct"), w=T_New, x=T_Pair)
def _ext(d): return nd("enum", c=[nd("uvar", b=b"Unit"), nd("nvar", b=b"New", c=[U32]), nd("tvar", b=b"Tup", c=[U8, STR]), nd("svar", b=b"Stru", c=[field("a", BOOL), field("b", _opt(I8))]), nd("tvar", b=b"Empty"),
    nd("svar", b=b"NoFields"), nd("nvar", b=b"Bytes", c=[BUF]), nd("nvar", b=b"Rec", c=[_ext(d - 1) if d else leaf("fail")])])
T_Idx = nd("enum", c=[nd("uvar", b=b"A0"), nd("uvar", b=b"A1"), nd("nvar", b=b"A2", c=[U8]), nd("uvar", b=b"A3"), nd("svar", b=b"A4", c=[field("x", U8)]), nd("uvar", b=b"A5"), nd("uvar", b=b"A6"), nd("tvar", b=b"A7", c=[U8, U8])])
T_Renamed = nd("struct", n=1, c=[field("firstName", STR), field("", U8), field("thirdOne", I8), field('quo"te\\\n', BOOL)])
TYPES = dict(Plain=T_Plain, Plain2=T_Plain2, New=T_New, Pair=T_Pair, Nested=T_Nested, Idx=T_Idx, Renamed=T_Renamed, UnitS=leaf("ustruct"), String=STR, VecPlain2=_seq(T_Plain2),
             Tuple4=_tup(U8, STR, _opt(T_New), _seq(BOOL)), OptOpt=_opt(_seq(_opt(I64))), Bytes=_st(a=BUF, b=BUF, c=_opt(BUF), d=_seq(BUF), e=_seq(U8)))
TYIDS = "Plain Nested Ext Maps Bytes Skips Renamed Defaults Untagged Tagged Adjacent Flat FlatMap Generic2 Std Std2 Tree Idxs VecPlain2 Tuple4 OptOpt Pair Idx Plain2 UnitS New String MapKeyI16 MapKeyIp Borrowed".split()
# not promised: identifiers as numbers for visitors that only know names, an array for what serde writes as an array of another length, gaps in the compact layout
TYNOT = {("Tagged", "m", 1), ("Std", "m", 1), ("Std2", "m", 1), ("Adjacent", "m", 0), ("Skips", "m", 0)}

class Plan:
    def __init__(self, seed, tier, models=True):
        self.models = models
        self.seed, self.tier = seed, tier
        self.k = 12 if tier == "quick" else 60          # how much more the thorough tier tries
    def n(self, x): return x * self.k
    def j(self, salt): return JText(f"{self.seed}/{salt}")
    def m(self, salt): return MText(f"{self.seed}/{salt}")
    def parts(self, sh, g, rate=.5):
        """the shape with visitors that look at what the accessors say and may not take all there is"""
        k = sh["k"]
        w = dict(sh, c=[x if k == "map" and i == 0 else self.parts(x, g, rate) for i, x in enumerate(sh["c"])])
        return nd("part", n=g.pick([-1, -1, -1, 0, 1, 2, 3]), i=g.r.randrange(2), c=[w]) if k in ("seq", "map") and g.p(rate) else w
    def parted(self, g, fmt, n):
        """(flavor, shape, text): small collections, all sorts of part shapes over them, and larger ones from anywhere"""
        one, sh = {"j": b"7", "m": b"\x07"}[fmt], leaf("u8"); key = (lambda i: b'"%d":' % i) if fmt == "j" else (lambda i: bytes([i]))
        for m in (0, 1, 2, 3, 15, 16, 17):
            A = g.arrh(m) + one * m if fmt == "m" else b"[" + b",".join([one] * m) + b"]"
            O = g.maph(m) + b"".join(key(i) + one for i in range(m)) if fmt == "m" else b"{" + b",".join(key(i) + one for i in range(m)) + b"}"
            for t in sorted({-1, 0, 1, 2, m - 1, m, m + 1} - {-2}):
                for i in (0, 1):
                    for x, c in ((A, wrap("seq", sh)), (O, wrap("map", sh, sh)), (O, wrap("seq", sh)), (A, wrap("map", sh, sh))):
                        p = nd("part", n=t, i=i, c=[c]); yield 0, p, x
                        if m < 4:
                            yield 0, nd("tuple", c=[p, leaf("bool")]), (b"[" + x + b",true]" if fmt == "j" else b"\x92" + x + b"\xc3"); yield 0, p, x[:-1]
                            yield 0, wrap("opt", p), x
        for _ in range(self.n(n)):
            for _ in range(20):
                fl, y, t = self.jdoc(g, maxlen=90) if fmt == "j" else (0,) + (lambda y: (y, g.msg(y, 60)))(g.shape(g.pick([1, 2, 3])))
                z = self.parts(y, g)
                if has(z, lambda w: w["k"] == "part"): yield fl, z, t; break
    def small(self, f, limit):
        for _ in range(60):
            v = f()
            if size(v) <= limit: return v
        return v

    # -- what the generating modules of the specification reach ----------------
    def some(self, items, cap, salt, good):
        """at most cap of them (quick), the good ones first but at most to the half"""
        if self.tier != "quick": cap *= 12
        if len(items) <= cap: return items
        r = random.Random(f"{self.seed}/{salt}")
        a = [x for x in items if good(x)]; b = [x for x in items if not good(x)]
        na = min(len(a), max(cap // 2, cap - len(b)))
        return r.sample(a, na) + r.sample(b, cap - na)
    def model(self, module, scope, depth, cap, good=lambda x: x.get("e") == ""):
        """depth = (quick, thorough); a leading table of shapes is resolved"""
        items = models.explore(module, scope, depth[0] if self.tier == "quick" else depth[1])
        tab = next((x["shapes"] for x in items if "shapes" in x), None)
        return [dict(x, sh=tab[x["x"] - 1]) if tab else x for x in self.some([x for x in items if "shapes" not in x], cap, module + scope, good)]
    def gjson(self, scope, cap, depth=(4, 5), good=lambda x: x["e"] == ""):
        ends = [L(x) for x in {"array": (b"", b"]", b"]]", b"1]"), "object": (b"", b"}", b"1}", b":1}", b"]}"), "key": (b"", b'":1}', b":1}", b"1}")}.get(scope, (b"", b'"', b"]", b"1"))]
        r = random.Random(f"{self.seed}/ends{scope}{cap}")
        # (what went wrong or is not complete: also with an ending that could hide it)
        return [dict(op="jde", fl=x["sh"][1], sh=x["sh"][0], **{"in": x["t"] + (r.choice(ends) if x["e"] != "" else [])}) for x in self.model("GenJson", scope, depth, cap, good)]
    def gmp(self, scope, cap, depth=(3, 4)):
        return [dict(op="mde", sh=x["sh"], **{"in": x["t"]}) for x in self.model("GenMp", scope, depth, cap)]
    def gser(self, scope, cap, depth):
        return self.model("GenSer", scope, depth, cap, lambda x: x["sh"]["k"] != "null")
    def ty(self, fmt, n):
        r = random.Random(f"{self.seed}/ty{fmt}")
        return [dict(op="ty", id=i, fmt=fmt, fl=fl, seed=r.randrange(1 << 50)) for i in TYIDS for fl in range(3) if (i, fmt, fl) not in TYNOT for _ in range(self.n(n))]
    def tyd(self, g, fmt, n, bad):
        out = []
        for i, sh in TYPES.items():
            for _ in range(self.n(n)):
                fl = g.r.randrange(3) if fmt == "j" else 0
                t = g.doc(sh, fl, 400) if fmt == "j" else g.msg(sh, 300)
                if bad and g.p(.7): t = g.mutate(t)
                out.append(dict(op="tyd", id=i, fmt=fmt, fl=fl, sh=sh, **{"in": L(t)}))
        return out
    def inplace(self, scope, cap, depth=(6, 7)):
        return [dict(op="jde", fl=x["fl"], sh=x["sh"], **{"in": x["t"]}) for x in self.model("InPlace", scope, depth, cap)]

    # -- one large thing each ----------------------------------------------------
    def sj(self, g, n, bad=False, pred=lambda sh: True, most=5000, op="jde"):
        sc = Scale(g); out = []
        while len(out) < self.n(n):
            fl, sh, x = sc.json(bad)
            if len(x) <= most and has(sh, pred): out.append(dict(op=op, fl=fl, sh=sh, **{"in": L(x)}))
        return out
    def sm(self, g, n, bad=False, pred=lambda sh: True, most=5000, op="mde"):
        sc = Scale(g); out = []
        while len(out) < self.n(n):
            sh, x = sc.msg(bad)
            if len(x) <= most and has(sh, pred): out.append(dict(op=op, sh=sh, **{"in": L(x)}))
        return out
    def sv(self, g, fmt, n, op):
        sc = Scale(g); out = []
        for _ in range(self.n(n)):
            v, sh = sc.value(fmt); fl = g.r.randrange(3)
            if fmt == "m" and fl == 0 and op == "mrt": v = noskip(v)
            out.append(dict(op=op, fl=fl, v=v, **(dict(sh=sh) if op in ("jrt", "mrt") else {})))
        return out

    # -- nesting --------------------------------------------------------------
    DEPTHS = [2, 3, 30, 31, 32, 33, 62, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130, 192, 199, 200, 201, 253, 254, 255, 256, 257, 258, 300, 383, 500, 511, 512, 513, 600, 800, 999, 1000, 1001]
    def depths(self, g, n): return g.r.sample(self.DEPTHS, n) + [g.pick([129, 201, 257, 258, 513, 1001]), g.r.randrange(2, 1000)]
    FAR = (100, 127, 128, 129, 240, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 511, 512, 513, 1000, 4095, 4096, 4097, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000)
    def far(self, g, fmt, items, big=3):
        """items (fl, sh, text): the same texts far into the input"""
        out = []
        def add(fl, sh, t, first, pre, unit, n, post, tail, uoff=0, ulen=0):
            out.append(dict(op="far", fmt=fmt, fl=fl, sh=sh, osh=nd("tuple", c=[leaf(first), sh]) if first else sh, wrap=int(bool(first)), pre=L(pre), unit=L(unit), n=n, post=L(post), tail=L(tail), uoff=uoff, ulen=ulen, **{"in": L(t)}))
        for i, (fl, sh, t) in enumerate(items):
            n = g.pick(self.FAR) + g.pick([0, 0, 0, -1, 1]) if i % 3 else g.r.randrange(200, 300)
            if fmt == "j":
                k = g.r.randrange(5)
                if k == 0: add(fl, sh, t, None, b"", g.pick([b" ", b"\n", b"\t", b"\r", b" \n"]), n, b"", b"")
                elif k == 1: add(fl, sh, t, "ign", b'["', g.pick([b"x", b"]", b"{", b",", "\u00e9".encode()]), n, b'",', b"]")
                elif k == 2: add(fl, sh, t, "str", b'["', b"y", n, b'", ', b"]", 2, n)
                elif k == 3: add(fl, sh, t, "ign", b"[", b"7", n, b" ,", b"] ")
                else: add(fl, sh, t, "ign", b"[[1", g.pick([b",2", b",null", b", {}"]), min(n, 5000), b"],", b"]\n")
            else:
                k = g.r.randrange(6)
                if k == 0: add(0, sh, t, "ign", b"\x92\xc6" + be(n, 4), b"\xc1", n, b"", b"")
                elif k == 1: add(0, sh, t, "ign", b"\x92\xdb" + be(n, 4), b"s", n, b"", b"")
                elif k == 2: add(0, sh, t, "ign", b"\x92\xc9" + be(n, 4) + b"\x05", b"\xc1", n, b"", b"")
                elif k == 3: add(0, sh, t, "ign", b"\x92\xdd" + be(n, 4), g.pick([b"\xc0", b"\x07", b"\x90"]), n, b"", b"")
                elif k == 4: add(0, sh, t, "str", b"\x92\xdb" + be(n, 4), b"y", n, b"", b"", 6, n)
                else: add(0, sh, t, "bytes", b"\x92\xc6" + be(n, 4), b"\xff", n, b"", b"", 6, n)
        return out
    def farof(self, g, out, n):
        """some of the stimuli, far into the input"""
        st = [x for x in out if x["op"] in ("jde", "mde") and len(x["in"]) < 200 and "only" not in x]
        st = g.r.sample(st, min(len(st), n if self.k <= 12 else 3 * n))
        return [y for f, op in (("j", "jde"), ("m", "mde")) for y in self.far(g, f, [(x.get("fl", 0), x["sh"], bytes(x["in"])) for x in st if x["op"] == op])]
    RUNS = (7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 127, 128, 129, 200, 255, 256, 257, 300)
    def runs(self, g, n=1):
        """JSON string literals where plain text of many lengths stands between escapes of all sizes"""
        ESC = (b"\\n", b"\\\"", b"\\u0041", b"\\u00e9", b"\\u20AC", b"\\uD83D\\uDE00", b"\\/\\t", b"\\n\\n\\n", b"\\u0000" * 2, b"")
        def run(k):
            o = g.r.randrange(90); t = bytearray(93 if c in b'"\\' else c for c in (33 + (o + i * 7) % 93 for i in range(k)))
            u = g.pick([b"", b"", "\u00e9".encode(), "\u20ac".encode(), "\U0001f600".encode()])
            at = g.pick([0, k - len(u), max(0, k // 2 - 1)])
            return bytes(t[:at]) + u + bytes(t[at + len(u):]) if len(u) <= k else bytes(t)
        for k in self.RUNS:
            for _ in range(n):
                e = g.pick(ESC[:-1]); yield b'"' + e + run(k) + b'"'
                yield b'"' + run(g.r.randrange(4)) + g.pick(ESC) + run(k) + g.pick(ESC) + run(g.pick([0, 1, 3, 8, 40])) + g.pick(ESC) + b'"'
    def runde(self, g, fl, n=1):
        """... with text before and after them, to several types"""
        for t in self.runs(g, n):
            yield nd("tuple", c=[leaf("str"), leaf("str")]), b"[" + t + b',"tail \\u0042 of it"]'
            yield g.pick([(nd("tuple", c=[leaf("string"), leaf("u16")]), b"[" + t + b",65535]"), (leaf("any"), b"[" + t + b',{"k":' + t + b"}]"),
                          (wrap("map", leaf("str"), leaf("str")), b"{" + t + b":" + t + b',"z":""}'), (nd("tuple", c=[leaf("ign"), leaf("str")]), b" [" + t + b" , " + t + b" ]")] +
                         ([(nd("tuple", c=[leaf("bytes"), leaf("str")]), b"[" + t + b",\"\\nx\"]")] if fl == 0 else []))
    def rawruns(self, g, n=1):
        """the same kind of text, not yet encoded"""
        ESC = (b"\n", b'"', b"\\", b"\x00", b"\x1f", b"\x7f", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b'\\"', b"\x08\x09", b"/", b"")
        def run(k):
            o = g.r.randrange(90); return bytes(93 if c in b'"\\' else c for c in (33 + (o + i * 7) % 93 for i in range(k)))
        for k in self.RUNS:
            for _ in range(n): yield run(g.pick([0, 0, 1, 5])) + g.pick(ESC[:-1]) + run(k) + g.pick(ESC) + run(g.pick([0, 1, 7, 33])) + g.pick(ESC)
    # what a reader or writer that looks at several bytes at a time may get wrong: one byte of interest at every place of
    # a block, among bytes that are next to it or differ from it in a high bit
    FILL = (b"a", b" ", b"!", b"#", b"[", b"]", b"\x7f", b"\x7e0", "\u00a2".encode(), "\u071c".encode(), "\u00bf".encode(), "\U0001f6a2".encode(), b"/", b"{}")
    def lanes(self, g, n, specials, sep=False):
        """n texts: a piece of `specials` at some place of a text of block-like length; sometimes a second one near it"""
        lens = [7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 64, 65]
        spots = [(k, p) for k in lens for p in range(k)]
        for i in range(n):
            k, p = g.pick(spots) if i >= len(spots) else spots[(i * 7) % len(spots)]
            f = g.pick(self.FILL); x = g.pick(specials)
            body = (f * k)[:k - k % len(f)] if len(f) > 1 else f * k
            at = p - p % len(f) if len(f) > 1 else p
            t = body[:at] + x + body[at:]
            if g.p(.4):
                at2 = at + len(x) + len(f) * g.r.randrange(0, 10)
                t = t[:at2] + g.pick(specials) + t[at2:]
            yield t
    RAWSP = (b'"', b"\\", b"\x00", b"\x1f", b"\x08", b"\t", b"\n", b"\x0b", b"\x0c", b"\r", b"\x10", b"\x7f", "\u0080".encode(), "\u00e9".encode(), "\u2028".encode(), "\ufeff".encode(), "\uffff".encode(), "\U0010ffff".encode())
    ESCSP = (b'\\"', b"\\\\", b"\\/", b"\\b", b"\\f", b"\\n", b"\\r", b"\\t", b"\\u0000", b"\\u001F", b"\\u0022", b"\\u005c", b"\\u00A2", b"\\u07ff", b"\\u20ac", b"\\uFEFF", b"\\uD83D\\uDE00", b"\\udbff\\udfff", "\u00e9".encode(), "\u20ac".encode())
    BADSP = (b"\x00", b"\x01", b"\x1f", b"\n", b"\x10", b"\t", b"\x80", b"\xa2", b"\xbf", b"\xc3", b"\xc0\x80", b"\xe2\x82", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xf4\x90\x80\x80", b"\xff", b"\\u00g0", b"\\ud800", b"\\udc00", b"\\x", b'\\u12"', b'"', b'" ', b'",')
    def lanede(self, g, n, bad):
        """... in JSON texts; (shape, text)"""
        S = leaf("str"); I = leaf("ign"); U = leaf("u8")
        places = [(S, b'"%s"'), (S, b'"%s"'), (leaf("string"), b' "%s" '), (leaf("any"), b'"%s"'), (I, b'"%s"'), (nd("tuple", c=[I, U]), b'["%s",7]'), (nd("tuple", c=[S, S]), b'["%s","b"]'), (wrap("map", S, U), b'{"%s":1}'), (leaf("any"), b'{"%s":["%s"]}'),
                  (nd("struct", c=[field("a", U, 1)]), b'{"%s":{"%s":1}}'), (nd("struct", c=[field("a", U, 1)]), b'{"z":"%s","a":2}'), (leaf("bytes"), b'"%s"'), (wrap("map", I, I), b'{"%s":"%s"}'), (nd("enum", c=[nd("uvar", b=b"A")]), b'"%s"')]
        for t in self.lanes(g, n, self.BADSP + self.ESCSP if bad else self.ESCSP):
            sh, w = g.pick(places); yield sh, w.replace(b"%s", t)
    def lanenum(self, g, n):
        """(kind, text): digits, then any byte at all"""
        for i in range(n):
            k = g.pick(INTS); d = 1 + i % 21; t = bytes([g.r.randrange(49, 58)]) + bytes(g.r.randrange(48, 58) for _ in range(d - 1))
            if g.p(.5):
                lo, hi = irange(k); t = str(g.r.randrange(min(hi, 10 ** d) + 1)).encode()
            if k[0] == "i" and g.p(.4): t = b"-" + t
            x = bytes([g.pick([0x2f, 0x3a, 0x2e, 0x20, 0x2c, 0x5d, 0x65, 0x1f, 0x00, 0xb0, 0xb9, 0x70, 0x10, g.r.randrange(256)])])
            at = len(t) if g.p(.6) else g.r.randrange(1, len(t) + 1)
            yield k, t[:at] + x + t[at:] + g.pick([b"", b"", b"1", b"00000000"])
    def lanews(self, g, n):
        """(shape, text): one byte that is or is not white space, between tokens, behind white space of several lengths"""
        U = leaf("u8"); S = leaf("str")
        docs = [(wrap("seq", U), [b"[", b"1", b",", b"2", b"]"]), (wrap("map", S, U), [b"{", b'"a"', b":", b"1", b",", b'"b"', b":", b"2", b"}"]), (leaf("any"), [b"{", b'"a"', b":", b"[", b"null", b",", b"true", b"]", b"}"]), (leaf("ign"), [b"{", b'"a"', b":", b"[", b"null", b",", b"-1.5", b"]", b"}"]),
                (nd("struct", c=[field("a", U), field("b", wrap("opt", S))]), [b"{", b'"a"', b":", b"1", b",", b'"b"', b":", b"null", b"}"]), (nd("enum", c=[nd("tvar", b=b"T", c=[U, leaf("bool")])]), [b"{", b'"T"', b":", b"[", b"1", b",", b"false", b"]", b"}"]), (leaf("bytes"), [b"[", b"1", b",", b"255", b"]"]), (leaf("f64"), [b"1.5"]), (leaf("unit"), [b"null"])]
        for _ in range(n):
            sh, ts = g.pick(docs); at = g.r.randrange(len(ts) + 1)
            x = bytes([g.pick([0x20, 0x09, 0x0a, 0x0d, 0x0b, 0x0c, 0x1f, 0x00, 0x21, 0x85, 0xa0, 0x08, 0x0e, 0x89, 0x8a, 0x8d, 0x2c, 0x40, 0x60, g.r.randrange(256)])])
            w = bytes(g.pick(b" \t\n\r") for _ in range(g.r.randrange(0, 18))); w2 = bytes(g.pick(b" \t\n\r") for _ in range(g.pick([0, 0, 1, 7, 8])))
            yield sh, b"".join((w + x + w2 if i == at else b"") + t for i, t in enumerate(ts)) + (w + x + w2 if at == len(ts) else b"")
    def lanemp(self, g, n):
        """(shape, message): text and names with something in them that is not UTF-8, or is, at every place"""
        S = leaf("str"); bad = (b"\x80", b"\xa2", b"\xbf", b"\xc3", b"\xc0\x80", b"\xe2\x82", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xf4\x90\x80\x80", b"\xff", b"\x00", b"\x7f", "\u00e9".encode(), "\u20ac".encode(), "\U0001f600".encode())
        for t in self.lanes(g, n, bad):
            h = g.pick(([bytes([0xa0 + len(t)])] if len(t) < 32 else []) + [b"\xd9" + be(len(t), 1), b"\xda" + be(len(t), 2), b"\xdb" + be(len(t), 4)]) + t
            yield g.pick([(S, h), (leaf("string"), h + b"\x01"), (leaf("any"), h), (leaf("ign"), h), (wrap("map", S, leaf("u8")), b"\x81" + h + b"\x01"), (nd("tuple", c=[S, leaf("u8")]), b"\x92" + h + b"\x07"), (nd("struct", c=[field("a", leaf("u8"), 1)]), b"\x82" + h + b"\x01\xa1a\x07"),
                          (nd("enum", c=[nd("uvar", b=b"A")]), h), (nd("tuple", c=[leaf("ign"), S]), b"\x92" + h + b"\xa1x"), (leaf("bytes"), h), (wrap("map", leaf("any"), leaf("any")), b"\x81" + h + h)])
    def nestde(self, g, fmt, kind, n=3):
        """kind: any, ign, typed, bad, cut"""
        A = leaf("any"); I = leaf("ign"); H = leaf("hole"); S = leaf("str"); U = leaf("u8"); out = []
        en = nd("enum", c=[nd("uvar", b=b"A"), nd("nvar", b=b"B", c=[H])])
        if fmt == "j":
            free = [(b"[", b"[]", b"]", [1]), (b"[", b"1", b"]", [1]), (b"[1,", b'"x"', b"]", [2]), (b"[", b"null", b",2]", [1]), (b" [ ", b"true", b"\n]\t", [1]), (b'{"a":', b"1", b"}", [2]), (b'{"k":[],"a" : ', b"{}", b" }", [4]),
                    (b'{"a":[', b'"]"', b"]}", [2, 1]), (b'{"":', b"[]", b',"z":{}}', [2]), (b'["}",{"\\"":', b"-1", b"}]", [2, 2]), (b"[[],[],", b"7", b",[]]", [3])]
            typed = [(b"[", b"5", b"]", [1], wrap("seq", H), U), (b"[", b"true", b" , 7]", [1], nd("tuple", c=[H, U]), leaf("bool")), (b'{"k":', b'"v"', b"}", [2], wrap("map", S, H), S), (b'{"a":', b"3", b"}", [1, 1], nd("struct", c=[field("a", H)]), U),
                     (b'{"u":1,"a":', b"3", b"}", [1, 1], nd("struct", c=[field("a", H)]), U), (b"[", b"3", b"]", [1, 1], nd("struct", c=[field("a", H)]), U), (b'{"B":', b'"A"', b"}", [1], en, nd("enum", c=[nd("uvar", b=b"A")])), (b"", b"9", b"", [1], wrap("opt", H), U), (b"", b"9", b"", [1], wrap("nstruct", H), U), (b"[", b"5", b"]", [1, 1], wrap("seq", wrap("opt", H)), U)]
            outs = [(H, b"", b"", []), (H, b" ", b" \n", []), (wrap("seq", H), b"[", b"]", [1]), (nd("tuple", c=[H, U]), b"[", b",7]", [1]), (nd("struct", c=[field("z", H), field("a", U)]), b'{"z":', b',"a":7}', [1, 1]), (wrap("map", S, H), b'{"k":', b"}", [2])]
            skips = [(nd("struct", c=[field("a", U)]), b'{"z":', b',"a":7}'), (nd("struct", c=[field("a", U)]), b'{"a":7,"z":', b"}"), (nd("tuple", c=[H, U]), b"[", b",7]"), (H, b"", b""), (wrap("map", S, H), b'{"k":', b"}"), (nd("tuple", c=[U, nd("struct", c=[field("a", S, 1)]), U]), b"[1,", b",2]")]
            skips[-1] = (nd("tuple", c=[U, nd("struct", c=[field("a", S, 1)]), U]), b'[1,{"y":', b"},2]")
        else:
            free = [(b"\x91", b"\x01", b"", [1]), (b"\x91", b"\x90", b"", [1]), (b"\x92\x01", b"\xc0", b"", [2]), (b"\x92", b"\xa1x", b"\xc3", [1]), (b"\xdc\x00\x01", b"\x80", b"", [1]), (b"\xdd\x00\x00\x00\x02", b"\x05", b"\x06", [1]), (b"\x81\x01", b"\x01", b"", [2]), (b"\x81", b"\x01", b"\xc0", [1]),
                    (b"\x82\xa1k\x90\xa1a", b"\xc2", b"", [4]), (b"\xde\x00\x01\xa1a", b"\x90", b"", [2]), (b"\xdf\x00\x00\x00\x01\xc0", b"\xc4\x01z", b"", [2]), (b"\x93\x90\x80", b"\xff", b"", [3])]
            typed = [(b"\x91", b"\x05", b"", [1], wrap("seq", H), U), (b"\x92", b"\xc3", b"\x07", [1], nd("tuple", c=[H, U]), leaf("bool")), (b"\x81\xa1k", b"\xa1v", b"", [2], wrap("map", S, H), S), (b"\x81\xa1a", b"\x03", b"", [1, 1], nd("struct", c=[field("a", H)]), U), (b"\x81\x00", b"\x03", b"", [1, 1], nd("struct", c=[field("a", H)]), U),
                     (b"\x91", b"\x03", b"", [1, 1], nd("struct", c=[field("a", H)]), U), (b"\x82\xa1u\xc0\x00", b"\x03", b"", [1, 1], nd("struct", c=[field("a", H)]), U), (b"\x81\xa1B", b"\xa1A", b"", [1], en, nd("enum", c=[nd("uvar", b=b"A")])), (b"\x81\x01", b"\x00", b"", [1], en, nd("enum", c=[nd("uvar", b=b"A")])), (b"", b"\x09", b"", [1], wrap("opt", H), U), (b"", b"\x09", b"", [1], wrap("nstruct", H), U)]
            outs = [(H, b"", b"", []), (H, b"", b"\x91\x01", []), (wrap("seq", H), b"\x91", b"", [1]), (nd("tuple", c=[H, U]), b"\x92", b"\x07\xc1", [1]), (nd("struct", c=[field("z", H), field("a", U)]), b"\x82\xa1z", b"\x01\x07", [1, 1]), (wrap("map", S, H), b"\x81\xa1k", b"", [2])]
            skips = [(nd("struct", c=[field("a", U)]), b"\x82\xa1z", b"\xa1a\x07"), (nd("struct", c=[field("a", U)]), b"\x82\x00\x07\xa1q", b"\xff"), (nd("tuple", c=[H, U]), b"\x92", b"\x07"), (H, b"", b"\x91"), (wrap("map", S, H), b"\x81\xa1k", b"")]
            free += [(b"\x92", b"\xd4\x01\x02", b"\xc7\x00\x05", [1])] if kind == "ign" else []
        def add(o, mid, c, at, sh, csh, ow, d, peel=None):
            e = dict(op="nest", fmt=fmt, fl=0, open=L(o), mid=L(mid), close=L(c), at=at, sh=sh, csh=csh, osh=ow[0], pre=L(ow[1]), post=L(ow[2]), oat=ow[3] if len(ow) > 3 else [], n=d, peel=int(csh["k"] != "ign")); out.append(e)
        for d in self.depths(g, n) + self.depths(g, n):
            if kind == "any":
                for u in free: add(*u[:4], H, A, g.pick(outs), d)
            elif kind == "typed":
                for u in typed: add(*u[:6], g.pick(outs), d)
            elif kind == "ign":
                for u in free: add(*u[:4], H, I, g.pick(skips), d, 0)
            else:              # mistakes: at the core, at the end, within
                u = g.pick(free); sh = g.pick([A, I]); ow = g.pick(outs) if sh is A else g.pick(skips)
                cut = lambda t: t[:g.r.randrange(len(t))] if t else t
                if kind == "cut":
                    for u in free: add(u[0], cut(u[1]), b"", u[3], H, g.pick([A, I]), (H, b"", b""), d, 0); add(u[0], u[1], b"", u[3], H, g.pick([A, I]), (H, b"", b""), d, 0) if u[2] else 0
                    for u in typed:
                        if u[0]: add(u[0], cut(u[1]), b"", u[3], u[4], u[5], (H, b"", b""), d, 0)
                else:
                    for u in free:
                        for _ in range(2):
                            sh = g.pick([A, I]); t = g.r.randrange(4)
                            if t == 0: add(u[0], g.pick([b"]", b",", b"}", b"nul", b'"\n"', b"[,1]", b"{1:2}", b"[1,]"]) if fmt == "j" else b"\xc1", u[2], u[3], H, sh, (H, b"", b""), d, 0)
                            elif t == 1: add(u[0], u[1], u[2] or b"", u[3], H, sh, (H, b"", g.pick([b"]", b"}", b",", b" 1", b"x"]) if fmt == "j" else b"\xc1"), d, 0)
                            elif t == 2 and fmt == "j": add(u[0], u[1], u[2].replace(b"]", b"?").replace(b"}", b"]").replace(b"?", b"}"), u[3], H, sh, (H, b"", b""), d, 0)
                            else: add(u[0] + (b"," if fmt == "j" else b"\xc1"), u[1], u[2], u[3], H, sh, (H, b"", b""), d, 0)
        return out
    def nestser(self, g, fmt, fls, n=3):
        H = leaf("hole"); one = intv("u8", 1); S = leaf("str"); U = leaf("u8"); out = []
        for d in self.depths(g, n) + self.depths(g, n):
            for fl in fls:
                F = {0: (b"\x92", b"\x92"), 1: (b"\x82\x00\x01\x01", b"\x82\x00"), 2: (b"\x82\xa1a\x01\xa1b", b"\x82\xa1a")}[fl] if fmt == "m" else 0
                core = g.pick([(one, U), (text("str", "q\n"), leaf("string")), (nd("seq", n=0), wrap("seq", U)), (leaf("unit"), leaf("unit"))])
                us = [(nd("seq", n=1, c=[H]), b"[", b"]", wrap("seq", H), [1]), (nd("seq", n=2, c=[H, H]), None, None, None, None), (nd("tuple", n=2, c=[one, H]), b"[1,", b"]", nd("tuple", c=[U, H]), [2]), (nd("tstruct", n=2, c=[H, one]), b"[", b",1]", nd("tstruct", c=[H, U]), [1]),
                      (nd("map", n=1, c=[text("str", "k"), H]), b'{"k":', b"}", wrap("map", leaf("string"), H), [2]), (nd("map", n=1, c=[one, H]), b'{"1":', b"}", wrap("map", U, H), [2]), (nd("struct", n=2, c=[field("a", one), field("b", H)]), b'{"a":1,"b":', b"}", nd("struct", c=[field("a", U), field("b", H)]), [2, 1]),
                      (nd("struct", n=2, c=[field("a", H), field("b", one)]), b'{"a":', b',"b":1}', nd("struct", c=[field("a", H), field("b", U)]), [1, 1]), (nd("nvar", i=1, b=b"B", c=[H]), b'{"B":', b"}", nd("enum", c=[nd("uvar", b=b"A"), nd("nvar", b=b"B", c=[H])]), [1]),
                      (nd("tvar", n=2, i=1, b=b"T", c=[one, H]), b'{"T":[1,', b"]}", nd("enum", c=[nd("uvar", b=b"A"), nd("tvar", b=b"T", c=[U, H])]), [2]), (nd("svar", n=1, i=0, b=b"V", c=[field("a", H)]), b'{"V":{"a":', b"}}", nd("enum", c=[nd("svar", b=b"V", c=[field("a", H)])]), [1, 1]), (wrap("nstruct", H), b"", b"", wrap("nstruct", H), [1]), (wrap("some", H), b"", b"", wrap("opt", H), [1])]
                if fmt == "m":
                    m = {"seq": (b"\x91", b""), "tuple": (b"\x92\x01", b""), "tstruct": (b"\x92", b"\x01"), "nstruct": (b"", b""), "some": (b"", b"")}
                    def enc(v):
                        k = v["k"]
                        if k in m: return m[k]
                        if k == "map": return (b"\x81\xa1k" if v["c"][0]["k"] == "str" else b"\x81\x01"), b""
                        if k == "struct":
                            if v["c"][0]["c"][0]["k"] == "hole": return {0: (b"\x92", b"\x01"), 1: (b"\x82\x00", b"\x01\x01"), 2: (b"\x82\xa1a", b"\xa1b\x01")}[fl]
                            return {0: (b"\x92\x01", b""), 1: (b"\x82\x00\x01\x01", b""), 2: (b"\x82\xa1a\x01\xa1b", b"")}[fl]
                        h = b"\x81" + (b"\xa1" + bytes(v["b"]) if fl == 2 else bytes([v["i"]]))
                        return h + {"nvar": b"", "tvar": b"\x92\x01", "svar": {0: b"\x91", 1: b"\x81\x00", 2: b"\x81\xa1a"}[fl]}[k], b""
                    us = [(v, *enc(v), sh, at) for v, o, c, sh, at in us if at]
                for v, o, c, sh, at in us:
                    if at and not (v["k"] == "some" and core[0]["k"] == "unit"): out.append(dict(op="nestser", fmt=fmt, fl=fl, v=v, cv=core[0], open=L(o), close=L(c), sh=sh, csh=core[1], osh=H, at=at, oat=[], n=d))
        return out

    # -- C01 ------------------------------------------------------------------
    def leaves(self, g):
        for k in ("u8", "i8"):
            lo, hi = irange(k)
            for z in range(lo, hi + 1): yield intv(k, z)
        for k in INTS:
            lo, hi = irange(k)
            for z in BOUND:
                if lo <= z <= hi: yield intv(k, z)
        for x in FLOATS64:
            yield f64b(x); yield f64b(-x)
        for x in FLOATS32:
            yield f32b(x); yield f32b(-x)
        for x in (INF, -INF, NAN): yield f32b(x); yield f64b(x)
        for e in range(-8, 24):
            for m in (1, 12, 123456789012, 99999999999999995):
                yield f64b(float(f"{m}e{e}"))
                if m < 1000: yield f32b(float(f"{m}e{e}"))
        for _ in range(self.n(150)): yield g.floatv("f64"); yield g.floatv("f32")
        for _ in range(self.n(40)):
            for k in ("f64", "f32"):
                x = g.decimal() * g.pick([1, -1]); yield f64b(x) if k == "f64" else f32b(x)
            for k in INTS: yield intv(k, g.digits(k))
        for o in list(range(0x80)) + CHARS:
            yield text("char", chr(o))
        for o in list(range(0x24)) + [0x5c, 0x7f, 0x80, 0x2028, 0x10ffff]:
            yield text("str", "x" + chr(o) + "y" + chr(o)); yield g.cstr(("a" + chr(o) + "b").encode())
        for a, b in itertools.product([34, 92, 10, 31, 97, 0xe9], repeat=2): yield text("str", chr(a) + chr(b))
        for k in ("unit", "ustruct", "none", "hr"): yield leaf(k)
        yield boolv(0); yield boolv(1)
        for n in range(0, 5): yield text("bytes", bytes(range(250, 250 + n)))
    def C01(self):
        g = self.j("C01")
        out = [dict(op="jser", fl=0, v=v) for v in self.leaves(g)]
        for t in self.rawruns(g, 2): out.append(dict(op="jser", fl=0, v=g.pick([text("str", t), nd("nvar", b=t, c=[leaf("unit")]), nd("map", n=1, c=[text("str", t), text("str", t[::-1] if t.isascii() else t)])])))
        for _ in range(self.n(900)):
            v = self.small(lambda: g.anyvalue(g.pick([1, 2, 2, 3, 4]), True), 60)
            out.append(dict(op="jser", fl=g.r.randrange(4), v=v))
        for b in (b"", b"\x00", b"\xff\x00\x10", b'{"a":1}', bytes(range(64))):
            for fl in range(4):
                out.append(dict(op="jser", fl=fl, v=text("bytes", b)))
                out.append(dict(op="jser", fl=fl, v=nd("seq", n=-1, c=[text("bytes", b), nd("map", n=-1, c=[text("str", "k"), text("bytes", b)])])))
        # the shapes that end or begin with nothing in them
        for k in ("seq", "tuple", "tstruct"):
            for c in ([], [leaf("unit")], [nd("seq"), nd("map"), nd("struct")], [nd("tuple")] * 3): out.append(dict(op="jser", fl=0, v=nd(k, n=len(c), c=c)))
        sk = nd("skip", b=b"s")
        for pat in itertools.product([0, 1], repeat=4):
            fs = [field(x, intv("u8", 3)) if p else nd("skip", b=x.encode()) for p, x in zip(pat, "abcd")]
            for k in ("struct", "svar"): out.append(dict(op="jser", fl=0, v=nd(k, n=sum(pat), b=b"V" if k == "svar" else b"", c=fs)))
        for kind in ("str", "cstr", "bytes", "seq", "tuple", "map"):
            for n in (1000, 70000):
                for fl in ((0, 1, 2) if kind == "bytes" else (0,)): out.append(dict(op="big", fmt="j", fl=fl, kind=kind, n=n))
        if self.models:
            for sc, d in (("mixed", (4, 5)), ("seq", (4, 5)), ("map", (5, 5)), ("struct", (6, 8)), ("enum", (4, 5))):      # every short sequence of calls
                for x in self.gser(sc, 700, d): out.append(dict(op="jser", fl=g.r.randrange(3), v=x["v"]))
        for t in self.lanes(self.j("C01lanes"), self.n(60), self.RAWSP): out.append(dict(op="jser", fl=0, v=g.pick([text("str", t), text("str", t), g.cstr(t), nd("uvar", b=t), nd("map", n=1, c=[text("str", t), leaf("unit")]), nd("struct", n=1, c=[field(t, leaf("unit"))])])))
        out += self.ty("j", 1)
        out += self.sv(g, "j", 20, "jser")
        out += self.nestser(g, "j", (0,), 2)
        return out, ["std", "none-r"]

    # -- C02 ------------------------------------------------------------------
    def C02(self):
        g = self.j("C02"); out = []
        bads = ["f64", "f32", "bytes", "unit", "ustruct", "none", "some", "seq", "tuple", "tstruct", "map", "struct", "nvar", "tvar", "svar"]
        one = intv("u8", 1)
        def place(k):
            return [nd("map", n=1, c=[k, one]), nd("map", n=2, c=[text("str", "a"), one, k, one]), nd("seq", n=1, c=[nd("map", n=1, c=[k, nd("map", n=1, c=[text("str", "x"), one])])]),
                    nd("struct", n=1, c=[field("f", nd("map", n=-1, c=[k, leaf("unit")]))])]
        for k in bads:
            for x in (g.bad(k), wrap("nstruct", g.bad(k)), wrap("nstruct", wrap("nstruct", g.bad(k)))):
                for fl in range(4):
                    for v in place(x): out.append(dict(op="jser", fl=fl, v=v))
        empties = [nd(k, n=n, b=b"V" if k in ("tvar", "svar") else b"") for k in ("seq", "map", "tuple", "tstruct", "struct", "tvar", "svar") for n in ((0, -1) if k in ("seq", "map") else (0,))]
        empties += [text("bytes", b""), wrap("some", text("str", "")), wrap("some", leaf("none")), nd("nvar", b=b"", c=[leaf("unit")]), wrap("some", nd("uvar", b=b"V"))]
        for x in empties:
            for y in (x, wrap("nstruct", x), wrap("nstruct", wrap("nstruct", x))):
                for v in place(y): out.append(dict(op="jser", fl=g.r.randrange(4), v=v))
        goods = [boolv(0), boolv(1), text("char", "\""), text("char", "é"), text("str", ""), text("str", "a\"b\\c\n"), nd("uvar", i=3, b=b"V\"1"), g.cstr("x\ty".encode()), leaf("hr")]
        for k in INTS: goods += [intv(k, z) for z in irange(k)] + [intv(k, 0), intv(k, 7)]
        for x in list(goods): goods.append(wrap("nstruct", x))
        for x in goods:
            for v in place(x): out.append(dict(op="jser", fl=g.r.randrange(4), v=v))
        for x in (leaf("fail"), leaf("i128")):
            for v in place(x): out.append(dict(op="jser", fl=0, v=v))
        for t in self.lanes(self.j("C02lanes"), self.n(25), self.RAWSP): out.append(dict(op="jser", fl=0, v=nd("map", n=1, c=[g.pick([text("str", t), g.cstr(t), nd("uvar", b=t), wrap("nstruct", text("str", t))]), one])))
        # reading keys back
        for _ in range(self.n(500)):
            sh = wrap("map", g.keyshape(2), g.pick([leaf("u8"), leaf("unit"), wrap("map", g.keyshape(1), leaf("bool"))]))
            v = self.small(lambda: g.value(sh), 40)
            out.append(dict(op="jrt", fl=g.r.randrange(3), v=v, sh=sh))
        texts = [b"", b"0", b"1", b"00", b"01", b"-0", b"-1", b"+1", b" 1", b"1 ", b"\\t1", b"255", b"256", b"-128", b"-129", b"127", b"128", b"65535", b"65536", b"-32769", b"4294967295", b"4294967296",
                 b"18446744073709551615", b"18446744073709551616", b"9223372036854775808", b"-9223372036854775808", b"-9223372036854775809", b"1.0", b"1e0", b"1a", b"true", b"false", b"true ",
                 b" true", b"tru", b"truex", b"True", b"null", b"\\u0031", b"A", b"B", b"\\u0041", b"AB", b"\xc3\xa9", b"\\uD83D\\uDE00", b"1\\", b"-", b"--1", b"12345678901234567890123"]
        kss = [leaf(k) for k in INTS] + [leaf("bool"), leaf("char"), leaf("str"), leaf("string"), leaf("any"), leaf("hr"), leaf("bytes"), leaf("ign"), leaf("f64"), leaf("unit"), wrap("opt", leaf("u8")), wrap("seq", leaf("u8")),
               nd("enum", c=[nd("uvar", b=b"A"), nd("uvar", b=b"B")]), nd("enum", c=[nd("uvar", b=b"A"), nd("nvar", b=b"B", c=[leaf("u8")])])]
        kss += [wrap("nstruct", k) for k in kss]
        for ks in kss:
            for t in texts:
                if self.tier == "quick" and not g.p(.45): continue
                body = g.pick([b'{"%s":1}', b'{"%s" : 1}', b'{ "%s":1 , "%s":2}'])
                body = body.replace(b"%s", t)
                if ks["k"] in ("opt", "seq", "f64", "unit"): continue     # unsupported key types: what they do is not promised
                if ks["k"] == "nstruct" and ks["c"][0]["k"] in ("opt", "seq", "f64", "unit"): continue
                out.append(dict(op="jde", fl=0, sh=wrap("map", ks, leaf("u8")), **{"in": L(body)}))
        if self.models:
            for x in self.gser("key", 2500, (5, 5)): out.append(dict(op="jser", fl=g.r.randrange(3), v=x["v"]))
            out += self.gjson("key", 2500)
        out += [x for x in self.sj(g, 8, False, lambda y: y["k"] == "map")] + [x for x in self.sj(g, 8, True, lambda y: y["k"] == "map")]
        return out, ["std", "none-r"]

    # -- C03 ------------------------------------------------------------------
    def C03(self):
        g = self.j("C03"); out = []
        for t in self.rawruns(g, 2): sh, v = g.pick([(leaf("str"), text("str", t)), (leaf("string"), text("str", t)), (wrap("map", leaf("str"), leaf("str")), nd("map", n=1, c=[text("str", t), text("str", t)])), (nd("tuple", c=[leaf("str")] * 2), nd("tuple", n=2, c=[text("str", t)] * 2))]); out.append(dict(op="jrt", fl=0, v=v, sh=sh))
        for _ in range(self.n(1100)):
            while True:
                sh = g.shape(g.pick([1, 2, 3, 3, 4]))
                v = g.value(sh)
                if size(v) <= 60: break
            out.append(dict(op="jrt", fl=g.r.randrange(3), v=v, sh=sh))
        for v in self.leaves(g):
            if v["k"] in ("f32", "f64") and g.p(.6): out.append(dict(op="jrt", fl=0, v=v, sh=leaf(v["k"])))
            if v["k"] == "char": out.append(dict(op="jrt", fl=0, v=v, sh=leaf("char")))
            if v["k"] in ("cstr", "str"): out.append(dict(op="jrt", fl=0, v=v, sh=leaf(g.pick(["str", "string"]))))
        for k in INTS:
            lo, hi = irange(k)
            for z in BOUND:
                if lo <= z <= hi and g.p(.5): out.append(dict(op="jrt", fl=0, v=intv(k, z), sh=leaf(k)))
        for fl in range(3):
            for n in range(0, 34): out.append(dict(op="jrt", fl=fl, v=text("bytes", bytes((7 * i * i + n) % 256 for i in range(n))), sh=leaf(g.pick(["bytes", "bytebuf"]))))
        for kind in ("str", "bytes", "seq", "map", "tuple"):
            for fl in ((0, 1, 2) if kind == "bytes" else (0,)): out.append(dict(op="big", fmt="j", fl=fl, kind=kind, n=self.pickn(g)))
        if self.models:
            for sc, d in (("mixed", (4, 5)), ("seq", (4, 5)), ("map", (5, 5)), ("struct", (6, 8)), ("enum", (4, 5)), ("key", (5, 5))):
                for x in self.gser(sc, 700, d):
                    if x["sh"]["k"] != "null" and x["jk"] == "": out.append(dict(op="jrt", fl=g.r.randrange(3), v=x["v"], sh=x["sh"]))
        hm = nd("map", n=1, c=[leaf("hr"), leaf("hr")]); hs = wrap("map", leaf("hr"), leaf("hr"))
        for v, sh in ((hm, hs), (nd("map", n=1, c=[leaf("hr"), hm]), wrap("map", leaf("hr"), hs)), (nd("seq", n=2, c=[hm, hm]), wrap("seq", hs)), (nd("map", n=1, c=[wrap("nstruct", leaf("hr")), intv("u8", 1)]), wrap("map", wrap("nstruct", leaf("hr")), leaf("u8"))),
                      (nd("struct", n=2, c=[field("a", hm), field("b", leaf("hr"))]), nd("struct", c=[field("a", hs), field("b", leaf("hr"))])), (nd("nvar", i=0, b=b"A", c=[hm]), nd("enum", c=[nd("nvar", b=b"A", c=[hs])]))):
            for fl in range(3): out.append(dict(op="jrt", fl=fl, v=v, sh=sh))
        out += self.ty("j", 3)
        out += self.sv(g, "j", 25, "jrt")
        out += self.nestser(g, "j", (0,), 3)
        return out, ["std", "none-r"]
    def pickn(self, g): return g.pick([255, 256, 4095, 65535, 65536, 65537, 80000])

    def enumdocs(self):
        """an enum with a variant of each kind, in every form it may and may not be written"""
        en = nd("enum", c=[nd("uvar", b=b"A"), nd("nvar", b=b"B", c=[leaf("u8")]), nd("tvar", b=b"C", c=[leaf("u8"), leaf("u8")]), nd("svar", b=b"D", c=[field("x", leaf("u8"))])])
        for body in (b'"A"', b'{"A":null}', b'{"B":1}', b'"B"', b'{"C":[1,2]}', b'{"C":[1]}', b'{"C":[1,2,3]}', b'{"D":{"x":1}}', b'{"D":[1]}', b'{"D":{}}', b'{"B":1,"B":2}', b'{}', b'{"E":1}', b'"E"', b'{"B":{"A":1}}', b' { "B" : 1 } ', b'0', b'["A"]', b'null', b'{"A":1}', b'"C"', b'"D"', b'{"C":null}', b'{"D":null}', b'{"C":{"x":1}}', b'{"D":{"x":1,"y":[2]}}', b'{"D":[]}', b'{"A":[]}', b'{"A":{}}', b'{"B":[1]}'):
            yield en, body; yield wrap("seq", en), b"[" + body + b"," + body + b"]"; yield wrap("opt", en), body; yield wrap("map", leaf("str"), en), b'{"k":' + body + b"}"

    # -- C04 ------------------------------------------------------------------
    def jdoc(self, g, depth=None, maxlen=160, fl=None):
        fl = g.r.randrange(3) if fl is None else fl
        while True:
            sh = g.shape(g.pick([0, 1, 2, 2, 3, 3]) if depth is None else depth)
            t = g.doc(sh, fl, maxlen)
            if t != b"null" or g.p(.1): return fl, sh, t
    def C04(self):
        g = self.j("C04"); out = []
        def add(fl, sh, t): out.append(dict(op="jde", fl=fl, sh=sh, **{"in": L(t)}))
        for _ in range(self.n(1300)): add(*self.jdoc(g))
        for sh, t in self.runde(g, 0, 2): add(0, sh, t)
        # every escape, alone, at the start, in the middle, at the end
        S = leaf("str")
        for c in b'"\\/bfnrt': 
            for pre, post in ((b"", b""), (b"a", b""), (b"", b"z"), (b"\\n", b"\\\\")): add(0, S, b'"' + pre + b"\\" + bytes([c]) + post + b'"')
        for u in (0, 1, 0x1f, 0x20, 0x22, 0x5c, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0xabcd, 0xefef):
            for h in ("%04x", "%04X"): add(0, S, b'"' + b"\\u" + (h % u).encode() + b'"'); add(0, leaf("char"), b'"\\u' + (h % u).encode() + b'"')
        for u in (0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fc00, 0x10ffff, 0x2f800):
            hi, lo = 0xd800 + ((u - 0x10000) >> 10), 0xdc00 + ((u - 0x10000) & 0x3ff)
            for h in ("\\u%04x\\u%04x", "\\u%04X\\u%04X"):
                e = (h % (hi, lo)).encode()
                for t in (e, b"a" + e, e + b"z", e + e, b"\\n" + e + b"\\u0041"): add(0, S, b'"' + t + b'"'); add(0, wrap("seq", S), b'["' + t + b'", "next"]')
                add(0, leaf("char"), b'"' + e + b'"'); add(0, wrap("map", S, leaf("u8")), b'{"' + e + b'":1}'); add(0, leaf("bytes"), b'"' + e + b'"')
        # floats in every spelling
        for k in ("f32", "f64"):
            for t in ["0", "-0", "0.0", "-0.0", "1", "1.0", "10", "1e0", "1E0", "1e+0", "1e-0", "1e10", "1.5e3", "1.5E-3", "123456789", "0.1", "0.3", "3.14159265358979", "1e21", "1e22", "1e23", "9007199254740993",
                      "9007199254740992.5", "179769313486231570000000000000000000000", "1.7976931348623157e308", "1.7976931348623159e308", "2e308", "-2e308", "4.9e-324", "2.4e-324", "2.5e-324", "1e-400", "16777217", "16777216.5", "16777219",
                      "3.4028235e38", "3.4028236e38", "1e39", "1e-46", "7.1e-46", "0.000000000000000000000000000000000000000000001", "2.2250738585072012e-308", "2.2250738585072011e-308", "18446744073709551615", "18446744073709551616", "99999999999999999999999999",
                      "123456789012345678901234567890.123456789e-10", "null", "0e5", "-1e-7", "5e-1", "00012", "1.", ".5", "-.5", "+1", "-null", "1.e5", "0x1", "1e", "--1"]:
                for sh, pre, post in ((leaf(k), b"", b""), (wrap("seq", leaf(k)), b"[ ", b" ,1]")): add(0, sh, pre + t.encode() + post)
        for k in ("f32", "f64"):          # at and next to the points where rounding turns
            for _ in range(self.n(40)):
                for t in g.midpoint(k): add(0, leaf(k), t)
        gd = self.j("C04decimals")
        for _ in range(self.n(90)):
            t = gd.dectext(); add(0, leaf(gd.pick(["f64", "f64", "f32", "any"])), t)
        for n in range(0, 13):             # backslashes before the quote
            for x in (b"", b"a", b"\\\"", b"\\n"):
                add(0, S, b'"' + x + b"\\\\" * n + b'"'); add(0, leaf("ign"), b'["' + x + b"\\\\" * n + b'", "]"]'); add(0, leaf("any"), b'{"' + x + b"\\\\" * n + b'\\"":"\\\\"}')
        for k in INTS:
            lo, hi = irange(k)
            for z in [z for z in BOUND if lo <= z <= hi]:
                if g.p(.4): add(0, leaf(k), g.ws() + str(z).encode() + g.ws())
        # structs: orders, duplicates, unknown, missing
        st = nd("struct", c=[field("a", leaf("u8")), field("b", wrap("opt", leaf("bool"))), field("c", wrap("seq", leaf("u8")), 1)])
        for _ in range(self.n(120)):
            names = [g.pick([b"a", b"b", b"c", b"a", b"b", b"c", b"d", b"", b"aa"]) for _ in range(g.r.randrange(0, 5))]
            body = b",".join(g.esc(n) + b":" + {b"a": b"1", b"b": g.pick([b"null", b"true"]), b"c": g.pick([b"[]", b"[1,2]"])}.get(n, b'{"q":["]"]}') for n in names)
            for deny in (0, 1): add(0, dict(st, n=deny), b"{" + body + b"}")
        for body in (b"[]", b"[1]", b"[1,null]", b"[1,true,[]]", b"[1,true,[3]]", b"[1,true,[3],4]"): add(0, st, body); add(0, wrap("seq", st), b"[" + body + b"]")
        for sh, t in self.enumdocs(): add(0, sh, t)
        for fl, sh, t in self.parted(g, "j", 60): add(fl, sh, t)
        if self.models:
            for sc, n, d in (("string", 1500, (4, 5)), ("escape", 1500, (6, 7)), ("utf8", 1500, (4, 4)), ("number", 1500, (3, 4)), ("array", 1500, (4, 6)), ("object", 1500, (4, 6)), ("word", 500, (3, 4))): out += self.gjson(sc, n, d)
        lg = self.j("C04lanes")
        for sh, t in self.lanede(lg, self.n(60), False): add(0, sh, t)
        for sh, t in self.lanews(lg, self.n(25)): add(0, sh, t)
        out += self.tyd(g, "j", 7, False)
        out += self.sj(g, 30)
        out += self.nestde(g, "j", "any", 2) + self.nestde(g, "j", "typed", 2) + self.nestde(g, "j", "ign", 1)
        out += self.farof(self.j("C04far"), out, 300)
        return out, ["std", "none-r"]

    # -- C05 ------------------------------------------------------------------
    def C05(self):
        g = self.j("C05"); out = []
        def add(fl, sh, t): out.append(dict(op="jde", fl=fl, sh=sh, **{"in": L(t)}))
        for _ in range(self.n(1500)):
            fl, sh, t = self.jdoc(g, maxlen=90)
            add(fl, sh, g.mutate(t))
        for fl, sh, t in self.parted(g, "j", 60): add(fl, sh, g.mutate(t))
        for sh, t in self.enumdocs(): add(0, sh, t); add(0, sh, g.mutate(t))
        for _ in range(self.n(250)):      # the wrong type for a good text
            fl, sh, t = self.jdoc(g, maxlen=60); add(fl, g.shape(g.pick([0, 1, 2])), t)
        for _ in range(self.n(300)):      # nothing but tokens
            t = b"".join(g.pick([b"[", b"]", b"{", b"}", b",", b":", b'"a"', b"1", b"null", b"true", b" ", b'"']) for _ in range(g.r.randrange(1, 8)))
            add(0, g.pick([leaf("any"), leaf("ign"), wrap("seq", leaf("any")), wrap("map", leaf("str"), leaf("any")), wrap("seq", wrap("seq", leaf("u8"))), wrap("opt", leaf("bool"))]), t)
        S = leaf("str")
        # quotes, escapes and what may not be in a string, in every order and place
        bits = [b'\\"', b"\\\\", b"\\n", b"\\u0022", b"a", b"\n", b"\x00", b"\xff", b"\\q"]
        places = [(S, b'"%s"'), (leaf("ign"), b'"%s"'), (leaf("ign"), b'["%s"]'), (leaf("any"), b'"%s"'), (leaf("bytes"), b'"%s"'), (nd("struct", c=[field("a", leaf("u8"), 1)]), b'{"z":"%s"}'), (nd("struct", c=[field("a", leaf("u8"), 1)]), b'{"%s":[]}'),
                  (wrap("map", leaf("ign"), leaf("ign")), b'{"%s":"%s"}'), (wrap("map", S, leaf("u8")), b'{"%s":1}'), (leaf("ign"), b'{"%s":1}')]
        for n in (1, 2, 3):
            for w in itertools.product(bits, repeat=n):
                for sh, d in (places if n < 3 else [g.pick(places)]): add(0, sh, d.replace(b"%s", b"".join(w)))
        for c in range(256):
            if chr(c) in '"\\/bfnrtu': continue
            add(0, S, b'"\\' + bytes([c]) + b'"')
        for c in range(0x20): add(0, S, b'"a' + bytes([c]) + b'"'); add(0, leaf("ign"), b'"a' + bytes([c]) + b'"'); add(0, leaf("bytes"), b'"' + bytes([c]) + b'"'); add(0, leaf("ign"), b'"\\' + bytes([c]) + b'"')
        for t in (b"\\ud800", b"\\udbff", b"\\udc00", b"\\udfff", b"\\ud800\\u0041", b"\\ud800\\ud800", b"\\ud800\\n", b"\\ud800x", b"\\udc00\\ud800", b"\\ud83d\\u", b"\\ud83d\\ude0", b"\\ud83dude00", b"\\u12", b"\\u123g", b"\\u 123", b"\\u+123", b"\\u-001",
                  b"\\ud83d\\uDEGG", b"\\ud800\\udbff", b"\\ud800\\ue000", b"\\ud800\\\\udc00"):
            for p, s in ((b"", b""), (b"x", b"y"), (b"", b"\\n")):
                add(0, S, b'"' + p + t + s + b'"'); add(0, leaf("bytes"), b'"' + p + t + s + b'"'); add(0, leaf("any"), b'["' + p + t + s + b'"]')
        for n in range(0, 14):
            for x, y in ((b"", b""), (b"a", b"b"), (b"\\\"", b""), (b"", b"\"")):
                for sh, w in ((S, b'"%s"'), (leaf("ign"), b'"%s"'), (leaf("ign"), b'["%s"]'), (leaf("any"), b'"%s"'), (wrap("map", S, leaf("ign")), b'{"%s":"%s"}'), (nd("struct", c=[field("a", leaf("u8"), 1)]), b'{"z":"%s"}')):
                    if g.p(.6): add(0, sh, w.replace(b"%s", x + b"\\" * n + y))
        bad8 = [b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xc3(", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe2\x82", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\xf0\x9f\x98", b"\xf8\x88\x80\x80\x80"]
        for t in bad8:
            for sh, w in ((S, b'"%s"'), (leaf("string"), b'"a%s"'), (leaf("char"), b'"%s"'), (leaf("any"), b'["%s"]'), (wrap("map", S, leaf("any")), b'{"%s":1}'), (wrap("map", leaf("any"), leaf("any")), b'{"\\n%s":1}'),
                          (nd("struct", c=[field("a", leaf("u8"))]), b'{"%s":1}'), (nd("enum", c=[nd("uvar", b=b"A")]), b'"%s"'), (leaf("any"), b'%s'), (leaf("ign"), b'{"%s":1}')):
                add(0, sh, w.replace(b"%s", t))
        for w in (b"true", b"false", b"null"):
            for sh in (leaf("bool"), leaf("unit"), wrap("opt", leaf("bool")), leaf("any"), leaf("ign"), leaf("f64"), leaf("ustruct")):
                for i in range(1, len(w)):
                    for t in (w[:i], w[:i] + b"X" + w[i + 1:], w[:i] + w[i:i + 1].upper() + w[i + 1:], w[:i] + b" " + w[i:]): add(0, sh, t); add(0, wrap("seq", sh), b"[" + t + b"]")
                add(0, sh, w + b"x"); add(0, sh, w + w); add(0, sh, w.upper())
        # something between the bytes of one token
        en = nd("enum", c=[nd("uvar", b=b"A")])
        toks = [(b"-5", leaf(k)) for k in INTS] + [(b"12", leaf(k)) for k in INTS] + [(t, leaf(k)) for t in (b"-5", b"-1.5", b"12e7", b"0.25E-3", b"10") for k in ("f32", "f64", "any", "ign")] + [(b"true", leaf("bool")), (b"null", leaf("unit")), (b"null", wrap("opt", leaf("i8"))), (b"-7", wrap("opt", leaf("i8"))), (b'"A"', en)]
        for t, sh in toks:
            for i in range(1, len(t)):
                for x in (b" ", b"\n", g.pick([b"\t", b"\r", b"  ", b"\x00", b"-", b"+", b"_", b",", b"\x0c"])):
                    if sh["k"] == "enum" and x == b"\n": continue
                    t2 = t[:i] + x + t[i:]; add(0, sh, t2)
                    w = g.r.randrange(4)
                    if w == 0: add(0, wrap("seq", sh), b"[" + t2 + b"]")
                    elif w == 1: add(0, wrap("map", leaf("str"), sh), b'{"a":' + t2 + b"}")
                    elif w == 2: add(0, nd("struct", c=[field("a", sh)]), b'{"a":' + t2 + b"}")
                    elif sh["k"] in INTS or sh["k"] == "bool": add(0, wrap("map", sh, leaf("ign")), b'{"' + t2 + b'":1}')
        # what follows the value
        for t, sh in ((b"1", leaf("u8")), (b"null", leaf("unit")), (b'"a"', S), (b"[]", wrap("seq", leaf("u8"))), (b"{}", wrap("map", S, S)), (b"true", leaf("bool")), (b"[1]", leaf("any")), (b"{}", leaf("ign")), (b"1.5", leaf("f64")),
                      (b'"A"', nd("enum", c=[nd("uvar", b=b"A")])), (b'{"B":1}', nd("enum", c=[nd("nvar", b=b"B", c=[leaf("u8")])])), (b'"00"', leaf("bytes"))):
            for x in (b" ", b"\t\r\n ", b",", b"]", b"}", b"x", b"\x00", b"\x0b", b"\x0c", b"\xa0", b"\xef\xbb\xbf", b" 1", b"\n{}", b'"', b"//", b"1", b"."): add(0, sh, t + x)
            add(0, sh, b"\xef\xbb\xbf" + t); add(0, sh, b"\x0b" + t); add(0, sh, b"," + t)
        for n in range(0, 5):
            for m in range(0, 5):
                t = b"[" + b",".join([b"1"] * n) + b"]"
                for sh in (nd("tuple", c=[leaf("u8")] * m), nd("tstruct", c=[leaf("any")] * m), nd("struct", c=[field("f%d" % i, leaf("ign")) for i in range(m)])): add(0, sh, t)
                add(0, nd("enum", c=[nd("tvar", b=b"T", c=[leaf("u8")] * m)]), b'{"T":' + t + b"}")
        if self.models:
            for sc, n, d in (("string", 2000, (4, 5)), ("escape", 2000, (6, 7)), ("utf8", 1500, (4, 4)), ("number", 1000, (3, 4)), ("array", 2000, (4, 6)), ("object", 2000, (4, 6)), ("key", 1000, (4, 4)), ("word", 1500, (3, 4))): out += self.gjson(sc, n, d, lambda x: x["e"] != "")
        lg = self.j("C05lanes")
        for sh, t in self.lanede(lg, self.n(90), True): add(0, sh, t)
        for sh, t in self.lanews(lg, self.n(40)): add(0, sh, t)
        for k, t in self.lanenum(lg, self.n(30)): add(0, *g.pick([(leaf(k), t), (wrap("seq", leaf(k)), b"[" + t + b"]"), (wrap("map", leaf(k), leaf("u8")), b'{"' + t + b'":1}'), (leaf("any"), t), (leaf("f64"), t), (leaf("bytes"), b"[" + t + b"]"), (leaf("ign"), b"[" + t + b"]")]))
        out += self.tyd(g, "j", 7, True)
        out += self.sj(g, 30, True)
        out += self.nestde(g, "j", "bad", 3)
        out += self.farof(self.j("C05far"), out, 300)
        return out, ["std", "none-r"]

    # -- C06 ------------------------------------------------------------------
    def C06(self):
        g = self.j("C06"); out = []
        def add(fl, sh, t): out.append(dict(op="jpre", fl=fl, sh=sh, **{"in": L(t)}))
        n = 0
        while n < self.n(260):
            fl, sh, t = self.jdoc(g, depth=g.pick([1, 2, 3]), maxlen=70)
            n += 1; add(fl, sh, t)
            if g.p(.3): add(fl, leaf("any"), t)
            if g.p(.3): add(fl, leaf("ign"), t)
        S = leaf("str")
        for t in (b'"a\\u00e9\\uD83D\\uDE00\\n\\\\"', b'"\xf0\x9f\x98\x80\xc3\xa9"', b'"\\"\\/"'):
            for sh in (S, leaf("any"), leaf("ign"), leaf("bytes")): add(0, sh, t)
        add(1, leaf("bytes"), b'"00ffAb"'); add(2, leaf("bytes"), b'"AAECAwQ="'); add(2, leaf("bytes"), b'"AAEC"'); add(0, leaf("bytes"), b"[1,22,255]")
        for t in (b"true", b"false", b"null"):
            for sh in (leaf("any"), leaf("ign")): add(0, sh, t); add(0, wrap("seq", sh), b"[" + t + b"]")
        if self.models:
            for sc, n, d in (("string", 300, (4, 5)), ("escape", 200, (6, 7)), ("utf8", 300, (4, 4)), ("number", 300, (3, 4)), ("array", 400, (4, 6)), ("object", 400, (4, 6)), ("key", 300, (4, 4)), ("bytes", 300, (4, 4)), ("word", 300, (3, 4))):
                out += [dict(x, op="jpre") for x in self.gjson(sc, n, d)]
        out += self.sj(g, 8, False, most=260, op="jpre")
        out += self.nestde(g, "j", "cut", 2)
        return out, ["std", "none-r"]

    # -- C07 ------------------------------------------------------------------
    def C07(self):
        g = self.j("C07"); out = []
        leafs = ["str", "bytes", "str", "bytes", "u8", "bool", "f64"]
        def bshape(d):
            t = g.r.random()
            if d == 0 or t < .2: return leaf(g.pick(leafs))
            if t < .45: return nd("tuple", c=[bshape(d - 1) for _ in range(g.r.randrange(1, 5))])
            if t < .6: return wrap("seq", bshape(d - 1))
            if t < .75: return wrap("map", g.pick([leaf("str"), leaf("bytes"), leaf("str"), leaf("u16")]), bshape(d - 1))
            if t < .9: return nd("struct", c=[field(x, bshape(d - 1)) for x in g.names(g.r.randrange(1, 4))])
            if t < .95: return leaf("any")
            return nd("enum", c=[nd("nvar", b=b"E\xc3\xa9", c=[bshape(d - 1)]), nd("tvar", b=b"T", c=[bshape(d - 1), bshape(d - 1)])])
        for _ in range(self.n(900)):
            fl = g.r.randrange(3)
            while True:
                sh = bshape(g.pick([1, 2, 3]))
                t = g.doc(sh, fl, 200)
                if len(t) > 4: break
            out.append(dict(op="jde", fl=fl, sh=sh, **{"in": L(t)}))
            if g.p(.25): out.append(dict(op="jde", fl=fl, sh=sh, **{"in": L(g.mutate(t))}))
            if g.p(.1): out.append(dict(op="jde", fl=fl, sh=leaf("any"), **{"in": L(t)}))
        # several byte strings side by side, every flavor and length
        for fl in range(3):
            for n in range(0, 9):
                for m in (0, 1, 2, 3):
                    a, b = bytes(range(n)), bytes(range(100, 100 + m))
                    t = b"[" + g.bytetext(a, fl) + b"," + g.bytetext(b, fl) + b',"\\u0041z\\n",' + g.bytetext(a, fl) + b"]"
                    out.append(dict(op="jde", fl=fl, sh=nd("tuple", c=[leaf("bytes"), leaf("bytes"), leaf("str"), leaf("bytes")]), **{"in": L(t)}))
        # text of every length between escapes
        for fl in range(3):
            for sh, t in self.runde(g, fl, 2 if self.k > 12 else 1): out.append(dict(op="jde", fl=fl, sh=sh, **{"in": L(t)}))
        if self.models:
            for sc in ("plain", "hex", "b64"): out += self.inplace(sc, 2000)
            for sc, n, d in (("string", 500, (4, 5)), ("escape", 700, (6, 7)), ("utf8", 500, (4, 4))): out += self.gjson(sc, n, d)
        out += self.sj(g, 20, False, lambda y: y["k"] in ("str", "bytes"))
        out += self.farof(self.j("C07far"), out, 250)
        return out, ["std-r", "std", "none-r"]

    # -- C08 ------------------------------------------------------------------
    def C08(self):
        g = self.j("C08"); out = []
        def enc(b):
            out.append(dict(op="b64e", b=L(b))); out.append(dict(op="hexs", b=L(b)))
        for n in range(0, 8):
            for f in (0, 255, 0x55, 1): enc(bytes([f] * n))
        for x in range(256): enc(bytes([x])); enc(bytes([x, 255 - x, x ^ 0x5a])); enc(bytes([0, x]))
        for _ in range(self.n(120)): enc(bytes(g.r.randrange(256) for _ in range(g.r.randrange(2, 40))))
        AL = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
        def dec(b): out.append(dict(op="b64d", b=L(b)))
        for x in range(256):
            dec(bytes([x])); dec(bytes([65, x])); dec(b"QUJD" + bytes([x]) + b"QUJD")
            if x not in (34, 92) and x >= 32: out.append(dict(op="jde", fl=2, sh=leaf("bytes"), **{"in": L(b'"QUI' + bytes([x]) + b'"')}))
            if x not in (34, 92): out.append(dict(op="jde", fl=1, sh=leaf("bytes"), **{"in": L(b'"0' + bytes([x]) + b'1f"')}))
        for i in range(4):
            for x in range(64): s = bytearray(b"AAAA"); s[i] = AL[x]; dec(bytes(s)); s = bytearray(b"////"); s[i] = AL[x]; dec(bytes(s) + b"Zg==")
        for _ in range(self.n(250)):
            n = g.r.randrange(0, 24); s = bytes(g.pick(AL) for _ in range(n)) + g.pick([b"", b"=", b"==", b"===", b"-", b"_", b"!AAAA", b" ", b"\x00", b"\"", b"\x80"]) + bytes(g.pick(AL) for _ in range(g.r.randrange(0, 4)))
            dec(s)
        def de(fl, t): out.append(dict(op="jde", fl=fl, sh=leaf(g.pick(["bytes", "bytebuf"])), **{"in": L(t)}))
        for fl in range(3):
            for n in list(range(0, 13)) + [30, 31]:
                for _ in range(3 * self.k):
                    b = bytes(g.r.randrange(256) for _ in range(n))
                    out.append(dict(op="jrt", fl=fl, v=text("bytes", b), sh=leaf(g.pick(["bytes", "bytebuf"]))))
                    de(fl, g.bytetext(b, fl)); de(g.r.randrange(3), b"[" + b" , ".join(str(x).encode() for x in b) + b"]")
        for t in (b'"0"', b'"000"', b'"0g"', b'"g0"', b'"0 "', b'" 00"', b'"00 "', b'"\\u0030\\u0030"', b'"00', b'"0', b'"', b'""', b'"AbcDEf"', b'"ABCDEF0123456789abcdef"', b'"0x00"', b'null', b'1', b'{}', b'true'): de(1, t)
        for t in (b'""', b'"="', b'"=="', b'"Q"', b'"Q="', b'"QQ"', b'"QQ="', b'"QQ=="', b'"QQ==="', b'"QUI"', b'"QUI="', b'"QUI=="', b'"QUJD"', b'"QUJD="', b'"QU=JD"', b'"QU JD"', b'"QUJD\\n"', b'"QUJ-"', b'"QUJ_"', b'"QR=="', b'"QUJDR"', b'"Q', b'"QQ', b'"QQ=', b'"',
                  b'"\xc3\xa9"', b'null', b'1', b'{}', b'"QUJDRA==" ', b'"QUJDRA"x'): de(2, t)
        for t in (b"[]", b"[ ]", b"[0]", b"[255]", b"[256]", b"[-1]", b"[1.0]", b"[1e1]", b"[1,]", b"[,1]", b"[1 2]", b'["1"]', b"[null]", b"[1,2", b"[1,2}", b"[00]", b"[01]", b"[ 1 , 2 ]", b"[1,2]]", b"[[1]]", b"[300,1]", b"[1,1000000000000000000000]"):
            for fl in range(3): de(fl, t)
        big = [256 * a + d for a in (1, 2, 3, 10, 25, 100, 255, 256, 257) for d in (0, 1, 5, 44, 255)] + [65535, 65536, 65535 + 256, 99999, 1 << 16, (1 << 16) + 7, (1 << 24) + 7, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, (1 << 64) - 1, 1 << 64, (1 << 64) + 7, 300, 1000, 2550, 2559, 2560, 999]
        big += [int("%d%d" % (a, b)) for a in (25, 26, 99, 100, 255) for b in range(10)]
        for z in big + [-z for z in big[:12]]:
            a = [g.r.randrange(256) for _ in range(g.r.randrange(0, 4))]; i = g.r.randrange(len(a) + 1)
            de(g.r.randrange(3), b"[%d]" % z); de(g.r.randrange(3), ("[" + ",".join(str(y) for y in a[:i] + [z] + a[i:]) + "]").encode())
        for t in (b'"\\u0000\\u00ff\xff\xfe"', b'"\xc3"', b'"\\n\\"\\\\"', b'"a\x01"', b'"\\ud800"', b'"\\q"', b'"\xed\xa0\x80"', b'""', b'"abc'): de(0, t)
        for fl in (0, 1, 2):
            for n in (1000, 4097, 32767, 32768, 49151, 49152, 65535, 65536, 65537, 70001): out.append(dict(op="big", fmt="j", fl=fl, kind="bytes", n=n))
        for fl in (1, 2):
            for n in (300, 5000): 
                b = bytes(g.r.randrange(256) for _ in range(n)); out.append(dict(op="jrt", fl=fl, v=text("bytes", b), sh=leaf("bytes"))); out.append(dict(op="b64e", b=L(b))); out.append(dict(op="hexs", b=L(b)))
                de(fl, b'"' + (b.hex().encode() if fl == 1 else __import__("base64").b64encode(b)) + b'"x'); de(fl, b'["' + b"A" * n + b'"]')
        if self.models:
            out += self.gjson("bytes", 5000)
            for sc in ("hex", "b64"): out += self.inplace(sc, 700)
        out += self.sj(g, 8, False, lambda y: y["k"] in ("bytes", "bytebuf"))
        out += self.farof(self.j("C08far"), out, 250)
        return out, ["std", "none-r"]

    # -- C09 ------------------------------------------------------------------
    def C09(self):
        g = self.m("C09"); out = []
        def j(sh, t): out.append(dict(op="jde", fl=0, sh=sh, **{"in": L(t)}))
        def m(sh, t): out.append(dict(op="mde", sh=sh, **{"in": L(t)}))
        zs = set(BOUND)
        for k in INTS:
            lo, hi = irange(k)
            for d in (-1, 0, 1): zs |= {lo + d, hi + d}
            for e in (10, 100): zs |= {hi * e, hi * e + 9, hi + 10}
            zs |= {hi + (1 << 64), 1 << 64, (1 << 64) + 1, (1 << 64) + 5, (1 << 65) + 1, hi // 10 * 10 + 10}
        zs = sorted(zs)
        for k in INTS:
            lo, hi = irange(k)
            near = [z for z in zs if abs(z - lo) <= 11 or abs(z - hi) <= 11 or abs(z) <= 2]
            rest = g.r.sample(zs, min(len(zs), 45 * min(self.k, 6)))
            for z in set(near + rest):
                j(leaf(k), str(z).encode() + g.pick([b"", b" "]))
            for t in ("0", "-0", "00", "01", "-01", "+1", "1.0", "1e0", "1.", "-", "", "0x1", "- 1", "--1", "1_0", "9" * 20, "1" + "0" * 25, "0" * 30, "000000000000000000000001", "a", "null", "true", '"1"', "[1]", "12a", "1 2", "1,2"):
                j(leaf(k), t.encode()); 
                if g.p(.5): j(wrap("seq", leaf(k)), b"[" + t.encode() + b"]")
            # every digit at the end of the longest numbers
            for d in range(10):
                for base in (str(hi)[:-1], str(lo)[:-1] if lo else str(hi)[:-1], str(hi)): j(leaf(k), base.encode() + str(d).encode())
        for k, t in self.lanenum(self.m("C09lanes"), self.n(60)):
            if g.p(.5): j(leaf(k), t)
            else: out.append(dict(op="jcur", fl=0, ops=[dict(o="num", k=k), dict(o="input"), dict(o="end")], **{"in": L(t)}))
            if g.p(.3): j(wrap("map", leaf(k), leaf("unit")), b'{"' + t + b'":null}')
        # written, in both formats
        for k in INTS:
            lo, hi = irange(k)
            for z in {z for z in zs if lo <= z <= hi} | {g.digits(k) for _ in range(15 * self.k)} | {g.anint(k) for _ in range(5 * self.k)}:
                out.append(dict(op="jser", fl=0, v=intv(k, z))); out.append(dict(op="jrt", fl=0, v=intv(k, z), sh=leaf(k)))
                if g.p(.4): out.append(dict(op="mrt", fl=0, v=intv(k, z), sh=leaf(k)))
                if g.p(.1): out.append(dict(op="jrt", fl=0, v=nd("map", n=1, c=[intv(k, z), intv(k, z)]), sh=wrap("map", leaf(k), leaf(k))))
        for _ in range(10 * self.k):
            k = g.pick(INTS); k2 = g.pick(INTS); j(leaf(k2), str(g.digits(k)).encode())
        for k in INTS + ["f32", "f64"]:
            for z in range(-32, 128):
                if k in ("u8", "i8", "f32") or z in (-32, -1, 0, 1, 127): m(leaf(k), bytes([z % 256]))
            for w, cu, ci in ((1, 0xcc, 0xd0), (2, 0xcd, 0xd1), (4, 0xce, 0xd2), (8, 0xcf, 0xd3)):
                vals = {0, 1, (1 << (8 * w)) - 1, 1 << (8 * w - 1), (1 << (8 * w - 1)) - 1}
                for kk in INTS:
                    lo, hi = irange(kk)
                    for d in (-1, 0, 1): vals |= {lo + d, hi + d}
                for e in (24, 25, 53, 54, 31, 32, 63): vals |= {(1 << e) + d for d in (-1, 0, 1, 2, 3)} | {-(1 << e) + d for d in (-1, 0, 1, 2)}
                for _ in range(4 * self.k): vals.add(g.r.getrandbits(8 * w))
                for z in vals:
                    if -(1 << (8 * w)) < z < 1 << (8 * w):
                        b = (z % (1 << (8 * w))).to_bytes(w, "big")
                        if self.tier == "quick" and w > 2 and not g.p(.5): continue
                        m(leaf(k), bytes([cu]) + b); m(leaf(k), bytes([ci]) + b)
            if k in INTS:
                for t in (b"\xca\x3f\x80\0\0", b"\xcb\x3f\xf0\0\0\0\0\0\0", b"\xc0", b"\xc2", b"\xa11", b"\x90", b"\x80", b"\xc4\x01\x01", b"\xc1", b"\xd4\x01\x01", b""): m(leaf(k), t)
        for _ in range(self.n(40)):
            for z in g.nearmid(): m(leaf("f32"), g.int(z)); m(leaf("f64"), g.int(z))
        for t in [b"\xca" + be(g.r.getrandbits(32), 4) for _ in range(20)] + [b"\xcb" + g.f64near32() for _ in range(60 * self.k)]:
            m(leaf("f32"), t); m(leaf("f64"), t)
        if self.models:
            out += [x for x in self.gjson("number", 3000, (3, 4)) if x["sh"]["k"] in INTS]
            out += [x for x in self.gmp("scalar", 4000, (2, 3)) if x["sh"]["k"] in INTS]
        out += self.farof(self.j("C09far"), out, 150)
        return out, ["std", "std-r", "none-r"]

    # -- C10 ------------------------------------------------------------------
    def C10(self):
        g = self.m("C10"); out = []
        for v in self.leaves(g): out.append(dict(op="mser", fl=g.r.randrange(3), v=v))
        for _ in range(self.n(250)): out.append(dict(op="mser", fl=0, v=g.floatv(g.pick(["f32", "f64"]))))
        for _ in range(self.n(200)):
            k = g.pick(INTS); out.append(dict(op="mser", fl=0, v=intv(k, g.anint(k))))
        for n in (0, 1, 14, 15, 16, 17, 31, 32, 33, 255, 256, 257):
            out.append(dict(op="mser", fl=0, v=text("str", "s" * n))); out.append(dict(op="mser", fl=0, v=text("bytes", b"b" * n))); out.append(dict(op="mser", fl=0, v=g.cstr(b"c" * n)))
            if n <= 33:
                for k in ("seq", "tuple", "tstruct", "tvar"): out.append(dict(op="mser", fl=g.r.randrange(3), v=nd(k, n=n, b=b"V" if k == "tvar" else b"", c=[leaf("unit")] * n)))
                out.append(dict(op="mser", fl=0, v=nd("map", n=n, c=[boolv(1)] * (2 * n))))
                for fl in range(3):
                    fs = [field("f%d" % i, leaf("unit")) for i in range(n)]
                    out.append(dict(op="mser", fl=fl, v=nd("struct", n=n, c=fs))); out.append(dict(op="mser", fl=fl, v=nd("svar", n=n, i=n * 9, b=b"V" * n, c=fs)))
        for s in ("é" * 15, "é" * 16, "é" * 15 + "x", "😀" * 8, "😀" * 7 + "abc", "é" * 127 + "x", "é" * 128): out.append(dict(op="mser", fl=0, v=text("str", s))); out.append(dict(op="mser", fl=0, v=g.cstr(s.encode())))
        for i in (0, 1, 127, 128, 255, 256, 65535, 65536):
            for fl in range(3):
                out.append(dict(op="mser", fl=fl, v=nd("uvar", i=i, b=b"V"))); out.append(dict(op="mser", fl=fl, v=nd("nvar", i=i, b=b"V", c=[intv("u8", 1)])))
        fs = [nd("skip", b=b"s")] * 126 + [field("f%d" % i, leaf("unit")) for i in range(4)]
        for fl in (1, 2): out.append(dict(op="mser", fl=fl, v=nd("struct", n=4, c=fs)))
        for kind in ("str", "cstr", "bytes", "seq", "tuple", "map"):
            for n in (15, 16, 31, 32, 255, 256, 65535, 65536, 65537): out.append(dict(op="big", fmt="m", fl=g.r.randrange(3), kind=kind, n=n))
        for _ in range(self.n(300)):
            out.append(dict(op="mser", fl=g.r.randrange(3), v=self.small(lambda: g.anyvalue(g.pick([1, 2, 3])), 50)))
        if self.models:
            for sc, d in (("mixed", (4, 5)), ("enum", (4, 5))):
                for x in self.gser(sc, 500, d): out.append(dict(op="mser", fl=g.r.randrange(3), v=x["v"]))
        out += self.sv(g, "m", 15, "mser")
        out += self.nestser(g, "m", (0, 1, 2), 1)
        return out, ["std", "none-r"]

    # -- C11 ------------------------------------------------------------------
    def wronglen(self, g, v, p=.25):
        w = dict(v)
        if v["k"] in ("seq", "map", "tuple", "tstruct", "tvar", "struct", "svar") and g.p(p):
            w["n"] = max(0, v["n"] + g.pick([-1, 1, 2, -2, 14, 15])) if g.p(.85) or v["k"] not in ("seq", "map") else -1
        w["c"] = [self.wronglen(g, x, p) for x in v["c"]]
        return w
    def C11(self):
        g = self.m("C11"); out = []
        for fl in range(3):
            for pat in itertools.product([0, 1], repeat=4):
                fs = [field(x, intv("u16", 300)) if p else nd("skip", b=x.encode()) for p, x in zip(pat, ("a", "bb", "", "ж"))]
                for k in ("struct", "svar"):
                    for dn in (0, 1, -1):
                        if sum(pat) + dn >= 0: out.append(dict(op="mser", fl=fl, v=nd(k, n=sum(pat) + dn, i=5, b=b"Var" if k == "svar" else b"", c=fs)))
            for k in ("seq", "tuple", "tstruct", "tvar"):
                for n in (0, 1, 2, 3, 15, 16):
                    for m in (0, 1, 2, 3, 15, 16):
                        if abs(n - m) <= 2: out.append(dict(op="mser", fl=fl, v=nd(k, n=n, i=200, b=b"V" if k == "tvar" else b"", c=[nd("seq", n=0)] * m)))
            for n in (-1, 0, 1, 2, 3):
                for m in (0, 1, 2, 3):
                    out.append(dict(op="mser", fl=fl, v=nd("map", n=n, c=[text("str", "k"), nd("map", n=0)] * m)))
                    out.append(dict(op="mser", fl=fl, v=nd("seq", n=1, c=[nd("map", n=n, c=[text("str", "k"), leaf("none")] * m)])))
                out.append(dict(op="mser", fl=fl, v=nd("seq", n=n, c=[leaf("unit")])))
        for _ in range(self.n(900)):
            v = self.small(lambda: g.anyvalue(g.pick([1, 2, 3, 3, 4])), 60)
            if g.p(.5): v = self.wronglen(g, v)
            out.append(dict(op="mser", fl=g.r.randrange(3), v=v))
        for _ in range(self.n(120)):      # struct and enum heavy
            v = self.small(lambda: g.value(g.structshape(3)), 80); fl = g.r.randrange(3); out.append(dict(op="mser", fl=fl, v=v))
            v = self.small(lambda: g.value(g.enumshape(3)), 80); out.append(dict(op="mser", fl=fl, v=v))
        for a, b in (("", ""), ("ab", "ab"), ("a", "bb"), ("abc", "a"), ("", "x"), ("x", ""), ("s" * 31, "s" * 32), ("s" * 40, "s" * 20)):
            for v in (nd("cstr", n=2, c=[text("str", a), text("str", b)]),): out.append(dict(op="mser", fl=0, v=v, only="nostd")); out.append(dict(op="mser", fl=0, v=nd("seq", n=2, c=[v, leaf("unit")]), only="nostd"))
        out.append(dict(op="mser", fl=0, v=nd("cstr", n=1, c=[text("str", "ab")]), only="nostd"))
        for kind in ("str", "cstr", "bytes", "seq", "tuple", "map"):
            for n in (65535, 65536): out.append(dict(op="big", fmt="m", fl=g.r.randrange(3), kind=kind, n=n))
        if self.models:
            for sc, d in (("mixed", (4, 5)), ("seq", (4, 5)), ("map", (5, 5)), ("struct", (6, 8)), ("enum", (4, 5))):
                for x in self.gser(sc, 900, d):
                    for fl in range(3): out.append(dict(op="mser", fl=fl, v=x["v"]))
        out += [dict(op="mser", fl=fl, v=v) for fl, v, sh in self.wide(g)]
        for n in (255, 256, 257):
            for fl in range(3): out.append(dict(op="mser", fl=fl, v=nd("svar", n=n, i=n, b=b"V", c=[field("f%d" % i, boolv(i % 2)) for i in range(n)])))
        out += self.ty("m", 1)
        out += self.sv(g, "m", 20, "mser")
        out += self.nestser(g, "m", (0, 1, 2), 2)
        return out, ["std", "none-r"]

    # -- C12 ------------------------------------------------------------------
    def C12(self):
        g = self.m("C12"); out = []
        for _ in range(self.n(1200)):
            while True:
                sh = g.shape(g.pick([1, 2, 3, 3, 4])); v = g.value(sh)
                if size(v) <= 60: break
            fl = g.r.randrange(3)
            out.append(dict(op="mrt", fl=fl, v=noskip(v) if fl == 0 else v, sh=sh))
        for v in self.leaves(g):
            if v["k"] in ("f32", "f64", "char") or (v["k"] in INT_BITS and g.p(.5)): out.append(dict(op="mrt", fl=0, v=v, sh=leaf(v["k"])))
            if v["k"] in ("cstr", "str"): out.append(dict(op="mrt", fl=0, v=v, sh=leaf("str")))
        for kind in ("str", "bytes", "seq", "map", "tuple", "cstr"): out.append(dict(op="big", fmt="m", fl=g.r.randrange(3), kind=kind, n=self.pickn(g)))
        out += [dict(op="mrt", fl=fl, v=v, sh=sh) for fl, v, sh in self.wide(g)]
        if self.models:
            for sc, d in (("mixed", (4, 5)), ("seq", (4, 5)), ("map", (5, 5)), ("struct", (6, 8)), ("enum", (4, 5)), ("key", (5, 5))):
                for x in self.gser(sc, 600, d):
                    if x["sh"]["k"] == "null": continue
                    for fl in range(3):
                        if fl or not x["hs"]: out.append(dict(op="mrt", fl=fl, v=x["v"], sh=x["sh"]))
        out += self.ty("m", 3)
        out += self.sv(g, "m", 25, "mrt")
        out += self.nestser(g, "m", (0, 1, 2), 3)
        return out, ["std", "none-r"]
    def wide(self, g):
        """types with more members than one byte can number"""
        for n in (127, 128, 129, 255, 256, 257, 300):
            sh = nd("struct", c=[field("f%d" % i, leaf("u8") if i % 7 else wrap("opt", leaf("bool"))) for i in range(n)])
            for fl in range(3):
                c = [field("f%d" % i, intv("u8", i % 256)) if i % 7 else (nd("skip", b=b"f%d" % i) if fl and i % 2 else field("f%d" % i, leaf("none"))) for i in range(n)]
                yield fl, nd("struct", n=sum(x["k"] == "field" for x in c), c=c), sh
            en = nd("enum", c=[nd("uvar", b=b"v%d" % i) if i % 3 else nd("nvar", b=b"v%d" % i, c=[leaf("u8")]) for i in range(n)])
            for i in sorted({0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 258, n - 1}):
                if i < n:
                    for fl in (0, 2): yield fl, (nd("uvar", i=i, b=b"v%d" % i) if i % 3 else nd("nvar", i=i, b=b"v%d" % i, c=[intv("u8", 7)])), en

    # -- C13 ------------------------------------------------------------------
    SHAPES1 = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "char", "str", "bytes", "unit", "ustruct", "hr", "any", "ign", "bytebuf", "string"]
    def C13(self):
        g = self.m("C13"); out = []
        def m(sh, t): out.append(dict(op="mde", sh=sh, **{"in": L(t)}))
        shapes = [leaf(k) for k in self.SHAPES1] + [wrap("opt", leaf("u8")), wrap("seq", leaf("any")), wrap("map", leaf("any"), leaf("any")), nd("tuple", c=[leaf("any")]), nd("tuple"),
                  nd("struct", c=[field("a", leaf("any"))]), nd("enum", c=[nd("uvar", b=b"a"), nd("nvar", b=b"b", c=[leaf("any")]), nd("tvar", b=b"c", c=[leaf("any")]), nd("svar", b=b"d", c=[field("x", leaf("any"))])]), wrap("nstruct", leaf("i8"))]
        for _ in range(self.n(60)):
            for z in g.nearmid(): m(leaf("f32"), g.int(z)); m(leaf("f64"), g.int(z))
        for n in (128, 256, 300):
            sh = nd("struct", c=[field("f%d" % i, leaf("u8"), 1) for i in range(n)]); en = nd("enum", c=[nd("uvar", b=b"v%d" % i) for i in range(n)])
            for i in (0, 1, 44, 127, 128, 254, 255, 256, 257, 299, 300, 511, 512, 65535):
                for w, c in ((1, 0xcc), (2, 0xcd), (4, 0xce)):
                    if i < 1 << (8 * w): m(sh, b"\x81" + bytes([c]) + be(i, w) + b"\x05"); m(en, bytes([c]) + be(i, w)); m(en, b"\x81" + bytes([c]) + be(i, w) + b"\x05")
        tails = [b"", b"\x00", b"\x01a", b"\x00\x00\x01\x61\x00" + bytes(16)]
        for sh in shapes:
            for c in range(256):
                for t in ((g.pick(tails),) if self.tier == "quick" else tails): m(sh, bytes([c]) + t)
        for _ in range(self.n(900)):
            sh = g.shape(g.pick([0, 1, 2, 3, 3])); m(sh, g.msg(sh))
        for _ in range(self.n(700)):
            sh = g.shape(g.pick([0, 1, 2, 3])); m(sh, g.mutate(g.msg(sh, 80)))
        for _ in range(self.n(200)): m(g.shape(g.pick([0, 1, 2])), g.junk())
        for n in range(0, 4):
            for k in range(0, 4):
                for h in (lambda n: bytes([0x90 + n]), lambda n: b"\xdc" + be(n, 2), lambda n: b"\xdd" + be(n, 4)):
                    t = h(n) + b"\x07" * n
                    m(nd("tuple", c=[leaf("u8")] * k), t); m(nd("tstruct", c=[leaf("u8")] * k), t); m(nd("struct", c=[field("f%d" % i, leaf("u8")) for i in range(k)]), t)
                    m(nd("struct", c=[field("f%d" % i, wrap("opt", leaf("u8")), 1) for i in range(k)]), t); m(nd("enum", c=[nd("tvar", b=b"T", c=[leaf("u8")] * k)]), b"\x81\x00" + t)
                    m(nd("enum", c=[nd("svar", b=b"T", c=[field("f%d" % i, leaf("u8")) for i in range(k)])]), b"\x81\xa1T" + t)
        for _, sh, t in self.parted(g, "m", 60):
            m(sh, t)
            if g.p(.4): m(sh, g.mutate(t))
        st = nd("struct", c=[field("a", leaf("u8")), field("b", wrap("opt", leaf("bool"))), field("c", leaf("str"), 0)])
        for _ in range(self.n(250)):
            n = g.r.randrange(0, 5); t = g.maph(n)
            for _ in range(n):
                j = g.pick([0, 1, 2, 0, 1, 2, 3, 200]); t += g.ident(j, [b"a", b"b", b"c", b"zz"][min(j, 3)]) if g.p(.9) else g.junk(0)
                t += [b"\x07", g.pick([b"\xc0", b"\xc3"]), b"\xa1x", g.junk(1)][min(j, 3)]
            m(dict(st, n=g.r.randrange(2)), t)
        en = nd("enum", c=[nd("uvar", b=b"A"), nd("nvar", b=b"B", c=[leaf("u8")]), nd("tvar", b=b"C", c=[leaf("u8"), leaf("u8")]), nd("svar", b=b"D", c=[field("x", leaf("u8"))])])
        for j, nm in ((0, b"A"), (1, b"B"), (2, b"C"), (3, b"D"), (4, b"E"), (255, b"a")):
            for w in (b"", b"\x80", b"\x81", b"\x82", b"\xde\x00\x01", b"\x91"):
                for body in (b"", b"\x07", b"\x92\x01\x02", b"\x81\xa1x\x01", b"\x91\x01", b"\xc0"):
                    for idt in (bytes([j]) if j < 128 else b"\xcc\xff", g.str(nm), g.ident(j, nm)): m(en, w + idt + body)
        for idt in (b"\x00", b"\xcc\x00", b"\xcd\x00\x00", b"\xce\x00\x00\x00\x00", b"\xcf" + bytes(8), b"\xd0\x00", b"\xd1\x00\x00", b"\xff", b"\xc4\x01A", b"\xd9\x01A", b"\xda\x00\x01A", b"\xdb\x00\x00\x00\x01A", b"\xca\0\0\0\0", b"\xce\x01\x00\x00\x00", b"\xce\xff\xff\xff\xff", b"\xc0", b"\xc3"):
            m(en, idt); m(nd("struct", c=[field("A", leaf("u8"))]), b"\x81" + idt + b"\x05"); m(nd("struct", c=[field("A", leaf("u8"), 1)]), b"\x81" + idt + b"\x05")
        for t in (b"\x80", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"a\xc3", b"\xc0\x80"):
            for sh in (leaf("str"), leaf("string"), leaf("char"), leaf("any"), wrap("map", leaf("str"), leaf("u8"))):
                for h in (bytes([0xa0 + len(t)]), b"\xd9" + be(len(t), 1), b"\xda" + be(len(t), 2), b"\xdb" + be(len(t), 4)): m(sh, (b"\x81" if sh["k"] == "map" else b"") + h + t + b"\x01")
        for sh, t in self.lanemp(self.m("C13lanes"), self.n(60)): m(sh, t)
        if self.models:
            for sc, n, d in (("scalar", 3000, (2, 3)), ("struct", 2500, (3, 4)), ("array", 2000, (3, 4)), ("item", 1000, (3, 3))): out += self.gmp(sc, n, d)
        out += self.tyd(g, "m", 10, True)
        out += self.sm(g, 15) + self.sm(g, 15, True)
        out += self.nestde(g, "m", "any", 2) + self.nestde(g, "m", "typed", 3) + self.nestde(g, "m", "bad", 2)
        out += self.farof(self.j("C13far"), out, 300)
        return out, ["std", "none-r"]

    # -- C14 ------------------------------------------------------------------
    def C14(self):
        g = self.m("C14"); out = []
        for _ in range(self.n(260)):
            sh = g.shape(g.pick([0, 1, 2, 3])); t = g.msg(sh, 60)
            out.append(dict(op="mpre", sh=sh, **{"in": L(t)}))
            if g.p(.4): out.append(dict(op="mpre", sh=leaf(g.pick(["any", "ign"])), **{"in": L(t)}))
        for _ in range(self.n(500)):
            sh = g.shape(g.pick([0, 1, 2, 3])); t = g.msg(sh, 80) + g.pick([b"\xc0", b"\xc1", b"\xff", b"\x00\x01", bytes(range(8)), g.junk()])
            out.append(dict(op="mde", sh=sh, **{"in": L(t)}))
        for _, sh, t in self.parted(g, "m", 40):
            if g.p(.7): out.append(dict(op="mde", sh=sh, **{"in": L(t + g.pick([b"", b"\x01", b"\xc1"]))}))
            if g.p(.2): out.append(dict(op="mpre", sh=sh, **{"in": L(t)}))
        for _ in range(self.n(200)):       # back to back
            t = b""; ops = []
            for _ in range(g.r.randrange(2, 5)):
                if g.p(.2): t += g.junk(); ops.append(dict(o="skip"))
                else: sh = g.shape(g.pick([0, 1, 2])); t += g.msg(sh, 40); ops.append(dict(o="val", sh=sh))
            if g.p(.3): t = t[:-1]
            ops.append(dict(o="end")); out.append(dict(op="mcur", ops=ops, fl=0, **{"in": L(t)}))
        for k in self.SHAPES1:      # short inputs after each header
            for c in list(range(0xc0, 0xe0)) + [0x80, 0x81, 0x91, 0xa0, 0xa1, 0xbf]:
                for n in (0, 1, 3): out.append(dict(op="mde", sh=leaf(k), **{"in": [c] + [0] * n}))
        # announced lengths far beyond the input
        for h in (b"\xdb\xff\xff\xff\xff", b"\xdb\x7f\xff\xff\xff", b"\xc6\xff\xff\xff\xff", b"\xc6\x80\0\0\0", b"\xdd\xff\xff\xff\xff", b"\xdf\xff\xff\xff\xff", b"\xdf\x80\0\0\0", b"\xc9\xff\xff\xff\xff\x01", b"\xc8\xff\xff\x01", b"\xda\xff\xff", b"\xdc\xff\xff", b"\xde\xff\xff", b"\xdd\x10\0\0\0", b"\xdf\xff\xff\xff\xfe"):
            for body in (b"", b"\x01\x02\x03", b"\xa1a\x01"):
                for sh in (leaf("any"), leaf("ign"), leaf("str"), leaf("bytes"), wrap("seq", leaf("u8")), wrap("seq", leaf("any")), wrap("map", leaf("any"), leaf("any")), nd("tuple", c=[leaf("u8"), leaf("u8")]), nd("struct", c=[field("a", leaf("u8"))])):
                    out.append(dict(op="mde", sh=sh, **{"in": L(h + body)}))
        for kind in ("str", "bytes", "seq", "map"): out.append(dict(op="big", fmt="m", fl=0, kind=kind, n=self.pickn(g)))
        for n in (255, 256, 65535, 65536):
            ws = [w for w in (1, 2, 4) if n < 1 << (8 * w)]
            for w in ws:
                for c, tag, sh in ((0xc6 + {1: 1, 2: 2, 4: 3}[w], b"\x05", leaf("ign")), (0xc3 + {1: 1, 2: 2, 4: 3}[w], b"", leaf("bytes")), (0xd8 + {1: 1, 2: 2, 4: 3}[w], b"", leaf("str"))):
                    t = bytes([c]) + be(n, w) + tag + b"e" * n
                    for cut in (0, 1): out.append(dict(op="mde", sh=sh, **{"in": L(t[:len(t) - cut] if cut else t + b"\xc0\x01")})); 
                    out.append(dict(op="mde", sh=leaf("ign"), **{"in": L(t + b"\xc0")}))
        if self.models:
            for sc, n, d in (("item", 2000, (3, 3)), ("struct", 1500, (3, 4)), ("array", 2000, (3, 4)), ("ext", 2000, (3, 4))): out += self.gmp(sc, n, d)
        out += self.sm(g, 15) + self.sm(g, 15, True) + self.sm(g, 6, most=200, op="mpre")
        out += self.nestde(g, "m", "any", 1) + self.nestde(g, "m", "typed", 1) + self.nestde(g, "m", "cut", 2)
        out += self.farof(self.j("C14far"), out, 200)
        return out, ["std", "none-r"]

    # -- C15 ------------------------------------------------------------------
    def C15(self):
        g = self.m("C15"); jg = self.j("C15j"); out = []
        def m(sh, t): out.append(dict(op="mde", sh=sh, **{"in": L(t)}))
        def j(sh, t): out.append(dict(op="jde", fl=0, sh=sh, **{"in": L(t)}))
        st = nd("struct", c=[field("a", leaf("u8")), field("b", leaf("str"))])
        T = nd("tuple", c=[leaf("ign"), leaf("u8")]); MI = wrap("map", leaf("ign"), leaf("str"))
        for t in self.runs(jg, 1): j(nd("tuple", c=[leaf("ign"), leaf("str"), leaf("u8")]), b"[" + t + b"," + t + b",7]"); j(st, b'{"z":{' + t + b":[" + t + b']},"a":1,"b":' + t + b"}")
        items = [bytes([c]) for c in list(range(0, 128, 9)) + [0xc0, 0xc2, 0xc3, 0x80, 0x90, 0xa0, 0xe0, 0xff]]
        items += [b"\xcc\x01", b"\xcd\x01\x02", b"\xce\x01\x02\x03\x04", b"\xcf" + bytes(range(8)), b"\xd0\x81", b"\xd1\x81\x82", b"\xd2\x81\x82\x83\x84", b"\xd3" + bytes(range(0x81, 0x89)), b"\xca\x01\x02\x03\x04", b"\xcb" + bytes(range(8))]
        for n in (0, 1, 2, 31): items.append(bytes([0xa0 + n]) + b"\xc1" * n)
        for n in (0, 1, 5): items += [b"\xd9" + be(n, 1) + b"\xc1" * n, b"\xda" + be(n, 2) + b"\xc1" * n, b"\xdb" + be(n, 4) + b"\xc1" * n, b"\xc4" + be(n, 1) + b"\xc1" * n, b"\xc5" + be(n, 2) + b"\xc1" * n, b"\xc6" + be(n, 4) + b"\xc1" * n,
                                      b"\xc7" + be(n, 1) + b"\xc1" + b"\xc1" * n, b"\xc8" + be(n, 2) + b"\xc1" + b"\xc1" * n, b"\xc9" + be(n, 4) + b"\xc1" + b"\xc1" * n]
        for c, n in ((0xd4, 1), (0xd5, 2), (0xd6, 4), (0xd7, 8), (0xd8, 16)): items.append(bytes([c]) + b"\xc1" * (n + 1))
        for n in (0, 1, 2, 3): items += [bytes([0x90 + n]) + b"\xc0" * n, b"\xdc" + be(n, 2) + b"\xc0" * n, b"\xdd" + be(n, 4) + b"\xc0" * n, bytes([0x80 + n]) + b"\xa0" * (2 * n), b"\xde" + be(n, 2) + b"\xa0" * (2 * n), b"\xdf" + be(n, 4) + b"\xa0" * (2 * n)]
        items += [b"\x9f" + b"\x01" * 15, b"\x8f" + b"\x01" * 30, b"\xdc\x00\x10" + b"\x01" * 16, b"\xde\x00\x10" + b"\x01" * 32]
        for _ in range(self.n(150)): items.append(g.junk(3))
        for d in (1, 2, 5, 20, 60): items += [b"\x91" * d + b"\x01", b"\x81\x01" * d + b"\x02", b"\x92\x90" * d + b"\x01", b"\xdc\x00\x01" * d + b"\xa1x"]
        items += [b"\xc1", b"\x91\xc1", b"\x82\x01\x02\x03\xc1", b"\x92\x91\xc1\x01"]
        for x in items:
            if len(x) > 140: continue
            m(T, b"\x92" + x + b"\x2a"); m(st, b"\x83\xa1a\x07\xa1z" + x + b"\xa1b\xa2hi"); m(leaf("ign"), x + b"\x01")
            if g.p(.4): m(st, b"\x83" + b"\x64" + x + b"\x00\x07\x01\xa2hi"); m(MI, b"\x82" + x + b"\xa1v" + x + b"\xa1w")
            if g.p(.5) and len(x) > 1: m(leaf("ign"), x[:-1]); m(T, b"\x92" + x[:-1])
            if g.p(.4): out.append(dict(op="mpre", sh=leaf("ign"), **{"in": L(x)}))
            out.append(dict(op="mcur", fl=0, ops=[dict(o="skip"), dict(o="peek"), dict(o="val", sh=leaf("u8")), dict(o="end")], **{"in": L(x + b"\x2a")}))
        for n in (255, 256, 65535, 65536):
            for h, x in ((b"\xda" + be(n, 2) if n < 65536 else b"\xdb" + be(n, 4), b"s"), (b"\xc5" + be(n, 2) if n < 65536 else b"\xc6" + be(n, 4), b"s"), (b"\xc8" + be(n, 2) + b"t" if n < 65536 else b"\xc9" + be(n, 4) + b"t", b"s")):
                if n < 300: m(T, b"\x92" + h + x * n + b"\x2a")
        for kind in ("str", "bytes", "seq", "map"):
            for n in (127, 128, 255, 256, 32767, 32768, 40000, 65535, 65536): out.append(dict(op="big", fmt="m", fl=0, kind=kind, n=n))
            out.append(dict(op="big", fmt="j", fl=0, kind=kind, n=40000))
        for n in (255, 256, 32767, 32768, 65535):      # extensions of every length the header can say
            for h in ([b"\xc7" + be(n, 1)] if n < 256 else []) + [b"\xc8" + be(n, 2), b"\xc9" + be(n, 4)]:
                m(leaf("ign"), h + b"\x05" + b"e" * n + b"\x2a"); m(T, b"\x92" + h + b"\x05" + b"e" * n + b"\x2a"); m(T, b"\x92" + h + b"\x05" + b"e" * n)
        # JSON
        js = [b"null", b"true", b"false", b"0", b"-1.5e+10", b"123456789012345678901234567890", b'""', b'"\\""', b'"\\\\"', b'"\\\\\\""', b'"a\\\\\\\\"', b'"]"', b'"}"', b'"[{,:"', b'"\\u0022"', b'"\\n\\t"', b"[]", b"{}", b"[ ]", b"{ }", b"[1,2]", b'{"a":1}', b'[[],[[]],{}]',
              b'{"a":{"b":[1,{"c":"}"}]}}', b'["\\"]",1]', b'{"\\"k":"\\\\"}', b" 1 ", b"\n[\t]\r", b'"\xff"', b'"\\q"', b'"\\ud800"', b"1e", b"--", b"01"]
        bad = [b"[1,]", b"[,1]", b"[1 2]", b"[}", b"{]", b'{"a"}', b'{"a":}', b'{"a":1,}', b'{,}', b'{a:1}', b'{1:1}', b'"a\nb"', b'"\\\n"', b"nul", b"truE", b"[1", b'{"a":1', b'"abc', b"+1", b".5", b"'a'", b"[1}", b'{"a":1]', b"", b"a", b'{"a" 1}', b'["a]', b"[[]", b'{"\xff":1}', b'{"\\x":1}', b"]", b"}"]
        for n in range(0, 10): js += [b'"' + b"\\\\" * n + b'"', b'"a' + b"\\\\" * n + b'\\""']; bad.append(b'"' + b"\\\\" * n + b'\\"')
        for _ in range(self.n(120)): js.append(jg.junk(3))
        for _ in range(self.n(120)): bad.append(jg.mutate(jg.junk(2)))
        TJ = nd("tuple", c=[leaf("ign"), leaf("u8")])
        for x in js + bad:
            if len(x) > 120: continue
            j(leaf("ign"), x); j(TJ, b"[" + x + b",42]"); j(st, b'{"a":7,"z":' + x + b',"b":"hi"}')
            if jg.p(.4): j(st, b'{"z":' + x + b' , "a":7,"y":' + x + b',"b":"hi","x" : ' + x + b"}"); j(wrap("map", leaf("str"), leaf("ign")), b'{"k":' + x + b',"l":' + x + b"}")
            if jg.p(.4): out.append(dict(op="jcur", fl=0, ops=[dict(o="val", sh=leaf("ign")), dict(o="ws"), dict(o="eat", a=1), dict(o="val", sh=leaf("u8")), dict(o="end")], **{"in": L(x + b",42")}))
        for t in self.lanes(self.j("C15lanes"), self.n(60), self.BADSP + self.ESCSP): j(*g.pick([(leaf("ign"), b'"' + t + b'"'), (nd("tuple", c=[leaf("ign"), leaf("u8")]), b'["' + t + b'",7]'), (st, b'{"z":["' + t + b'"],"a":1,"b":"x"}')]))
        for sh, t in self.lanemp(self.m("C15lanes2"), self.n(20)): m(nd("tuple", c=[leaf("ign"), leaf("u8")]), b"\x92" + t + b"\x07")
        if self.models:
            out += [x for x in self.gmp("item", 6000, (3, 3)) if has(x["sh"], lambda y: y["k"] == "ign")]
            out += [x for x in self.gmp("ext", 6000, (3, 4)) if has(x["sh"], lambda y: y["k"] in ("ign", "struct"))]
            for sc, n in (("array", 3000), ("object", 3000)): out += [x for x in self.gjson(sc, n, (4, 5)) if has(x["sh"], lambda y: y["k"] in ("ign", "struct"))]
        out += self.sm(g, 12, False, lambda y: y["k"] in ("ign", "struct")) + self.sm(g, 6, True, lambda y: y["k"] in ("ign", "struct")) + self.sj(jg, 12, False, lambda y: y["k"] in ("ign", "struct")) + self.sj(jg, 8, True, lambda y: y["k"] in ("ign", "struct"))
        out += self.nestde(g, "m", "ign", 3) + self.nestde(jg, "j", "ign", 3) + self.nestde(g, "m", "bad", 1) + self.nestde(jg, "j", "bad", 1)
        out += self.farof(self.j("C15far"), out, 200)
        return out, ["std", "none-r"]

    # -- C16 ------------------------------------------------------------------
    SINKS = ["vec", "refvec", "vecdeque", "smallvec", "tinyvecvec", "curvec", "currefvec", "arrayvec", "heapless", "heapless8", "heaplessview", "tinyvec", "tinyslice", "slice", "refslice", "curslice", "curbox", "curarr"]
    GROWING = ["vec", "refvec", "vecdeque", "smallvec", "tinyvecvec", "curvec", "currefvec"]
    WHOLE = ["arrayvec", "heapless", "heapless8", "heaplessview", "tinyvec", "tinyslice", "slice", "refslice"]
    PARTIAL = ["curslice", "curbox", "curarr"]
    CAPS = [0, 1, 2, 3, 4, 7, 8, 16, 32, 64]
    def C16(self):
        g = self.j("C16"); out = []
        def op(cap):
            t = g.r.random()
            if t < .2: return dict(o="b", b=[g.r.randrange(256)])
            n = g.pick([0, 1, 1, 2, 3, 4, 5, cap, cap + 1, max(0, cap - 1), cap // 2])
            if t < .5: return dict(o="w", b=[g.r.randrange(256) for _ in range(n)])
            if t < .7: return dict(o="s", b=[g.r.randrange(32, 127) for _ in range(n)])
            if t < .8: return dict(o="f", b=[g.r.randrange(32, 127) for _ in range(n)])
            if t < .9: return dict(o="s", b=L(g.pick(["é", "😀", "a\"", ""]).encode()))
            return dict(o=g.pick(["clear", "split", "w", "pop", "push", "pop", "push"]), b=[1])
        for kind in self.SINKS:
            for cap in self.CAPS:
                # fill up exactly, then one too many, then one that still fits
                for a in range(0, min(cap, 4) + 1):
                    for b in range(0, 3):
                        for o in ("w", "s", "b", "f"):
                            ops = [dict(o="w", b=list(range(cap - a)))] + ([dict(o=o, b=[65] * (a + b if o != "b" else 1))]) + [dict(o="b", b=[66]), dict(o="w", b=[]), dict(o="s", b=[67])]
                            if self.tier == "quick" and not g.p(.35): continue
                            out.append(dict(op="sink", kind=kind, cap=cap, ops=ops))
                for _ in range(self.n(4 if kind != "slice" else 12)):
                    out.append(dict(op="sink", kind=kind, cap=cap, ops=[op(cap) for _ in range(g.r.randrange(1, 9))]))
        # containers that are used for something else between writes: a ring that turns, contents that move to the heap, long writes
        for kind in self.SINKS:
            for _ in range(self.n(8 if kind in self.GROWING else 3)):
                cap = g.pick(self.CAPS); ops = []
                for _ in range(g.r.randrange(2, 7)):
                    t = g.r.random()
                    if t < .35: ops += [dict(o="push", b=[g.r.randrange(256)])] * g.r.randrange(1, 4)
                    elif t < .6: ops += [dict(o="pop", b=[])] * g.r.randrange(1, 5)
                    elif t < .65: ops.append(dict(o="clear", b=[]))
                    else: ops.append(dict(o="w", b=[g.r.randrange(256) for _ in range(g.pick([1, 7, 8, 9, 16, 100, 255, 256, 257, 300, 500]) if kind in self.GROWING else g.pick([1, 2, cap // 2, cap]))]))
                out.append(dict(op="sink", kind=kind, cap=cap, ops=ops))
        # cursors set anywhere between writes
        for kind in ("curvec", "currefvec", "curslice", "curbox", "curarr"):
            for _ in range(self.n(40)):
                cap = g.pick(self.CAPS)
                out.append(dict(op="sink", kind=kind, cap=cap, ops=[dict(o="seek", b=[g.pick([0, 1, cap // 2, max(0, cap - 1), cap, cap + 1, cap + 5])]) if g.p(.35) else op(cap) for _ in range(g.r.randrange(2, 8))]))
        # all short histories of a SliceWriter
        alpha = [dict(o="b", b=[1]), dict(o="w", b=[2, 3]), dict(o="s", b=[65]), dict(o="clear", b=[0]), dict(o="split", b=[0]), dict(o="f", b=[66, 67])]
        for cap in (0, 1, 2, 3, 4):
            for h in itertools.product(alpha, repeat=3 if self.tier == "quick" else 4):
                if self.tier == "quick" and not g.p(.3): continue
                out.append(dict(op="sink", kind="slice", cap=cap, ops=list(h)))
        if self.models:
            for cls, kinds in (("vec", self.GROWING), ("arrayvec", self.WHOLE), ("curslice", self.PARTIAL), ("slice", ["slice"])):      # every short history of every sink
                for h in self.model("GenSink", cls, (3, 4), 2600, lambda x: True):
                    for k in (g.r.sample(kinds, min(len(kinds), 3)) if self.tier == "quick" else kinds): out.append(dict(op="sink", kind=k, cap=g.pick(self.CAPS) if cls == "vec" else h["cap"], ops=h["ops"]))
            for kind in ("curvec", "currefvec", "curslice"):
                for h in self.model("GenCurSink", kind, (3, 4), 900, lambda x: True):
                    out.append(dict(op="sink", kind=g.pick(self.PARTIAL) if kind == "curslice" else kind, cap=h["cap"], ops=h["ops"]))
        return out, ["std", "none-r", "alloc"]

    # -- C17 ------------------------------------------------------------------
    def C17(self):
        g = self.j("C17"); out = []
        def add(fmt, fl, vs, kind, cap):
            pay = f"WriterMyErr{cap}" if kind == "bounded" else f"WriterMyErr{cap + 7}" if kind in ("calls", "sticky") else "WriterBufferFull"
            out.append(dict(op="serf", fmt=fmt, fl=fl, vs=vs, kind=kind, cap=cap, pay=pay))
        for _ in range(self.n(110)):
            v = self.small(lambda: g.anyvalue(g.pick([1, 2, 3])), 30)
            fmt = g.pick(["j", "m"]); fl = g.r.randrange(4 if fmt == "j" else 3)
            for at in range(0, 14): add(fmt, fl, [v], g.pick(["calls", "sticky"]), at)
            for cap in g.r.sample(range(0, 60), 5): add(fmt, fl, [v], "bounded", cap)
            for k in g.r.sample(self.SINKS, 2): add(fmt, fl, [v], k, g.pick(self.CAPS))
        one = {"j": [(intv("u8", 1), 1), (text("str", "abc"), 5), (boolv(1), 4), (nd("seq", n=2, c=[intv("u8", 1), intv("u8", 2)]), 5), (leaf("unit"), 4), (g.cstr(b"xyz"), 5), (text("bytes", b"ab"), 7), (f64b(1.5), 3), (nd("uvar", b=b"V"), 3)],
               "m": [(intv("u8", 1), 1), (text("str", "abc"), 4), (boolv(1), 1), (nd("seq", n=2, c=[intv("u8", 1), intv("u8", 2)]), 3), (leaf("unit"), 1), (g.cstr(b"xyz"), 4), (text("bytes", b"ab"), 4), (f64b(1.5), 9), (intv("u64", 1 << 40), 9)]}
        for fmt in "jm":
            for v, n in one[fmt]:
                for k in self.SINKS + ["bounded"]:
                    for cap in self.CAPS:
                        if abs(cap - n) <= 3 or cap in (0, 64): add(fmt, 0, [v], k, cap)
        # every place where a small text or message can be cut off
        esc = [g.cstr(b"\n") if False else nd("cstr", c=[text("str", x)]) for x in ("\n", "\"", "a", "\u0001", "")] + [nd("cstr", c=[text("str", x) for x in w]) for w in ("\n\"", "a\n", "\na", "\\b", "\u0001\u0002")]
        esc += [text("str", x) for x in ("", "\n", "a\n", "\na", "a\"b", "\u0001", "\u001fz")] + [text("char", x) for x in "a\n\"\u0001é"]
        fv = [field("a", intv("u8", 1)), field("b", text("str", "\n"))]
        esc += [nd("seq", n=0), nd("seq", n=-1), nd("map", n=0), nd("struct"), nd("struct", n=2, c=fv), nd("svar", n=2, b=b"V", c=fv), nd("nvar", b=b"V", c=[leaf("unit")]), nd("tvar", n=1, b=b"V", c=[boolv(1)]), nd("uvar", b=b"V\n"), nd("tvar", b=b"V"), nd("svar", b=b"V"),
                nd("map", n=1, c=[intv("u8", 5), wrap("some", leaf("none"))]), nd("map", n=1, c=[boolv(0), text("char", "\n")]), text("bytes", b""), text("bytes", b"a"), text("bytes", b"ab"), text("bytes", b"abcd"), f64b(1.0), f32b(-0.5), intv("i8", -7), intv("u64", 10), nd("tuple", n=2, c=[intv("u8", 1), leaf("none")])]
        for v in esc:
            for fmt in "jm":
                for fl in range(4 if fmt == "j" and v["k"] == "bytes" else 3):
                    if fl and v["k"] not in ("bytes", "struct", "svar", "nvar", "uvar", "tvar") or fmt == "m" and v["k"] in ("seq", "map") and v["n"] < 0: continue
                    for cap in range(0, 24): add(fmt, fl, [v], "bounded", cap)
                    for at in range(0, 10): add(fmt, fl, [v], "calls", at); add(fmt, fl, [v], "sticky", at)
        for _ in range(self.n(60)):       # and pieces of formatted text
            v = nd("cstr", c=[text("str", "".join(g.pick(["\n", "\"", "a", "\\", "\u0001", "é", "😀"]) for _ in range(g.pick([0, 1, 1, 1, 2, 3])))) for _ in range(g.r.randrange(1, 4))])
            for cap in range(0, 20): add("j", 0, [v], "bounded", cap)
        for _ in range(self.n(150)):      # several values through one serializer
            fmt = g.pick(["j", "m"]); vs = [self.small(lambda: g.anyvalue(g.pick([0, 1, 2])), 12) for _ in range(g.r.randrange(2, 5))]
            fl = g.r.randrange(3)
            add(fmt, fl, vs, g.pick(self.SINKS + ["bounded", "bounded", "calls", "sticky"]), g.pick(self.CAPS))
        for _ in range(self.n(100)):      # values that refuse
            fmt = g.pick(["j", "m"]); v = self.small(lambda: g.anyvalue(2), 20)
            bad = g.pick([leaf("fail"), leaf("i128")] + ([nd("cstr", n=1, c=[text("str", "ab")])] if fmt == "j" else []))
            w = g.pick([lambda: bad, lambda: nd("seq", n=2, c=[v, bad]), lambda: nd("struct", n=2, c=[field("a", v), field("b", bad)]), lambda: nd("map", n=1, c=[text("str", "k"), bad]), lambda: nd("nvar", b=b"V", c=[bad]), lambda: nd("seq", n=1, c=[nd("map", n=1, c=[bad, v])])])()
            add(fmt, g.r.randrange(3), [v, w, v], g.pick(["vec", "bounded", "slice", "calls"]), g.pick([8, 16, 64]))
        # every form of encoding there is, refused at every call it makes (a sink that only refuses once shows an error that was dropped)
        forms = [intv(k, z) for k in INTS for z in (0, 1, 127, 128, 200, 255, 256, 40000, 65535, 65536, 3 << 30, 1 << 32, (1 << 63) - 1, 1 << 63, -1, -32, -33, -128, -129, -32768, -32769, -(1 << 31), -(1 << 31) - 1) if irange(k)[0] <= z <= irange(k)[1]]
        forms += [leaf(k) for k in ("unit", "none", "ustruct")] + [boolv(0), boolv(1), f32b(1.5), f64b(1.5), f32b(NAN), f64b(-INF), text("char", "x"), text("char", "\n")]
        for n in (0, 1, 31, 32, 255, 256, 65535, 65536): forms += [text("str", b"a" * n), nd("cstr", c=[text("str", b"a" * n)]), text("bytes", b"a" * n)]
        for n in (0, 1, 2, 15, 16, 65535, 65536):
            forms += [nd(k, n=n) for k in ("seq", "tuple", "tstruct", "map", "struct", "tvar", "svar")]
            forms += [nd(k, n=n, c=[intv("u8", 1)] * n * (2 if k == "map" else 1)) for k in ("seq", "tuple", "tstruct", "map", "tvar") if n < 20]
            forms += [nd(k, n=n, b=b"V", c=[field("f%d" % x, leaf("unit")) for x in range(n)]) for k in ("struct", "svar") if n < 20]
        forms += [nd("uvar", i=i, b=b"V") for i in (0, 127, 128, 70000)] + [nd("nvar", i=i, b=b"V", c=[leaf("unit")]) for i in (0, 127, 128, 70000)] + [wrap("some", intv("u8", 200)), wrap("nstruct", intv("i16", -300))]
        forms += [nd("map", n=1, c=[k, leaf("unit")]) for k in (intv("i8", -5), intv("u64", 1 << 63), text("char", '"'), text("str", "a\"b"), boolv(1), nd("uvar", b=b"K"), wrap("nstruct", text("str", "n")), nd("cstr", c=[text("str", "p"), text("str", "q")]))]
        for v in forms:
            for fmt in "jm":
                for fl in range(3):
                    if fl and (v["k"] not in ("bytes", "struct", "svar", "nvar", "uvar", "tvar") or fmt == "j" and v["k"] != "bytes") or len(v["b"]) > 40000 and (fmt == "j" or fl): continue
                    w = text("bytes", v["b"][:300]) if fmt == "j" and v["k"] == "bytes" else v
                    for at in range(0, 7): add(fmt, fl, [w], "calls", at)
                    for cap in (0, 1, 2, 3, 5, 9): add(fmt, fl, [w], "bounded", cap)
        if self.models:
            for sc, d in (("mixed", (4, 5)), ("enum", (4, 5)), ("struct", (5, 6)), ("key", (4, 5))):      # the machine of calls, cut off at every place
                for x in self.gser(sc, 250, d):
                    for fmt in "jm":
                        for k in ("calls", "sticky", "bounded"):
                            for at in range(0, 9): add(fmt, g.r.randrange(3), [x["v"]], k, at)
        return out, ["std", "none-r"]

    # -- C18 ------------------------------------------------------------------
    def C18(self):
        g = self.j("C18"); mg = self.m("C18m"); out = []
        for _ in range(self.n(2500)):
            fl, sh, t = self.jdoc(g, maxlen=60)
            for _ in range(g.pick([1, 1, 3])): t = g.mutate(t)
            out.append(dict(op="jde", fl=fl, sh=sh if g.p(.7) else g.shape(2), **{"in": L(t)}))
        for _ in range(self.n(600)):
            t = b"".join(g.pick(g.TOKENS) for _ in range(g.r.randrange(0, 8))); out.append(dict(op="jde", fl=g.r.randrange(3), sh=g.shape(g.pick([0, 1, 2])), **{"in": L(t)}))
        for _ in range(self.n(2500)):
            sh = mg.shape(mg.pick([0, 1, 2, 3])); t = mg.msg(sh, 60)
            for _ in range(mg.pick([1, 1, 3])): t = mg.mutate(t)
            out.append(dict(op="mde", sh=sh if mg.p(.7) else mg.shape(2), **{"in": L(t)}))
        for _ in range(self.n(600)): out.append(dict(op="mde", sh=mg.shape(mg.pick([0, 1, 2])), **{"in": [mg.r.randrange(256) for _ in range(mg.r.randrange(0, 12))]}))
        for k in self.SHAPES1 + ["opt", "seq", "map"]:
            sh = leaf(k) if k not in ("opt", "seq", "map") else wrap(k, *([leaf("any")] * (2 if k == "map" else 1)))
            for t in (b"", b'"', b"\\", b'"\\', b'"\\u', b'"\\u0', b'"\\ud83d\\', b'"\\ud83d\\u', b'"\\ud83d\\ude0', b"-", b"[", b"{", b'{"', b'{"a"', b'{"a":', b"t", b"n", b"f", b"0", b"[[", b'["', b"1e", b" ", b"\x00", b'"\x80', b"[1", b"[1,", b'"0', b'"Q', b'"QQ=', b"{,"):
                for fl in range(3): out.append(dict(op="jde", fl=fl, sh=sh, **{"in": L(t)}))
            for c in range(256):
                out.append(dict(op="mde", sh=sh, **{"in": [c]})); out.append(dict(op="mde", sh=sh, **{"in": [c] + [255] * mg.r.randrange(1, 10)}))
        for _ in range(self.n(300)):       # serializing anything
            out.append(dict(op="jser", fl=g.r.randrange(4), v=self.small(lambda: self.wronglen(g, g.anyvalue(3)), 60))); out.append(dict(op="mser", fl=g.r.randrange(3), v=self.small(lambda: self.wronglen(mg, mg.anyvalue(3)), 60)))
        for _ in range(self.n(300)): out.append(self.jcur(g)); out.append(self.mcur(mg))
        # deep but not endless nesting: the answer is known
        A = leaf("any"); I = leaf("ign")
        for d in (10, 100):
            for op, mid, cl in ((b"[", b"", b"]"), (b'{"a":', b"1", b"}"), (b"[[],", b"1", b"]"), (b"[", b"1", b" ]")):
                for sh in (A, I): out.append(dict(op="deep", fmt="j", open=L(op), mid=L(mid), close=L(cl), depth=d, sh=sh, eat=0, want=""))
            for op, mid, cl in ((b"\x91", b"\x01", b""), (b"\x81\x01", b"\x01", b""), (b"\xdc\x00\x02", b"\xc0", b"\xc3"), (b"\x81", b"\x01", b"\xc0")):
                for sh in (A, I): out.append(dict(op="deep", fmt="m", open=L(op), mid=L(mid), close=L(cl), depth=d, sh=sh, eat=0, want=""))
        for d in (100000, 1000000):       # skipping needs no stack
            for op, mid, cl in ((b"\x91", b"\x01", b""), (b"\x81\x01", b"\x01", b""), (b"\xdc\x00\x02", b"\xc0", b"\xc3"), (b"\x81", b"\x01", b"\xc0"), (b"\xdd\x00\x00\x00\x01", b"\xa1x", b"")):
                out.append(dict(op="deep", fmt="m", open=L(op), mid=L(mid), close=L(cl), depth=d, sh=I, eat=0, want=""))
                out.append(dict(op="deep", fmt="m", open=L(op), mid=L(mid), close=L(cl), depth=d, sh=I, eat=1, want=""))
            out.append(dict(op="deep", fmt="m", open=L(b"\x91"), mid=[], close=[], depth=d, sh=I, eat=1, want="UnexpectedEof"))
            out.append(dict(op="deep", fmt="m", open=L(b"\xdd\xff\xff\xff\xff"), mid=[], close=[], depth=d, sh=I, eat=1, want="UnexpectedEof"))
            out.append(dict(op="deep", fmt="m", open=L(b"\xdf\xff\xff\xff\xff"), mid=L(b"\xc1"), close=[], depth=d, sh=I, eat=1, want="ReservedCode"))
        if self.models:
            for sc in ("string", "array", "object", "key", "bytes"): out += self.gjson(sc, 500)
            for sc in ("item", "struct", "ext"): out += self.gmp(sc, 500)
        out += self.sj(g, 25, True) + self.sm(mg, 25, True)
        for f in "jm":
            for k in ("any", "typed", "ign", "cut", "bad"): out += self.nestde(g, f, k, 1)
        return out, ["std", "std-r", "none-r", "w32"]

    # -- C19 ------------------------------------------------------------------
    def C19(self):
        out = []
        import random as rnd
        r = rnd.Random(f"{self.seed}/C19")
        sub = Plan(f"{self.seed}/c19", "quick", models=False)
        for c, n in (("C01", 250), ("C02", 150), ("C03", 150), ("C04", 250), ("C05", 300), ("C07", 80), ("C08", 120), ("C09", 300), ("C10", 250), ("C11", 250), ("C12", 150), ("C13", 300), ("C14", 150), ("C15", 200), ("C16", 0), ("C17", 0), ("C20", 200), ("C21", 200)):
            if not n: continue
            st, _ = getattr(sub, c)()
            st = [s for s in st if "only" not in s and s["op"] != "big"]
            out += r.sample(st, min(len(st), self.n(n)))
        # strings through Display: the no_std MessagePack serializer formats them twice
        g = self.m("C19")
        if self.models:
            for sc in ("string", "utf8", "number", "array", "object", "key", "bytes", "word"): out += self.gjson(sc, 250, (3, 4))
            for sc in ("item", "scalar", "struct", "array", "ext"): out += self.gmp(sc, 250, (2, 3))
            for sc in ("mixed", "enum", "key"):
                for x in self.gser(sc, 250, (4, 5)): out.append(dict(op=g.pick(["jser", "mser"]), fl=g.r.randrange(3), v=x["v"]))
        for _ in range(self.n(60)):
            v = g.cstr(g.astr(40).encode()); out.append(dict(op="mser", fl=0, v=v)); out.append(dict(op="mser", fl=g.r.randrange(3), v=nd("seq", n=2, c=[v, v])))
        for n in (0, 31, 32, 255, 256, 300):
            out.append(dict(op="mser", fl=0, v=g.cstr(b"d" * n))); out.append(dict(op="jser", fl=0, v=g.cstr(b"d" * n)))
        out += self.ty("j", 1) + self.ty("m", 1)
        gd = self.j("C19decimals")
        for _ in range(self.n(12)):
            for t in gd.midpoint("f32") + gd.midpoint("f64") + [gd.dectext()]:
                if not any(c in t for c in b".eE"): t += b".0"
                out.append(dict(op="jde", fl=0, sh=leaf(gd.pick(["any", "any", "f32", "f64"])), **{"in": L(t)}))
        out += self.farof(self.j("C19far"), out, 300)
        return out, ["std", "std-r", "alloc", "none", "none-r", "f32"] if self.tier == "quick" else ["std", "std-r", "alloc", "alloc-r", "none", "none-r", "f32", "f32-r", "f32-none", "w32", "w32-r", "w32-none", "w32-none-r"]

    # -- C20 ------------------------------------------------------------------
    def jcur(self, g):
        fl = g.r.randrange(3); t = b""; ops = []; plan = []
        # a text built from what a sequence of operations expects, then disturbed
        for _ in range(g.r.randrange(1, 6)):
            x = g.pick(["num", "tok", "str", "strb", "hex", "b64", "val", "eatstr", "eat", "split", "val"])
            if x == "num":
                k = g.pick(INTS); plan.append((g.ws() + str(g.anint(k)).encode(), [dict(o="num", k=k)]))
            elif x == "tok":
                w = g.pick([b"true", b"abc", b"", b"[", b"nul"]); plan.append((w, [dict(o="tok", t=L(w))]))
            elif x in ("str", "strb", "eatstr"): plan.append((g.esc(g.astr(6).encode())[1:], [dict(o=x)]))
            elif x == "hex": plan.append((g.abytes(4).hex().encode() + b'"', [dict(o="hex")]))
            elif x == "b64":
                import base64
                plan.append((base64.b64encode(g.abytes(5)).rstrip(b"=" if g.p(.5) else b"") + b'"', [dict(o="b64")]))
            elif x == "val":
                sh = g.shape(g.pick([0, 1, 2])); plan.append((g.doc(sh, fl, 40) + b" ", [dict(o="val", sh=sh)]))
            elif x == "eat": n = g.r.randrange(0, 4); plan.append((b"x" * n, [dict(o="eat", a=n)]))
            else: a, b = g.r.randrange(0, 4), g.r.randrange(0, 3); plan.append((b"y" * (a + b), [dict(o="split", a=a, b=b)]))
            if g.p(.35): plan[-1][1].insert(0, dict(o=g.pick(["peek", "input", "ws"])))
            if g.p(.2):       # a token that is not there, or only begins to be
                w = plan[-1][0]; k = g.r.randrange(0, len(w) + 1)
                plan[-1][1].insert(0, dict(o="tok", t=L(w[:k] + g.pick([b"\x01", b"\xff", b"e", b"ue"]))))
        t = b"".join(p[0] for p in plan); ops = [o for p in plan for o in p[1]]
        splits = any(o["o"] == "split" for o in ops)
        if g.p(.35) and not splits: t = g.mutate(t)
        if g.p(.25): ops += [dict(o="eat", a=g.pick([1, 2, 100])), dict(o=g.pick(["peek", "ws", "input"]))]
        if g.p(.2): ops += [g.pick([dict(o="val", sh=leaf(g.pick(["u8", "str", "any", "ign", "bytes", "bool", "f64"]))), dict(o="num", k="u8"), dict(o="num", k="i8"), dict(o="tok", t=[1]), dict(o="str"), dict(o="strb"), dict(o="hex"), dict(o="b64"), dict(o="eatstr"), dict(o="val", sh=wrap("seq", leaf("u8")))])]
        if g.p(.6): ops.append(dict(o="end"))
        return dict(op="jcur", fl=fl, ops=ops, **{"in": L(t)})
    def mcur(self, g):
        plan = []
        for _ in range(g.r.randrange(1, 6)):
            x = g.pick(["fetch", "eat", "split", "skip", "val", "val"])
            if x == "fetch": plan.append((bytes([g.r.randrange(256)]), [dict(o="fetch")]))
            elif x == "eat": n = g.r.randrange(0, 4); plan.append((b"x" * n, [dict(o="eat", a=n)]))
            elif x == "split": n = g.r.randrange(0, 4); plan.append((b"y" * n, [dict(o="split", a=n)]))
            elif x == "skip": plan.append((g.junk(), [dict(o="skip")]))
            else: sh = g.shape(g.pick([0, 1, 2])); plan.append((g.msg(sh, 40), [dict(o="val", sh=sh)]))
            if g.p(.35): plan[-1][1].insert(0, dict(o=g.pick(["peek", "input"])))
        t = b"".join(p[0] for p in plan); ops = [o for p in plan for o in p[1]]
        if g.p(.35): t = g.mutate(t)
        if g.p(.3): ops += [dict(o="eat", a=g.pick([1, 2, 100])), dict(o=g.pick(["peek", "fetch", "input", "fetch"]))]
        if g.p(.3): ops += [g.pick([dict(o="split", a=g.pick([0, 1, 5, 1000])), dict(o="skip"), dict(o="val", sh=leaf(g.pick(["u8", "str", "any", "unit"])))])]
        if g.p(.6): ops.append(dict(o="end"))
        return dict(op="mcur", fl=0, ops=ops, **{"in": L(t)})
    def C20(self):
        g = self.j("C20"); mg = self.m("C20m"); out = []
        for _ in range(self.n(700)): out.append(self.jcur(g))
        for _ in range(self.n(700)): out.append(self.mcur(mg))
        for w in (b"true", b"false", b"null", b"ab", b"a"):
            for k in range(len(w) + 1):
                for tail in (b"", b"x", b"xxxxx"):
                    for op in (dict(o="peek"), dict(o="ws"), dict(o="input"), dict(o="tok", t=L(w[:k])), dict(o="tok", t=[])):
                        if w[:k] + tail[:len(w) - k] != w: out.append(dict(op="jcur", fl=0, ops=[dict(o="tok", t=L(w)), op, dict(o="tok", t=L(w[:k] + tail[:1])), dict(o="end")], **{"in": L(w[:k] + tail)}))
        # a cursor as far beyond the end as it goes
        for t in (b"", b"1", b"true", b'"a"', b"[1,2]"):
            for n in range(min(len(t), 2) + 1):
                pre = [dict(o="eat", a=n)] * (n > 0) + [dict(o="far", a=n, b=0)]
                for op in [dict(o="peek"), dict(o="ws"), dict(o="input"), dict(o="eatstr"), dict(o="str"), dict(o="strb"), dict(o="hex"), dict(o="b64"), dict(o="tok", t=[]), dict(o="tok", t=L(b"true")), dict(o="tok", t=[49])] + [dict(o="num", k=k) for k in INTS] + [dict(o="val", sh=leaf(k)) for k in ("any", "ign", "bool", "unit", "str", "bytes", "f32", "u8", "hr")] + [dict(o="val", sh=wrap("seq", leaf("u8"))), dict(o="val", sh=wrap("opt", leaf("u8")))]:
                    out.append(dict(op="jcur", fl=g.pick([0, 1, 2, 4]), ops=pre + [op, dict(o="peek"), dict(o="end")], **{"in": L(t)}))
                for op in [dict(o="peek"), dict(o="fetch"), dict(o="input"), dict(o="split", a=0), dict(o="split", a=1), dict(o="skip")] + [dict(o="val", sh=leaf(k)) for k in ("any", "ign", "bool", "unit", "str", "bytes", "f32", "u8", "i64")] + [dict(o="val", sh=wrap("seq", leaf("u8")))]:
                    out.append(dict(op="mcur", fl=0, ops=pre + [op, dict(o="peek"), dict(o="end")], **{"in": L(t)}))
        for e in range(12, 64):
            for n in range(3):
                pre = [dict(o="eat", a=n)] * (n > 0) + [dict(o="far", a=n + (n == 2), b=e)]
                for op in (dict(o="peek"), dict(o="ws"), dict(o="input"), dict(o="eatstr"), dict(o="str"), dict(o="tok", t=L(b"ab"[n:])), dict(o="num", k="u8"), dict(o="val", sh=leaf("ign")), dict(o="val", sh=leaf("u8"))):
                    out.append(dict(op="jcur", fl=0, ops=pre + [op, dict(o="peek"), dict(o="end")], **{"in": L(b"12")}))
                for op in (dict(o="peek"), dict(o="fetch"), dict(o="input"), dict(o="split", a=1), dict(o="skip"), dict(o="val", sh=leaf("u8"))):
                    out.append(dict(op="mcur", fl=0, ops=pre + [op, dict(o="peek"), dict(o="end")], **{"in": L(b"12")}))
        # what came before the cursor does not matter
        for pre in (b"\\", b"\\\\", b"a\\", b'"', b'\\"', b"1", b"-", b"\xc3", b"\\u00", b"\\ud83d", b"=", b"0", b"[", b"{", b","):
            for w in (b'"', b'a"', b'\\""', b'\\\\"', b'"a"', b'u00e9"', b'0f"', b'QQ=="', b'\xa9"', b"1", b"23 ", b'\\ude00"', b"]", b"true"):
                for op in (dict(o="eatstr"), dict(o="str"), dict(o="strb"), dict(o="hex"), dict(o="b64"), dict(o="num", k="i16"), dict(o="val", sh=leaf("any")), dict(o="val", sh=leaf("ign")), dict(o="ws")):
                    first = g.pick([[dict(o="eat", a=len(pre))], [dict(o="tok", t=L(pre))]] + ([[dict(o="eat", a=1), dict(o="eat", a=len(pre) - 1)]] if len(pre) > 1 else []) + [[dict(o="split", a=len(pre), b=0)]])
                    if self.tier == "quick" and not g.p(.6): continue
                    out.append(dict(op="jcur", fl=0, ops=first + [op, dict(o="input"), dict(o="end")], **{"in": L(pre + w)}))
        # all short histories over short inputs
        S = leaf("u8")
        mops = [dict(o="peek"), dict(o="fetch"), dict(o="eat", a=1), dict(o="eat", a=2), dict(o="input"), dict(o="split", a=1), dict(o="split", a=2), dict(o="skip"), dict(o="val", sh=S), dict(o="end")]
        jops = [dict(o="peek"), dict(o="ws"), dict(o="eat", a=1), dict(o="eat", a=2), dict(o="input"), dict(o="num", k="u8"), dict(o="num", k="i16"), dict(o="tok", t=[49]), dict(o="val", sh=S), dict(o="str"), dict(o="end")]
        def norm(h):
            r = []
            for o in h:
                r.append(o)
                if o["o"] == "end": break
            return r
        depth = 2 if self.tier == "quick" else 3
        for h in itertools.product(mops, repeat=depth):
            for t in (b"", b"\x01", b"\x01\x02", b"\xa1\x05\x07"): out.append(dict(op="mcur", fl=0, ops=norm(h), **{"in": L(t)}))
        for h in itertools.product(jops, repeat=depth):
            for t in (b"", b"1", b" 1", b"1\"2 "): out.append(dict(op="jcur", fl=0, ops=norm(h), **{"in": L(t)}))
        for h in itertools.product(mops, repeat=3):
            if g.p(.15): out.append(dict(op="mcur", fl=0, ops=norm(h), **{"in": L(g.pick([b"", b"\x01\x02", b"\x91\x05\x07\x08"]))}))
        for h in itertools.product(jops, repeat=3):
            if g.p(.15): out.append(dict(op="jcur", fl=0, ops=norm(h), **{"in": L(g.pick([b"", b"1 2", b"-12\" 3", b"   "]))}))
        lg = self.j("C20lanes")
        for k, t in self.lanenum(lg, self.n(30)): out.append(dict(op="jcur", fl=0, ops=[dict(o="num", k=k), dict(o="input"), dict(o="num", k=g.pick(INTS)), dict(o="end")], **{"in": L(t)}))
        for t in self.lanes(lg, self.n(30), self.BADSP + self.ESCSP): out.append(dict(op="jcur", fl=0, ops=[dict(o=g.pick(["eatstr", "eatstr", "str", "strb"])), dict(o="input"), dict(o="ws"), dict(o="end")], **{"in": L(t + b'" ')}))
        for _, t in self.lanews(lg, self.n(10)): out.append(dict(op="jcur", fl=0, ops=[dict(o="ws"), dict(o="input"), dict(o="val", sh=leaf("ign")), dict(o="ws"), dict(o="end")], **{"in": L(t)}))
        if self.models:
            for sc, d in (("json", (3, 3)), ("number", (3, 4)), ("text", (3, 4))):
                for x in self.model("GenCur", sc, d, 2500, lambda x: True): out.append(dict(op="jcur", fl=0, ops=x["ops"], **{"in": x["t"]}))
            for sc, d in (("msgpack", (3, 4)), ("item", (3, 4))):
                for x in self.model("GenCur", sc, d, 2500, lambda x: True): out.append(dict(op="mcur", fl=0, ops=x["ops"], **{"in": x["t"]}))
        return out, ["std", "none-r"]

    # -- C21 ------------------------------------------------------------------
    def C21(self):
        g = self.m("C21"); jg = self.j("C21j"); out = []; A = leaf("any")
        def m(sh, t): out.append(dict(op="mde", sh=sh, **{"in": L(t)}))
        def j(sh, t, fl=0): out.append(dict(op="jde", fl=fl, sh=sh, **{"in": L(t)}))
        for c in range(256):
            for t in (b"", b"\x01", b"\x00\x02ab", bytes(20)): m(A, bytes([c]) + t)
        for _ in range(self.n(450)): m(A, g.junk(g.pick([1, 2, 3])))
        for _ in range(self.n(150)): m(A, g.mutate(g.junk(2)))
        for _ in range(self.n(150)):
            sh = g.shape(3); m(g.pick([A, wrap("opt", A), wrap("seq", A), wrap("map", A, A)]), g.msg(sh, 80))
        for w, cu, ci in ((1, 0xcc, 0xd0), (2, 0xcd, 0xd1), (4, 0xce, 0xd2), (8, 0xcf, 0xd3)):
            for z in (0, 1, (1 << (8 * w)) - 1, 1 << (8 * w - 1), (1 << (8 * w - 1)) - 1): m(A, bytes([cu]) + be(z, w)); m(A, bytes([ci]) + be(z, w))
        nums = [str(z) for z in BOUND] + ["0", "-0", "00", "01", "-01", "007", "1.0", "-1.0", "0.5", "1e5", "1E5", "1e+5", "1e-5", "1.5e300", "1e400", "-1e400", "18446744073709551615", "18446744073709551616", "18446744073709551617", "-9223372036854775808", "-9223372036854775809", "-18446744073709551616",
                 "99999999999999999999", "123456789012345678901234567890", "-99999999999999999999", "1" + "0" * 40, "0" * 25 + "1", "0" * 25, "-", "-+", "--1", "1.", "1.e1", "-.5", "1e", "1e+", "1-2", "1+2", "2+", "2.+", "1.2.3", "1e5.5", "-e5", "0x10", "1_0", "-1-", "3.4028235e38", "3.5e38", "1e39", "16777217.0", "0.1", "4.9e-324", "1e-46", "16777217", "9007199254740993.0"]
        for t in nums:
            j(A, t.encode())
            if jg.p(.4): j(wrap("seq", A), b"[" + t.encode() + b" , " + t.encode() + b"]")
            if jg.p(.2): j(A, b'{"k":' + t.encode() + b"}")
        gd = self.j("C21decimals")
        for _ in range(self.n(25)):
            for t in gd.midpoint(gd.pick(["f32", "f64"]))[:3] + [gd.dectext()]: j(A, t)
        for _ in range(self.n(450)): j(A, jg.ws() + jg.junk(jg.pick([1, 2, 3])) + jg.ws(), jg.r.randrange(3))
        for _ in range(self.n(150)): j(A, jg.mutate(jg.junk(2)))
        for _ in range(self.n(200)):
            fl, sh, t = self.jdoc(jg, maxlen=90); j(jg.pick([A, A, wrap("opt", A), wrap("nstruct", A)]), t, fl)
        if self.models:
            out += [x for sc, n, d in (("number", 3000, (3, 4)), ("word", 1500, (3, 4)), ("array", 1500, (4, 5)), ("key", 1500, (4, 4))) for x in self.gjson(sc, n, d) if has(x["sh"], lambda y: y["k"] == "any")]
            out += [x for sc, n, d in (("item", 4000, (3, 3)), ("ext", 2000, (3, 4))) for x in self.gmp(sc, n, d) if has(x["sh"], lambda y: y["k"] == "any")]
        out += self.sm(g, 15, False, lambda y: y["k"] == "any") + self.sj(jg, 15, False, lambda y: y["k"] == "any")
        out += self.nestde(g, "m", "any", 3) + self.nestde(jg, "j", "any", 3)
        out += self.farof(self.j("C21far"), out, 200)
        return out, ["std", "none-r", "f32-r" if self.tier == "quick" else "f32"]

    # -- C23 ------------------------------------------------------------------
    MSGS = ["no", "x y z", "", "{}", "{0} %s", "quote \" and \\", "line\nbreak", "ключ 😀", "a" * 300, "while deserializing JSON", "Unexpected end of JSON input", "\u0000"]
    def strict_sub(self, sh, g):
        """the shape with a custom error put somewhere in it"""
        sh = dict(sh)
        kids = [i for i, x in enumerate(sh["c"]) if not (sh["k"] == "map" and i == 0)]
        if sh["k"] in ("struct", "svar", "enum", "tvar", "tuple", "tstruct", "nvar", "field") and not kids or not kids or g.p(.3):
            if sh["k"] in ("field", "uvar", "nvar", "tvar", "svar"):
                if not kids: return sh
            else: return nd("custom", b=g.pick(self.MSGS[:2] + self.MSGS[3:]).encode(), c=[sh])
        i = g.pick(kids); sh["c"] = list(sh["c"]); sh["c"][i] = self.strict_sub(sh["c"][i], g)
        return sh
    def C23(self):
        g = self.j("C23"); mg = self.m("C23m"); out = []
        sub = Plan(f"{self.seed}/c23", self.tier, models=False)
        for c, n in (("C04", 100), ("C05", 900), ("C06", 120), ("C07", 30), ("C08", 200), ("C09", 300), ("C13", 900), ("C14", 120), ("C15", 400), ("C20", 300), ("C21", 250), ("C01", 40), ("C02", 100), ("C11", 250)):
            st = [s for s in getattr(sub, c)()[0] if s["op"] in ("jde", "mde", "jpre", "mpre", "jcur", "mcur", "jser", "mser") and len(s.get("in", ())) < 2000]
            out += g.r.sample(st, min(len(st), self.n(n)))
        out.append(dict(op="texts"))
        for sh, t in self.enumdocs(): out.append(dict(op="jde", fl=0, sh=sh, **{"in": L(t)}))
        def err(fmt, sh, t, fl=0): out.append(dict(op="err", fmt=fmt, fl=fl, sh=sh, **{"in": L(t)}))
        for _ in range(self.n(150)):
            fl, sh, t = self.jdoc(g, maxlen=60); err("j", self.strict_sub(sh, g), t, fl)
            if g.p(.6): err("j", sh, g.mutate(t), fl)
            if g.p(.3): err("j", self.strict_sub(sh, g), g.mutate(t), fl)
            sh = mg.shape(mg.pick([0, 1, 2])); t = mg.msg(sh, 60); err("m", self.strict_sub(sh, mg), t)
            if mg.p(.6): err("m", sh, mg.mutate(t))
            if mg.p(.3): err("m", self.strict_sub(sh, mg), mg.mutate(t))
        for m in self.MSGS:
            f = nd("fail", b=m.encode()); cu = lambda x: nd("custom", b=m.encode(), c=[x])
            for fmt in "jm":
                for v in (f, nd("seq", n=1, c=[f]), nd("map", n=1, c=[text("str", "k"), f]), nd("struct", n=1, c=[field("a", f)]), nd("nvar", b=b"V", c=[f]), nd("tvar", n=1, b=b"V", c=[f]), nd("svar", n=1, b=b"V", c=[field("a", f)]), wrap("some", f), wrap("nstruct", f), nd("tuple", n=2, c=[intv("u8", 1), f]), nd("map", n=1, c=[f, leaf("unit")])):
                    for at in (0, 1, 2, 3, 50): out.append(dict(op="err", fmt=fmt, fl=g.r.randrange(3), v=v, cap=at))
            one = {"j": b"1", "m": b"\x01"}; seq = {"j": b"[1,1]", "m": b"\x92\x01\x01"}; mp = {"j": b'{"a":1}', "m": b"\x81\xa1a\x01"}
            for fmt in "jm":
                A = leaf("u8")
                for sh, t in ((cu(A), one), (wrap("opt", cu(A)), one), (wrap("nstruct", cu(A)), one), (wrap("seq", cu(A)), seq), (nd("tuple", c=[A, cu(A)]), seq), (nd("tstruct", c=[cu(A), A]), seq), (wrap("map", leaf("str"), cu(A)), mp), (nd("struct", c=[field("a", cu(A))]), mp),
                              (nd("enum", c=[nd("nvar", b=b"a", c=[cu(A)])]), mp), (cu(nd("struct", c=[field("a", A)])), mp), (cu(leaf("any")), mp), (cu(leaf("ign")), mp), (nd("struct", c=[field("b", cu(A), 1), field("a", cu(A))]), mp), (nd("struct", c=[field("a", A), field("b", A)]), mp), (nd("struct", n=1, c=[field("b", A, 1)]), mp)):
                    err(fmt, sh, t[fmt]); err(fmt, sh, t[fmt][:-1]); err(fmt, sh, b""); err(fmt, sh, t[fmt] + b"x")
        for _ in range(self.n(60)):
            fmt = g.pick(["j", "m"]); v = self.small(lambda: self.wronglen(g, g.anyvalue(g.pick([1, 2]))), 30)
            for at in (0, 1, 2, 5, 99): out.append(dict(op="err", fmt=fmt, fl=g.r.randrange(3), v=v, cap=at))
        if self.models:
            for sc in ("string", "escape", "utf8", "number", "array", "object", "key", "bytes", "word"): out += self.gjson(sc, 900, (4, 5) if sc not in ("number", "word") else (3, 4), good=lambda x: x["e"] != "")
            for sc, d in (("item", (3, 4)), ("scalar", (2, 3)), ("struct", (3, 4)), ("array", (3, 4)), ("ext", (3, 4))): out += [dict(op="mde", sh=x["sh"], **{"in": x["t"]}) for x in self.model("GenMp", sc, d, 900, lambda x: x.get("e") != "")]
        for f in "jm":
            for k in ("cut", "bad"): out += self.nestde(g, f, k, 2)
        out += self.farof(self.j("C23far"), out, 400)
        return out, ["std", "none-r"]

    # -- C24 ------------------------------------------------------------------
    def C24(self):
        g = self.j("C24"); out = []
        B = lambda n: bytes(g.r.randrange(256) for _ in range(n))
        def v2(depth):
            """a value with byte strings in it"""
            while True:
                v = self.small(lambda: g.anyvalue(depth), 40)
                if has(v, lambda x: x["k"] == "bytes"): return v
        def s2(depth):
            while True:
                sh = g.shape(depth)
                if has(sh, lambda x: x["k"] in ("bytes", "bytebuf")): return sh
        for n in list(range(0, 9)) + [31, 64, 100, 255, 256, 1000]:
            for b in (bytes(n), b"\xff" * n, B(n), B(n)):
                v = text("bytes", b)
                for w, sh in ((v, leaf("bytes")), (v, leaf("bytebuf")), (nd("seq", n=2, c=[v, v]), wrap("seq", leaf("bytes"))), (nd("map", n=1, c=[text("str", "k"), v]), wrap("map", leaf("str"), leaf("bytes"))), (nd("struct", n=2, c=[field("a", v), field("b", intv("u8", 7))]), nd("struct", c=[field("a", leaf("bytes")), field("b", leaf("u8"))])),
                              (wrap("some", v), wrap("opt", leaf("bytes"))), (wrap("nstruct", v), wrap("nstruct", leaf("bytebuf"))), (nd("nvar", b=b"V", c=[v]), nd("enum", c=[nd("nvar", b=b"V", c=[leaf("bytes")])])), (nd("tvar", n=2, b=b"V", c=[v, v]), nd("enum", c=[nd("tvar", b=b"V", c=[leaf("bytes"), leaf("bytebuf")])]))):
                    out.append(dict(op="jrt", fl=4, v=w, sh=sh)); out.append(dict(op="jser", fl=5, v=w))
                out.append(dict(op="jde", fl=4, sh=leaf("bytes"), **{"in": L(g.ws() + b"[" + b",".join(str(x).encode() for x in b) + b"]")}))
        for v in (text("bytes", b"ab"), text("bytes", b"a"), text("bytes", b"")):
            for w in (nd("map", n=1, c=[v, leaf("unit")]), nd("map", n=1, c=[wrap("nstruct", v), leaf("unit")]), nd("map", n=1, c=[wrap("some", v), leaf("unit")])):
                for fl in (4, 5): out.append(dict(op="jser", fl=fl, v=w))
        for _ in range(self.n(150)):
            out.append(dict(op="jser", fl=g.pick([4, 5]), v=v2(g.pick([1, 2, 3]))))
            sh = s2(g.pick([1, 2, 3]))
            v = self.small(lambda: g.value(sh, False), 60); out.append(dict(op="jrt", fl=4, v=v, sh=sh))
            t = g.doc(sh, 4, 120); out.append(dict(op="jde", fl=4, sh=sh, **{"in": L(t)}))
            out.append(dict(op="jde", fl=4, sh=sh, **{"in": L(g.mutate(t))}))
            if g.p(.3): out.append(dict(op="jpre", fl=4, sh=sh, **{"in": L(t[:60])}))
            if g.p(.3): out.append(dict(op="jde", fl=4, sh=sh, **{"in": L(g.doc(sh, g.r.randrange(3), 120))}))
        for t in (b'""', b'"a"', b'"aa"', b'"ap"', b'"aq"', b'"aA"', b'"a', b'"', b'"aab"', b'"aa\\"', b'"\\"', b'"a\\"a"', b'"a b"', b'"\xff\xff"', b'"\x00\x00"', b'null', b'1', b'{}', b'true', b'[]', b'[256]', b'"aa" ', b'"aa"x', b'"aa""', b' "aa"', b"", b" "):
            for sh in (leaf("bytes"), leaf("bytebuf"), wrap("opt", leaf("bytes"))): out.append(dict(op="jde", fl=4, sh=sh, **{"in": L(t)}))
        for c in range(256):
            for x in (b'"e' + bytes([c]) + b'"', b'"' + bytes([c]) + b'"', b'"' + bytes([c])): 
                out.append(dict(op="jde", fl=6, sh=leaf("bytes"), **{"in": L(x)}))
        for n in range(0, 20):
            for t in (b'"n%d"' % n + bytes(n), b'"n%d"' % n + b"]" * n + b" ", b'"n%d"' % n + b'"' * (n - 1), b'"r' + b"x" * n + b'"', b'"r' + b"x" * n, b'"s' + b"\\n" * n + b'"'):
                for sh, w in ((leaf("bytes"), b"%s"), (leaf("bytebuf"), b"%s"), (wrap("seq", leaf("bytes")), b"[%s]"), (wrap("map", leaf("str"), leaf("bytes")), b'{"k":%s}')):
                    out.append(dict(op="jde", fl=6, sh=sh, **{"in": L(w.replace(b"%s", t))}))
                    out.append(dict(op="jcur", fl=6, ops=[dict(o="val", sh=leaf("bytes")), dict(o="val", sh=leaf("bytes")), dict(o="end")], **{"in": L(t + b" " + t)}))
        # what comes after a string the codec has read, and what it leaves of the others
        W = [(leaf("bytes"), lambda: g.bytetext(B(g.r.randrange(0, 5)), 4)), (leaf("bytebuf"), lambda: g.bytetext(B(g.r.randrange(0, 5)), 4)), (leaf("str"), lambda: g.esc(g.astr(6).encode())), (leaf("u8"), lambda: str(g.r.randrange(256)).encode()), (leaf("any"), lambda: g.esc(g.astr(4).encode())), (leaf("ign"), lambda: g.bytetext(B(2), 4)),
             (wrap("seq", leaf("bytes")), lambda: b"[" + b",".join(g.bytetext(B(g.r.randrange(3)), 4) for _ in range(g.r.randrange(3))) + b"]"), (leaf("bytes"), lambda: b"[" + b" , ".join(str(x).encode() for x in B(g.r.randrange(4))) + b"]")]
        for _ in range(self.n(150)):
            ws = [g.pick(W) for _ in range(g.r.randrange(1, 7))]
            out.append(dict(op="jde", fl=4, sh=nd("tuple", c=[w[0] for w in ws]), **{"in": L(b"[" + b",".join(g.ws() + w[1]() + g.ws() for w in ws) + b"]")}))
            out.append(dict(op="jcur", fl=4, ops=[dict(o="val", sh=w[0]) for w in ws] + [dict(o="end")], **{"in": L(b" ".join(w[1]() for w in ws))}))
            v = v2(g.pick([0, 1, 2])) if g.p(.8) else text("bytes", B(g.r.randrange(4)))
            # the other codec: every form, every error, in every place
            one = leaf(g.pick(["bytes", "bytebuf"]))
            def framed(bad):
                b = B(g.pick([0, 1, 2, 3, 5, 17])); x = g.r.random()
                if x < .04 and bad: return b'""', b""
                if x < .2: return b'"r' + bytes(c for c in b if c != 34) + b'"', b""
                if x < .3 and bad: return b'"e' + bytes([g.r.randrange(63, 93)]) + b'"', b""
                if x < .45: return b'"s' + g.esc(b, .3)[1:], b""
                if x < .58: return b'"h' + b.hex().encode() + b'"', b""
                if x < .7: import base64; return b'"b' + base64.b64encode(b) + b'"', b""
                if x < .9: return b'"n%d"' % len(b), b
                if x < .95: return b'"true"', b""
                return (b'"' + bytes([g.r.randrange(256)]) + b'"', b"") if bad else (b'"true"', b"")
            def fr(bad=True): return b"".join(framed(bad))
            for _ in range(3):
                bad = g.p(.4)
                shs = [(one, fr(bad)), (wrap("seq", one), b"[" + b",".join(fr(bad) + g.ws() for _ in range(g.r.randrange(4))) + b"]"), (nd("tuple", c=[leaf("u8"), one, leaf("str"), one]), b'[7,' + fr(bad) + b',"x",' + fr(bad) + b"]"), (wrap("map", leaf("str"), one), b'{"k":' + fr(bad) + b',"l":' + fr(bad) + b"}"),
                       (nd("struct", c=[field("a", one), field("b", leaf("bool"))]), b'{"a":' + fr(bad) + b',"z":"e!","b":true}'), (wrap("opt", one), fr(bad)), (nd("enum", c=[nd("nvar", b=b"V", c=[one]), nd("tvar", b=b"T", c=[one, leaf("u8")])]), g.pick([b'{"V":' + fr(bad) + b"}", b'{"T":[' + fr(bad) + b",3]}"])), (leaf("any"), fr(False)), (leaf("ign"), fr(False)), (wrap("map", one, one), b'{"k":' + fr(bad) + b"}")]
                for sh, t in g.r.sample(shs, 4):
                    if g.p(.1): t = g.mutate(t)
                    out.append(dict(op="jde", fl=6, sh=sh, **{"in": L(t + g.ws())}))
                    if g.p(.15): out.append(dict(op="jpre", fl=6, sh=sh, **{"in": L(t[:60])}))
            for at in (g.r.randrange(12), g.r.randrange(12)):
                kind = g.pick(["calls", "sticky", "bounded", "vec", "slice"])
                at = 64 if kind in ("vec", "slice") else at
                out.append(dict(op="serf", fmt="j", fl=g.pick([4, 5]), vs=[v, v], kind=kind, cap=at, pay=f"WriterMyErr{at}" if kind == "bounded" else f"WriterMyErr{at + 7}" if kind in ("calls", "sticky") else "WriterBufferFull"))
        out += self.farof(self.j("C24far"), out, 60)
        return out, ["std", "none-r"]
