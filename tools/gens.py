"""Random histories. Every generator takes (rng, dictionary of literals in the code, tier) and returns a list of
   histories, each a list of calls [name, args...]. They only produce calls; what must come out is decided by the
   TLA+ specifications alone."""
def bs(s): return list(s if isinstance(s, (bytes, bytearray)) else s.encode("latin1"))
def scale(tier, q, t): return 4 * q if tier == "quick" else t

ALPHA = list(b"abcdefghijklmnopqrstuvwxyz")
# texts that programs tend to treat in a special way
MAGIC = [list(w) for w in (b"\xef\xbb\xbf", b"\xff\xfe", b"\x1a", b"\r\n", b"\n\n", b"\\\n", b"#", b"//", b"/*", b"--", b"::", b"..", b"~", b"$HOME", b"%s", b"%d", b"%%", b"0x1F", b"1e5", b"-0", b"nan", b"inf", b"null", b"none", b"true", b"false", b"default", b"include", b"<!--", b"]]>", b"&amp;", b"\\\"", b"\"\"", b"''", b"{}", b"[]", b"()", b"  ")]
def rbytes(rng, n, alphabet):
    r = [rng.choice(alphabet) for _ in range(n)]
    if n >= 12 and rng.random() < .3:      # plain text with one or two special characters, which may be far in
        plain, odd = [b for b in alphabet if 97 <= b <= 122], [b for b in alphabet if not 97 <= b <= 122]
        low = [b for b in odd if b in b"\"'\\={}%; \n\t\r#[]<>&/,._-:|*?!" or b == 0]
        if plain and odd:
            r = [rng.choice(plain) for _ in range(n)]
            for _ in range(rng.choice([1, 1, 2])): r[rng.choice([n - 1, n - 2, rng.randrange(n), rng.randrange(n)])] = rng.choice(low or odd)
    if n >= 2 and rng.random() < .03:
        w = rng.choice(MAGIC)
        if len(w) <= n and all(b in alphabet for b in w): i = rng.choice([0, 0, n - len(w), rng.randint(0, n - len(w))]); r[i:i + len(w)] = w
    if getattr(rng, "words", None) and n and rng.random() < .1:      # a string or character that is new in the code
        w = [b for b in rng.choice(rng.words) if b in alphabet][:n]
        if w: i = rng.choice([0, n - len(w), rng.randint(0, n - len(w))]); r[i:i + len(w)] = w
    return r
def rkey(rng, dic, maxlen=6):
    r = rng.random()
    if r < 0.1 and dic.strs: return list(rng.choice(dic.strs))[:24]
    if r < 0.2: return rbytes(rng, dic.size(rng, 0, 40), list(range(1, 256)))
    if r < 0.3: return kin(rng)
    return rbytes(rng, rng.randint(1, maxlen), ALPHA[:4])
def kin(rng):
    """one of the names that have a long beginning in common"""
    return bs("a_name_that_begins_like_many_others_do_and_goes_on_for_longer_than_one_would_expect")[:rng.choice([3, 7, 8, 15, 16, 31, 32, 33, 64, 83])] + rng.choice([[], bs("1"), bs("2"), bs("x")])

def flat_map(rng, dic, tier):
    hs = []
    for n in range(scale(tier, 150, 2500)):
        keys = [rkey(rng, dic) for _ in range(dic.size(rng, 1, 80) if n % 4 == 0 else rng.randint(1, 12))]
        vals = [0, 1, -1, 7] + [v for v in dic.near if abs(v) < 2**31]
        h = []
        growing = rng.random() < 0.5
        for _ in range(rng.choice([15, 60, 200])):
            k = rng.choice(keys); v = rng.choice(vals)
            f = rng.choice(["set"] * (6 if growing else 2) + ["index", "at", "cat", "cindex", "atset", "find", "cfind", "has", "count", "size", "ends", "erase"] + (["clear", "copy"] if rng.random() < 0.15 else []))
            if f in ("set", "atset"): h.append([f, k, v])
            elif f in ("size", "ends", "clear", "copy"): h.append([f])
            elif f == "erase": h.append([f, rng.choice([0, rng.randint(0, len(keys)), 0])])
            else: h.append([f, k])
        hs.append(h)
    for n in range(scale(tier, 8, 60)):     # many keys
        m = dic.size(rng, 30, 300, .5)
        keys = [bs("k%d" % i) for i in range(m)]; rng.shuffle(keys)
        h = [[rng.choice(["set", "set", "set", "index"]), k] for k in keys]
        h = [c + [i] if c[0] == "set" else c for i, c in enumerate(h)]
        for _ in range(40):
            k = rng.choice(keys + [bs("no"), bs("k")])
            h.append(rng.choice([["set", k, 5], ["find", k], ["has", k], ["count", k], ["at", k], ["index", k], ["cat", k], ["erase", rng.randint(0, m)]]))
        hs.append(h)
    return hs

def texts(rng, dic, n, special, lo=0, hi=60, zero=False):
    """byte strings: short ones over special characters, long ones, ones around the lengths that occur in the code"""
    anyb = list(range(0 if zero else 1, 256))
    r = []
    for k in range(n):
        m = k % 6
        if m == 0: s = rbytes(rng, dic.size(rng, lo, hi), anyb)
        elif m == 1: s = rbytes(rng, rng.randint(0, 12), special)
        elif m == 2: s = rbytes(rng, rng.randint(0, 30), special + ALPHA[:3])
        elif m == 3: s = rbytes(rng, dic.size(rng, lo, hi * 6), anyb if rng.random() < .5 else ALPHA + special[:2])
        elif m == 4:
            s = []
            if rng.random() < .3: s += [b for b in rng.choice(MAGIC) if b in anyb]
            for _ in range(rng.randint(1, 6)): s += list(rng.choice(dic.strs)) if dic.strs and rng.random() < .5 else rbytes(rng, rng.randint(0, 4), special + ALPHA[:2])
        else: s = [rng.choice(special)] + rbytes(rng, rng.randint(0, 8), ALPHA + special) + [rng.choice(special)]
        r.append(s)
    return r
def batch(calls, n=40): return [calls[k:k + n] for k in range(0, len(calls), n)]

def quoting(rng, dic, tier):
    sp = list(b'"\\\'={}%; \n\r\t0123456789nrtabx') + [0, 1, 7, 8, 27, 31, 32, 33, 127, 128, 255]
    cs = []
    for s in texts(rng, dic, scale(tier, 900, 20000), sp, zero=True):
        cs += [[f, s] for f in ("quoted", "needs", "tryq", "tryunq", "trip")]
        cs.append(["tryunq", [34] + s + [34]])
        if s: cs.append(["dec", s])
    cs += [["dec", [92, a, b, c]] for a in range(46, 58) for b in range(46, 58) for c in range(46, 58)]
    return batch(cs)

INT_TYPES = dict(short=(-2**15, 2**15 - 1), ushort=(0, 2**16 - 1), int=(-2**31, 2**31 - 1), uint=(0, 2**32 - 1),
                 long=(-2**63, 2**63 - 1), ulong=(0, 2**64 - 1), llong=(-2**63, 2**63 - 1), ullong=(0, 2**64 - 1))
def rint(rng, t, dic=None):
    lo, hi = INT_TYPES[t]
    k = rng.random()
    if k < .25: return rng.choice([lo, lo + 1, hi, hi - 1, 0, 1, min(9, hi), 10, -1 if lo < 0 else 1])
    if k < .5: return max(lo, min(hi, (1 << rng.randint(0, 63)) + rng.choice([-1, 0, 1])))
    if k < .7: return rng.randint(max(lo, -1000), min(hi, 1000))
    if k < .85: return max(lo, min(hi, rng.choice([1, -1]) * 10 ** rng.randint(0, 19) + rng.randint(-1, 1)))
    return rng.randint(lo, hi)

def char_stream(rng, dic, tier):
    hs = []
    delims = [b" \t\r\n\f\v", b" ", b"\n\r\t\v;", b",", b", \n", b"", b"\n", b";"]
    opsets = [b"", b"=", b"={}%", b"+-*/", b"=;", b"()"]
    quos = [b'"', b"\"'", b"", b"'"]
    for n in range(scale(tier, 1400, 15000)):
        d, o, q = list(rng.choice(delims)), list(rng.choice(opsets)), list(rng.choice(quos))
        kind = rng.choice(["new", "new", "newstr", "newfile", "load"])
        mode = n % 4
        reads = [["token", o, q], ["tokens", o, q], ["line"], ["word"], ["getc"], ["peekc"]]
        h = []
        if mode == 3:     # numbers: every read has a type that can hold the number
            t = []; rd = []
            for _ in range(rng.randint(1, 8)):
                ty = rng.choice(list(INT_TYPES) + ["float", "double"])
                if ty in ("float", "double"):
                    v = rng.choice([0, 1, -1, 2.5, -0.125, 100.75, 1023.5, -999.25, .5, 7])
                    s = rng.choice(["%g", "%+g", "%.3f"]) % v
                    if rng.random() < .2 and abs(v) < 1: s = s.replace("0.", ".", 1)
                else:
                    v = rint(rng, ty)
                    s = rng.choice(["%d", "%d", "%+d", "0%d"]) % v if v >= 0 else "%d" % v
                t += list(s.encode()) + (rbytes(rng, rng.randint(1, 2), d + [32]) if rng.random() < .97 else [122])
                rd.append([ty])
                if rng.random() < .1: rd.append(["peekc"])
            if rng.random() < .5: t = t[:-1]
            h = [[kind, t, d]] + rd + [["int"], ["peekc"]]
            hs.append(h); continue
        if mode == 0: t = rng.choice(texts(rng, dic, 6, list(b'"\'\\={}%; \n\r\t,0n') + d + o, hi=50))
        elif mode == 1: t = rbytes(rng, dic.size(rng, 0, 300), ALPHA[:3] + d + o + q + [32, 10])
        else:
            t = []
            for _ in range(rng.randint(1, 12)):
                w = rbytes(rng, rng.randint(0, 10), ALPHA + [200, 46])
                if rng.random() < .4 and q: qc = rng.choice(q); w = w[:rng.choice([0, 0, 0, 2])] + [qc] + w[2:5] + rng.choice([[], list(b"\\n"), list(b"\\\\"), list(b"\\033"), d, o, [92, qc], [rng.choice(q + [34, 39])], list(("\\%o" % rng.randint(0, 40)).encode()) + rbytes(rng, 1, list(b"0789a")), list(("\\%03o" % rng.randint(1, 35)).encode())]) + w[5:] + [qc]
                t += w + rbytes(rng, rng.choice([0, 1, 1, 3]), d + o + [32])
        t = [b for b in t if b]
        h = [[kind, t, d]]
        if rng.random() < .25:
            h = [[rng.choice(["newd", "newstrd", "loadd"]), [rng.choice([32, 9, 13, 10, 12, 11, 8, 14, 160]) if b in d or rng.random() < .05 else b for b in t]]]
            reads = [["tokend"]] * 3 + reads[2:]
        elif rng.random() < .03: h = [["loadec", d]]
        for _ in range(rng.randint(1, 14)): h.append(rng.choice(reads[:1] * 3 + reads) if rng.random() < .9 else rng.choice(reads))
        if rng.random() < .3:
            t2 = [b for b in t if b in range(48, 58)] + [32] + t[:4]
            h += [["new", t2, d], ["token", o, q], ["line"]]
        if rng.random() < .05: h.insert(rng.randint(0, len(h)), ["missing"])
        hs.append(h)
    return hs

def str_tools(rng, dic, tier):
    sp = list(b' \t\n\r\f\v=:;,._/\\m-+"\'') + [1, 160, 255]
    cs = []
    seps = [b"=", b" ", b",; ", b"/\\", b"_", b".:", b"\n\r", b"ab", b"\xff\x80", b""]
    for k, s in enumerate(texts(rng, dic, scale(tier, 1000, 20000), sp, hi=60)):
        st = list(rng.choice(seps)) if rng.random() < .8 else rbytes(rng, rng.randint(1, 3), sp)
        if rng.random() < .3:   # surround with separators
            s = rbytes(rng, rng.randint(0, 3), st or [32]) + s + rbytes(rng, rng.randint(0, 3), st or [32])
        cs += [[f, s, st] for f in ("trim", "trimr", "split", "leftof", "rightof", "kv")]
        cs += [[f, s] for f in ("trimd", "trimrd", "kvd", "tidy", "ext", "noext", "folder", "nofolder", "fmt1")]
        n = len(s)
        cs.append(["left", s, rng.choice([0, 1, n, n + 1, -1, -n, -n - 1, rng.randint(-n - 2, n + 2)])])
        cs.append(["right", s, rng.choice([0, n, -n, rng.randint(-n, n)])])
        cs.append(["mid", s, rng.choice([0, n, rng.randint(0, n)]), rng.choice([-1, 0, 1, n, n + 3, rng.randint(0, n)])])
        a = rng.randint(0, n); b = rng.randint(a, min(n, a + 4))
        t = rng.choice([s[a:b], s[:a], s[a:], rbytes(rng, 2, sp), s + [97], [97] + s])
        cs += [["instr", s, t, rng.choice([0, 0, rng.randint(0, n + 1)])], ["begins", s, t], ["ends", s, t], ["begins", s, s[:b]], ["ends", s, s[a:]]]
        cs.append(["fmt2", s, rng.choice([0, -1, 2147483647, -2147483647, rng.randint(-9999, 9999)])])
        cs.append(["tidy", rng.choice([list(b"m_"), list(b"_"), list(b"a::"), list(b"a::m_"), list(b"::"), []]) + s[:6] + rng.choice([[], [95], [95, 95], [58]])])
        cs.append(["ext", rng.choice([list(b"a.b/"), list(b"../"), list(b"a\\.b"), []]) + s[:8] + rng.choice([[], [46], list(b".ext"), list(b".tar.gz")])])
        for f in ("noext", "folder", "nofolder"): cs.append([f, cs[-1][1]])
    for n in sorted({v for x in dic.ints if 0 < x < 5000 for v in (x - 1, x, x + 1)} | {254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 9000}):
        cs += [["fmt1", rbytes(rng, n, ALPHA)], ["fmt0", rbytes(rng, n, ALPHA)], ["fmt3", rng.randint(-99, 99), n, rbytes(rng, rng.randint(0, 9), ALPHA)],
               ["fmt2", rbytes(rng, max(0, n - 4), ALPHA), rng.randint(0, 9)], ["trimd", [32] * n + [97] + [32] * 3], ["split", ([97] * 3 + [32]) * (n // 4), [32]]] if n < 2500 else [["fmt1", rbytes(rng, n, ALPHA)]]
    return batch(cs)

def glob(rng, dic, tier):
    cs = []
    for k in range(scale(tier, 2500, 40000)):
        alpha = rng.choice([ALPHA[:2], ALPHA[:4] + [46, 47, 92, 32], list(b"ab.*?/\\-!^"), ALPHA + [200, 255, 45, 33]])
        s = rbytes(rng, rng.choice([0, 1, 2, 3, 5, 8, 13, 30]), [b for b in alpha if b not in b"*?"])
        if rng.random() < .2: s = rbytes(rng, rng.randint(1, 8), alpha)      # texts that contain * and ?
        p = list(s)
        for _ in range(rng.randint(0, 4)):
            i = rng.randint(0, len(p)); j = rng.randint(i, len(p))
            if rng.random() < .6: p[i:j] = [42] * rng.choice([1, 1, 2])
            elif i < len(p): p[i] = 63
        if rng.random() < .4 and p: p[rng.randrange(len(p))] = rng.choice(alpha)
        if rng.random() < .2: p = rbytes(rng, rng.randint(0, 6), alpha + [42, 63])
        p = p[:40]
        cs.append(["match", s, p])
        if k % 4 == 0:
            d = rng.choice([[59], [59, 32], [44], [124, 44]])
            ps = [x for x in (rbytes(rng, rng.randint(0, 3), ALPHA[:2] + [42, 63]) for _ in range(rng.randint(0, 5)))] + ([[b for b in p if b not in d + [59]]] if rng.random() < .6 else [])
            rng.shuffle(ps)
            strs = [rbytes(rng, rng.randint(0, 4), ALPHA[:2]) for _ in range(rng.randint(0, 6))] + [[b for b in s if b not in d]]
            if k % 80 == 0:      # long lists and long elements
                many = dic.size(rng, 6, 300, .5); ps = [bs("x%d" % i) + rng.choice([[], [], [42], [63]]) for i in range(many)] + ps
                strs += [bs("x%d" % rng.randrange(many)) + rng.choice([[], [97]]) for _ in range(4)]; z = dic.size(rng, 30, 400, .5); strs.append([97] * z); ps += [[63] * z, [97] * z + [98], [98, 42]]
                strs += [rbytes(rng, 3, [120, 121]) for _ in range(rng.choice([0, dic.size(rng, 6, 100, .5)]))]
            rng.shuffle(strs)
            j = []
            for x in ps: j += x + rbytes(rng, rng.randint(1, 2), d)
            cs.append([rng.choice(["matcher", "matcherc"]), j, d, strs])
            j = []
            for x in ps: j += [b for b in x] + [59] * rng.randint(1, 2)
            cs.append([rng.choice(["matcherd", "matchercd", "matcherpn"]), j[:-1] if rng.random() < .5 else j, strs])
    return batch(cs)

def num_text(rng, dic, tier):
    cs = []
    for k in range(scale(tier, 2500, 40000)):
        t = rng.choice(list(INT_TYPES)); v = rint(rng, t)
        s = bs("%d" % v)
        cs += [[f, t, s] for f in ("to", "trip", "from", "is")]
        junk = rng.choice([b"", b" ", b"x", b"..", b" 12", b"\t", b"e5", b",3"])
        lead = rng.choice([b"", b" ", b"\n ", b"\t\v", b"+" if v >= 0 else b"", b"000" if v >= 0 else b""])
        cs.append([rng.choice(["from", "is"]), t, bs(lead) + s + bs(junk)])
        if t in ("long", "llong", "ulong", "ullong"):
            big = bs(str(rng.choice([2**63, 2**64, 2**64 + 1, 10**19, 10**20, 10**30, 2**63 - 1, 2**64 - 1])))
            if t in ("long", "llong") and rng.random() < .4: big = [45] + (big if big != bs(str(2**63)) else bs(str(2**63 + rng.randint(0, 1))))
            cs += [["from", t, big], ["is", t, big]]
            bad = rng.choice([b"", b" ", b"x1", b"-", b"+", b"--1", b"+-2", b".5", b"e", b" -", b"abc"])
            cs += [["from", t, bs(bad)], ["is", t, bs(bad)]]
        rt = rng.choice(["float", "double"])
        def real(): return rng.randint(-6400, 6400) * 15625 if rt == "float" else rng.choice([rng.randint(-100, 100), rng.randint(-10**7, 10**7), rng.randint(-10**14, 10**14), 10**rng.randint(0, 14), -10**rng.randint(0, 14)])
        def rtext(v):
            s = "%d.%06d" % (abs(v) // 10**6, abs(v) % 10**6); z = rng.random()
            if z < .4: s = s.rstrip("0"); s = s if rng.random() < .3 else s.rstrip(".")
            if z > .8 and s.startswith("0."): s = s[1:]
            return ("-" if v < 0 else rng.choice(["", "", "+"])) + s
        v = real(); cs += [["rto", rt, bs(str(v))], ["rtrip", rt, bs(str(v))]]
        cs.append([rng.choice(["rfrom", "ris"]), rt, bs(rng.choice(["", " ", "\t", "\n"]) + rtext(real()) + rng.choice(["", "", " ", "z", " 5", "-", ",1"]))])
        if k % 7 == 0:
            cs += [[rng.choice(["rfrom", "ris"]), rt, bs(rng.choice(["", " ", "z1", "-", ".", "-.", "+ 1", "--1", "z"]))], ["prec", rng.randint(0, 12)], [rng.choice(["eto", "efrom"]), bs(rng.choice(["0", "5", "-3", "1"]))]]
            cs.append(["rvec", rt, bs("".join(rng.choice(["", " "]) + rtext(real()) + rng.choice([" ", "\t", "\n ", " z" if rng.random() < .1 else " "]) for _ in range(rng.choice([0, 1, 3, 20])))), rng.choice([-1, -1, 0, 1, 2, 30])])
        if k % 3 == 0:
            n = rng.choice([0, 1, 2, 3, 7, 20, 70]); d = rng.choice([b" ", b",", b";", b", ", b" \t\n", b"|"])
            tx = []
            for i in range(n):
                tx += rbytes(rng, rng.choice([0, 0, 1]), list(d)) + bs("%d" % rint(rng, "llong")) + rbytes(rng, rng.choice([1, 1, 2]), list(d))
                if rng.random() < .03: tx += bs(rng.choice([b"x", b"-", b"1x"]))
            m = rng.choice([-1, 0, 1, n - 1 if n else 0, n, n + 1, rng.randint(0, 80)])
            cs.append(["vec", tx, m, bs(d)])
            cs.append(["vecd", [32 if b in d else b for b in tx], m])
            tx = []
            for i in range(rng.choice([1, 2, 3, n])): tx += bs("%d" % rint(rng, t)) + rbytes(rng, rng.choice([1, 1, 2]), [32, 9, 10])
            cs += [["vect", t, tx, rng.choice([-1, 0, 1, 2, n])], ["scant", t, tx]]
            w = []
            for i in range(n): w += rbytes(rng, rng.randint(1, 6), ALPHA + [45, 46, 49, 200]) + rbytes(rng, rng.choice([1, 1, 3]), [32, 9, 10, 13, 11, 12])
            cs.append(["vecw", w, m])
            kinds = rng.choice(["i", "w", "ii", "iw", "wi", "ww", "iii", "wwi", "iwi", "wiw"])
            tx = rbytes(rng, rng.choice([0, 1]), [32, 9])
            for q in kinds[:rng.choice([len(kinds), len(kinds), rng.randint(0, len(kinds))])]:
                tx += (bs("%d" % rint(rng, "int")) if (q == "i") == (rng.random() < .93) else rbytes(rng, rng.randint(1, 5), ALPHA + [46])) + rbytes(rng, rng.randint(1, 2), [32, 10, 9])
            if rng.random() < .5: tx = tx[:-1]
            if rng.random() < .2: tx += bs(b" extra 1 2")
            cs.append(["scan", list(kinds), tx])
            cs.append(["words", rbytes(rng, rng.randint(0, 30), list(range(1, 256)))])
    return batch(cs)

def path(rng, dic, tier):
    hs = []
    def rp():
        parts = []
        for _ in range(rng.randint(0, 4)):
            parts.append(rng.choice([[], bs("."), bs(".."), bs("a"), bs("a.b"), bs(".hid"), bs("x."), bs("a.b.c"), rbytes(rng, rng.randint(0, 5), ALPHA + [46, 46, 32, 200])]))
        r = []
        for i, q in enumerate(parts): r += q + (rng.choice([[47], [92], [47], [47, 47]]) if i + 1 < len(parts) or rng.random() < .2 else [])
        if rng.random() < .2: r = rng.choice([[47], [92], bs("C:\\"), [47, 47]]) + r
        return r
    for n in range(scale(tier, 1200, 20000)):
        h = [[rng.choice(["set", "sets", "setc", "setm", "assign", "assigns"]), rp()]]
        for _ in range(rng.randint(1, 10)):
            f = rng.choice(["ext", "ext", "name", "join", "joins", "joinp", "joinc", "joineq", "joineqs", "add", "pre", "eq"] + ["noext", "rmname", "noname", "pref", "parent", "copy", "out", "clear", "set"])
            if f == "eq": h.append([f, h[-1][1] if len(h[-1]) > 1 and rng.random() < .6 else rp()])
            elif f in ("noext", "rmname", "noname", "pref", "parent", "copy", "out", "clear"): h.append([f])
            elif f == "ext": h.append([f, rng.choice([[], bs("txt"), bs("tar.gz"), bs("c"), rbytes(rng, rng.randint(0, 12), ALPHA)])])
            else: h.append([f, rp()])
        hs.append(h)
    for k in range(scale(tier, 30, 300)):
        hs.append([["set", rbytes(rng, dic.size(rng, 0, 600), ALPHA + [47, 46, 92])], ["noext"], ["ext", bs("e")], ["rmname"], ["pref"], ["join", bs("z")]])
    return hs

def hash_(rng, dic, tier):
    cs = []
    for s in texts(rng, dic, scale(tier, 900, 15000), ALPHA[:4] + [1, 127, 128, 255], hi=40):
        s7 = [b & 127 or 1 for b in s]
        s = s if rng.random() < .3 else s7
        cs.append(["hash", s])
        k = rng.randint(0, len(s))
        cs.append(["parts", s[:k], s[k:]])
    for n in sorted({v for x in dic.ints if 0 < x < 700 for v in (x - 1, x, x + 1)} | set(range(0, 70)) | {255, 256, 257, 500}): cs.append(["hash", rbytes(rng, n, list(range(1, 128)))])
    return batch(cs)

def sorted_vector(rng, dic, tier):
    hs = []
    for n in range(scale(tier, 150, 3000)):
        h = []; tag = 0; size = 0
        keys = rng.choice([[1], [1, 2], list(range(6)), list(range(-50, 50)), [rng.randint(-2**30, 2**30) for _ in range(20)]])
        mode = n % 4
        for i in range(rng.choice([10, 40, 120])):
            f = rng.choice(["insert"] * 5 + ["find", "cfind", "erase", "ends", "size", "erange"] + (["clear", "copy"] if rng.random() < .1 else []))
            k = rng.choice(keys)
            if mode == 1: k = i
            if mode == 2: k = -i
            if f == "insert": h.append([f, k, tag]); tag += 1; size += 1
            elif f in ("find", "cfind"): h.append([f, rng.choice([k, k + 1, min(keys) - 1, max(keys) + 1])])
            elif f == "erase":
                j = rng.choice([0, max(0, size - 1), rng.randint(0, size + 1)]); h.append([f, j]); size -= j < size
            elif f == "erange":
                if rng.random() < .3:
                    a = rng.randint(0, size); b = rng.randint(a, min(size, a + 3)); h.append([f, a, b]); size -= b - a
            else:
                h.append([f])
                if f == "clear": size = 0
        hs.append(h)
    for n in range(scale(tier, 8, 60)):
        m = dic.size(rng, 30, 200, .5); r = rng.choice([5, 50, 10**6])
        ks = [rng.randint(-r, r) for _ in range(m)]
        h = [["insert", k, i] for i, k in enumerate(ks)]
        for _ in range(40): h.append(rng.choice([["find", rng.choice(ks)], ["cfind", rng.choice(ks) + rng.choice([0, 1])], ["insert", rng.choice(ks), 10**6 + len(h)], ["erase", rng.randint(0, m - 1)], ["ends"]]))
        hs.append(h)
    return hs

def circ_deque(rng, dic, tier):
    hs = []
    for n in range(scale(tier, 500, 8000)):
        h = [["new", rng.choice([0, 0, 1, 2, 3, 4, 5, 8, dic.size(rng, 0, 40)])]]; size = 0; val = 0
        bias = rng.choice([(5, 2, 1, 1), (1, 1, 5, 2), (3, 3, 3, 3), (4, 1, 1, 4), (1, 4, 4, 1), (6, 6, 1, 1)])
        for i in range(rng.choice([12, 40, 120])):
            f = rng.choices(["pushb", "pushf", "popb", "popf", "x"], weights=bias + (3,))[0]
            if f == "x": f = rng.choice(["back", "cback", "front", "cfront", "setb", "setf", "get", "cget", "set", "cap", "iter", "reserve"] + (["clear", "copy"] if rng.random() < .3 else []))
            if f in ("pushb", "pushf"): val += 1; size += 1; h.append([f, val])
            elif f in ("setb", "setf"): val += 1; h.append([f, val])
            elif f in ("get", "cget", "iter"): h.append([f, rng.randint(0, size)])
            elif f == "set": val += 1; h.append([f, rng.randint(0, size), val])
            elif f == "cap": h.append([f, rng.choice([0, size, size + 1, rng.randint(0, 50)])])
            elif f == "reserve": h.append([f, rng.choice([0, size, size + 1, size + rng.randint(0, 9), rng.randint(0, 40)])])
            else:
                h.append([f])
                if f in ("popb", "popf"): size = max(0, size - 1)
                if f == "clear": size = 0
        hs.append(h)
    for n in range(scale(tier, 8, 60)):     # many elements
        m = dic.size(rng, 30, 200, .5); h = [["new", rng.choice([0, 1, m, m // 2, m + 1])]]
        for i in range(m): h.append([rng.choice(["pushb", "pushb", "pushf"]), i])
        for i in range(rng.randint(0, m)): h.append([rng.choice(["popf", "popf", "popb"])])
        for i in range(m): h.append([rng.choice(["pushb", "pushb", "pushf"]), 1000 + i])
        h.append(["reserve", 3 * m])
        for i in range(m // 2): h.append([rng.choice(["popf", "popb"])])
        h += [["copy"], ["iter", 3]]
        hs.append(h)
    return hs

def dyn_array(rng, dic, tier):
    hs = []
    for n in range(scale(tier, 500, 8000)):
        h = []
        for i in range(rng.choice([8, 25, 60])):
            f = rng.choice(["new", "newv", "set", "set", "atset", "dataset", "get", "cget", "at", "cat", "fill", "copy", "copyc", "move", "movec", "swap", "reset"])
            a, b = rng.randint(1, 3), rng.randint(1, 3)
            if f == "new": h.append([f, a, dic.size(rng, 0, 20)])
            elif f == "newv": h.append([f, a, dic.size(rng, 0, 20), rng.randint(-9, 99)])
            elif f in ("set", "atset", "dataset"): h.append([f, a, rng.choice([0, 1, rng.randint(0, 21)]), rng.randint(1, 999)])
            elif f in ("get", "cget", "at", "cat"): h.append([f, a, rng.randint(0, 21)])
            elif f == "fill": h.append([f, a, rng.randint(1, 99)])
            elif f == "reset": h.append([f, a])
            elif f == "swap" and a == b: continue
            else: h.append([f, a, b])
        hs.append(h)
    for n in range(scale(tier, 40, 300)):   # large arrays
        m = dic.size(rng, 20, 400, .6); h = [rng.choice([["newv", 1, m, 7], ["new", 1, m]])]
        for _ in range(6): h.append(["set", 1, rng.choice([0, m - 1, m // 2, rng.randrange(m)]), rng.randint(1, 999)])
        for _ in range(6):
            a, b = rng.sample([1, 2, 3], 2)
            h.append(rng.choice([["copy", a, b], ["copyc", a, b], ["move", a, b], ["movec", a, b], ["swap", a, b], ["copy", b, a], ["fill", a, 5], ["at", a, m], ["cat", a, m - 1], ["set", a, m - 1, 3]]))
        hs.append(h)
    return hs

def flag_set(rng, dic, tier):
    hs = []
    for n in range(scale(tier, 400, 6000)):
        w = [8, 32, 64][n % 3]
        h = [["width", w]]
        flags = rng.choice([list(range(w)), [0, w - 1], [w - 1, w - 2, 0, w // 2], rng.sample(range(w), 4)])
        for i in range(rng.choice([6, 20, 50])):
            f = rng.choice(["set", "tset", "setv", "tsetv", "tclear", "setl", "clearl", "newl", "copy", "copyc", "any"] + (["clear"] if rng.random() < .2 else []))
            a = rng.randint(1, 2); x = rng.choice(flags)
            if f in ("setl", "clearl", "newl"): h.append([f, a, [rng.choice(flags) for _ in range(rng.randint(0, 6))]])
            elif f in ("setv", "tsetv"): h.append([f, a, x, rng.randint(0, 1)])
            elif f in ("copy", "copyc"): h.append([f, a, rng.randint(1, 2)])
            elif f in ("any", "clear"): h.append([f, a])
            else: h.append([f, a, x])
        hs.append(h)
    return hs

def frame_buffer(rng, dic, tier):
    hs = []
    for k in range(scale(tier, 400, 6000)):
        n = rng.choice([1, 2, 3, 4, 7, dic.size(rng, 1, 20)]); ch = rng.randint(0, 5); cnt = 0; v = 0
        labels = [bs(x) for x in ("a", "b", "cc", "x.y", "", "a ")]
        h = [["new", ch, n]]
        if k % 11 == 0: h = [rng.choice([["newd"], ["newc", ch]]), ["addch", labels[0]], ["find", labels[0]], ["resize", n, ch + 3, 4]]
        for i in range(rng.choice([15, 50, 120])):
            f = rng.choice(["add"] * 6 + ["at", "cat", "get", "cget", "rev", "crev", "last", "clast", "atset", "set", "revset", "lastset", "interp", "interp", "label", "find"] + (["resize", "resizef", "resized", "addch", "faddch"] if rng.random() < .4 else []))
            fr = rng.choice([cnt - 1, cnt - n, cnt - n - 1, cnt, cnt - 2, rng.randint(0, cnt + 1)]); fr = max(0, fr)
            c = rng.choice([0, ch, max(0, ch - 1), rng.randint(0, ch)]); v += 1
            if f == "add":
                h.append([f, [rng.choice([v * 8 + j, rng.randint(-999, 999)]) for j in range(ch)]]); cnt += 1
            elif f in ("at", "cat", "get", "cget"): h.append([f, fr, c])
            elif f in ("rev", "crev"): h.append([f, rng.choice([0, 1, n - 1, n, rng.randint(0, n)]), c])
            elif f in ("last", "clast"): h.append([f, c])
            elif f in ("atset", "set"): h.append([f, fr, c, v])
            elif f == "revset": h.append([f, rng.randint(0, n), c, v])
            elif f == "lastset": h.append([f, c, v])
            elif f == "interp": h.append([f, fr, c, rng.choice([0, 1, 2, 3, 4])])
            elif f == "label": h.append([f, c, rng.choice(labels)])
            elif f == "find": h.append([f, rng.choice(labels)])
            elif f == "addch":
                h.append([f, rng.choice(labels)]); ch = ch + 1 if ch < 8 else ch
                h.append(["find", h[-1][1]])
            elif f == "faddch": h.append([f, rng.choice(labels)])
            else:
                n2 = max(1, n + rng.choice([-2, -1, 0, 1, 3]))
                if f == "resizef": h.append([f, n2, v]); n = n2
                else:
                    c2 = ch + rng.choice([-1, 0, 0, 1, 2])
                    if c2 < 0: c2 = 0
                    h.append([f, n2, c2] + ([v] if f == "resize" else []))
        hs.append(fix_widths(h))
    for k in range(scale(tier, 12, 100)):   # large windows, many channels, long runs
        n = dic.size(rng, 10, 100, .5); ch = rng.choice([1, 2, dic.size(rng, 1, 16)]); h = [["new", ch, n]]; cnt = 0
        for i in range(min(n * 2 + 5, 180)):
            cnt += 1
            h.append(["add", [i * 20 + j for j in range(ch)]])
            if i % 9 == 0:
                fr = max(0, rng.choice([cnt - 1, cnt - n, cnt - n - 1, rng.randint(max(0, cnt - n), cnt)])); c = rng.randrange(ch)
                h.append(rng.choice([["at", fr, c], ["cat", fr, c], ["interp", fr, c, 2], ["get", max(0, cnt - 1), c], ["rev", min(n, cnt) - 1, c], ["last", c]]))
        hs.append(fix_widths(h))
    return hs
def fix_widths(h):
    """keep 'add' rows as wide as the buffer is (labels decide whether adding a channel is refused)"""
    ch = 0; lab = set(); named = {}; r = []
    for c in h:
        if c[0] in ("new", "newc", "newd"): ch = c[1] if len(c) > 1 else 0; named = {}
        elif c[0] in ("addch", "faddch"):
            t = tuple(c[1])
            if t not in named.values(): named[ch] = t; ch += 1
        elif c[0] == "label":
            t = tuple(c[2])
            if c[1] < ch and t not in named.values(): named[c[1]] = t
        elif c[0] in ("resize", "resized") and c[2] >= ch: ch = c[2]
        elif c[0] == "add": c = ["add", (c[1] + [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3, 2, 3, 8, 4])[:ch] + [0] * max(0, ch - 20 - len(c[1]))]
        r.append(c)
    return r

def storage(rng, dic, tier):
    hs = []
    labels = [bs(x) for x in ("a", "b", "cc", "p.x", "p.y", "p", "", "q.w")]
    for k in range(scale(tier, 500, 8000)):
        fr, ch = rng.choice([(0, 0), (0, 0), (1, 1), (2, 3), (3, 2), (1, 4), (0, 3), (4, 0), (dic.size(rng, 0, 6), dic.size(rng, 0, 6))])
        h = [["new", fr, ch, rng.randint(-5, 5)]] if rng.random() < .8 else []
        if not h: fr = ch = 0
        v = 10
        for i in range(rng.choice([8, 25, 60])):
            v += 1
            f = rng.choice(["addch", "addchd", "adddata", "addchfrom", "dataself", "frameself", "faddch", "find", "label", "frame", "framed", "framev", "framev", "frame", "at", "cat", "atset", "atset", "set", "last", "clast", "lastset", "lset", "lset", "lget", "clget", "vec3", "quat", "interp", "copy", "print"] + (["resize", "resize"] if rng.random() < .5 else []) + (["clear"] if rng.random() < .1 else []))
            l = rng.choice(labels)
            F = rng.choice([0, fr, max(0, fr - 1), rng.randint(0, fr + 1)]); C = rng.choice([0, ch, max(0, ch - 1), rng.randint(0, ch + 1)])
            if f in ("addch", "faddch"): h.append([f, l, v]); ch = min(8, ch + 1)
            elif f == "addchd": h.append([f, l]); ch += 1
            elif f == "adddata":
                d = [v * 3 + j for j in range(rng.choice([0, 1, fr, fr + 1, max(0, fr - 1)]))]; h.append([f, l, d]); ch += 1; fr = max(fr, len(d))
            elif f == "addchfrom": h.append([f, l, F, C]); ch += 1
            elif f == "dataself": h.append([f, l] if ch <= 1 else ["frameself"])
            elif f in ("find", "lget", "clget"): h.append([f, l])
            elif f == "label": h.append([f, C, l])
            elif f == "frame": h.append([f, v]); fr += 1
            elif f == "framed": h.append([f]); fr += 1
            elif f == "framev": h.append([f, [v * 2 + j for j in range(max(0, ch + rng.choice([0, 0, 0, 0, 1, -1])))]]); fr += 1
            elif f in ("at", "cat"): h.append([f, F, C])
            elif f in ("atset", "set"): h.append([f, F, C, v])
            elif f in ("last", "clast"): h.append([f, C])
            elif f == "lastset": h.append([f, C, v])
            elif f == "lset": h.append([f, l, v])
            elif f == "vec3": h.append([f, l, [v, -v, v * 2]])
            elif f == "quat": h.append([f, l, [v, -v, v * 2, 1]])
            elif f == "interp": h.append([f, F, rng.randint(0, 3), C])
            elif f == "resize":
                a, b = fr + rng.choice([-1, 0, 0, 1, 2]), ch + rng.choice([-1, 0, 0, 1, 2])
                a = max(0, a); b = max(0, b); h.append([f, a, b, v])
                fr, ch = max(fr, a), max(ch, b)
            else: h.append([f])
        hs.append(h)
    return hs + storage_big(rng, dic, tier)

def storage_big(rng, dic, tier):
    hs = []
    for k in range(scale(tier, 10, 80)):
        h = []; nc = dic.size(rng, 3, 40, .5); nf = dic.size(rng, 2, 40, .5); v = 0
        for i in range(rng.randint(1, nc)): h.append(["addch", bs("c%d" % i), i])
        c = len(h)
        for i in range(nf):
            v += 1; h.append(rng.choice([["frame", v], ["framev", [v * 50 + j for j in range(c)]]]))
            if rng.random() < .2 and c < nc: h.append(rng.choice([["addch", bs("c%d" % c), v], ["lset", bs("c%d" % c), v], ["adddata", bs("c%d" % c), [v] * rng.randint(0, i)]])); c += 1
            if rng.random() < .2: h.append(rng.choice([["at", i, c - 1], ["atset", i, c - 1, 7], ["at", i, c], ["at", i + 1, 0], ["find", bs("c%d" % (c - 1))], ["lget", bs("c%d" % rng.randrange(c))], ["interp", max(0, i - 1), 1, c - 1]]))
        h += [["copy"], ["print"]]
        hs.append(h)
    for k in range(scale(tier, 4, 20)):     # long or wide
        n = dic.size(rng, 60, 300, .5); h = [["new", 0, 0, 0]]
        if k % 2: h += [["addch", bs("a"), 1], ["addch", bs("b"), 2]] + [rng.choice([["frame", i], ["framev", [i, -i]]]) for i in range(n)] + [["at", n - 1, 1], ["at", n, 0], ["addch", bs("c"), 9], ["atset", n - 1, 2, 5], ["at", 0, 2], ["last", 2], ["find", bs("c")]]
        else: h += [["frame", 0], ["frame", 0]] + [["addch", bs("c%d" % i), i] for i in range(n)] + [["find", bs("c%d" % rng.randrange(n))], ["find", bs("c%d" % (n - 1))], ["clget", bs("c%d" % (n - 1))], ["lset", bs("c%d" % (n - 1)), 5], ["lset", bs("new"), 5], ["framev", list(range(n + 1))], ["at", 1, n - 1], ["at", 1, n + 1]]
        hs.append(h)
    return hs

def table_big(rng, dic, tier):
    hs = []
    for k in range(scale(tier, 10, 80)):
        h = []; nc = dic.size(rng, 3, 30, .5); nr = dic.size(rng, 3, 30, .5); r = c = 0; v = 0
        while r < nr or c < nc:
            v += 1
            if r < nr and rng.random() < .5: h.append([rng.choice(["addrow", "goarow"]), bs("r%d" % r), v]); r += 1
            elif c < nc: h.append([rng.choice(["addcol", "goacol"]), bs("c%d" % c), v]); c += 1
            else: h.append(["addrow", bs("r%d" % r), v]); r += 1
            if r and c and rng.random() < .6: h.append(["set", rng.randrange(r), rng.randrange(c), v * 7])
        for _ in range(10): h.append(rng.choice([["get", r - 1, c - 1], ["get", r, 0], ["lset", bs("r%d" % rng.randrange(r)), bs("c%d" % rng.randrange(c)), 5], ["lcget", bs("r%d" % rng.randrange(r)), bs("c%d" % rng.randrange(c))], ["find", bs("c1")]]))
        h += [["resize", r + 2, c + 1, 9], ["copy"], ["print"]]
        hs.append(h)
    for k in range(scale(tier, 4, 20)):     # long or wide
        n = dic.size(rng, 60, 250, .5); h = [["new", 0, 0]]
        if k % 2: h += [["addcol", bs("a"), 1]] + [[rng.choice(["addrow", "goarow"]), bs("r%d" % i), i] for i in range(n)] + [["set", n - 1, 0, 5], ["addcol", bs("b"), 2], ["lset", bs("r%d" % (n - 2)), bs("b"), 7]]
        else: h += [["addrow", bs("a"), 1], ["addrow", bs("b"), 2]] + [[rng.choice(["addcol", "goacol"]), bs("c%d" % i), i] for i in range(n)] + [["set", 1, n - 1, 5], ["addrow", bs("z"), 2], ["lset", bs("z"), bs("c%d" % (n - 2)), 7]]
        hs.append(h + [["copy"], ["print"]])
    return hs

def table(rng, dic, tier):
    hs = []
    labels = [bs(x) for x in ("a", "b", "cc", "Row", "", "z z")]
    for k in range(scale(tier, 500, 8000)):
        r, c = rng.choice([(0, 0), (0, 0), (1, 1), (2, 3), (3, 2), (0, 2), (2, 0), (dic.size(rng, 0, 5), dic.size(rng, 0, 5))])
        h = [["new", r, c]] if rng.random() < .8 else []
        if not h: r = c = 0
        v = 10
        for i in range(rng.choice([8, 25, 60])):
            v += 1
            f = rng.choice(["addrow", "addcol", "addrowd", "addcold", "goarow", "goacol", "get", "cget", "set", "set", "set", "lcget", "lget", "lset", "lset", "find", "copy", "print", "addrowfrom", "addcolfrom", "goacolfrom"] + (["resize", "resize"] if rng.random() < .5 else []))
            l, m = rng.choice(labels), rng.choice(labels)
            R = rng.choice([0, r, max(0, r - 1), rng.randint(0, r + 1)]); C = rng.choice([0, c, max(0, c - 1), rng.randint(0, c + 1)])
            if f in ("addrow", "goarow"): h.append([f, l, v]); r += 1
            elif f in ("addcol", "goacol"): h.append([f, l, v]); c += 1
            elif f == "addrowd": h.append([f, l]); r += 1
            elif f == "addcold": h.append([f, l]); c += 1
            elif f in ("get", "cget"): h.append([f, R, C])
            elif f == "set": h.append([f, R, C, v])
            elif f in ("lcget", "lget"): h.append([f, l, m])
            elif f == "lset": h.append([f, l, m, v])
            elif f == "find": h.append([f, l])
            elif f.endswith("from"): h.append([f, l, R, C]); r, c = (r + 1, c) if f == "addrowfrom" else (r, c + 1)
            elif f == "resize" and rng.random() < .4:
                a, b = r + rng.choice([0, 1, 2]), c + rng.choice([0, 1, 2]); h.append(["resizefrom", a, b, R, C])
            elif f == "resize":
                a, b = max(0, r + rng.choice([-1, 0, 1, 2])), max(0, c + rng.choice([-1, 0, 1, 2])); h.append([f, a, b, v]); r, c = max(r, a), max(c, b)
            else: h.append([f])
        hs.append(h)
    return hs + table_big(rng, dic, tier)

def memoize(rng, dic, tier):
    hs = []
    for k in range(scale(tier, 300, 5000)):
        small = rng.random() < .6
        num = (lambda: rng.randint(0, 2)) if small else (lambda: rng.choice([rint(rng, "int"), rng.randint(-20, 20)] + [v for v in dic.near if abs(v) < 2**31]))
        txt = (lambda: rbytes(rng, rng.randint(0, 2), ALPHA[:2])) if small else (lambda: rbytes(rng, dic.size(rng, 0, 60), ALPHA + [200]))
        h = []; pool = []
        for _ in range(rng.choice([10, 40, 150])):
            r = rng.random()
            if r < .08: h.append(["arm", rng.randint(1, 3)])
            elif r < .12: h.append(["copy"] + rng.choice([[1, 2], [2, 1], [3, 4], [4, 3]]))
            elif r < .13: h.append(["reset", rng.randint(1, 8)])
            elif r < .18: h.append(["fib", rng.randint(0, 30)])
            elif r < .45 and pool: h.append(rng.choice(pool))
            else:
                i = rng.randint(1, 8)
                a = {1: lambda: [num(), num()], 3: lambda: [txt()], 5: lambda: [], 6: lambda: [txt(), txt()], 7: lambda: [txt(), num(), rng.randint(-9, 9)]}[{2: 1, 4: 3, 8: 3}.get(i, i)]()
                h.append(["call", i, a]); pool.append(h[-1])
        hs.append(h)
    for k in range(scale(tier, 6, 30)):     # many distinct arguments, each asked twice
        m = dic.size(rng, 50, 400, .5); xs = [[rng.randint(-9999, 9999), i] for i in range(m)]
        a = [["call", 1, x] for x in xs]; b = a[:]; rng.shuffle(b); hs.append(a + b[:100])
    return hs

def factory(rng, dic, tier):
    hs = []
    classes = [bs(x) for x in ("A", "B", "A2", "C", "D", "E", "long_class_name_with_underscores_42")]
    for k in range(scale(tier, 300, 5000)):
        names = classes + [bs(x) for x in ("", "a", "ns::B", "A ", " A", "AA", "long_class")] + [rbytes(rng, dic.size(rng, 0, 30), list(range(1, 256))) for _ in range(4)]
        h = []
        for _ in range(rng.choice([8, 30, 80])):
            f = rng.choice([1, 1, 2, 3]); n = rng.choice(names); g = rng.choice(["reg", "reg", "regd", "create", "op", "index", "try", "has", "empty"] + (["copy", "new"] if rng.random() < .2 else []))
            if g == "reg": h.append([g, f, rng.choice(classes), n])
            elif g == "regd": h.append([g, f, rng.choice(classes)])
            elif g == "has": h.append([g, f, n])
            elif g in ("empty", "new"): h.append([g, f])
            elif g == "copy": h.append([g] + rng.choice([[1, 2], [2, 1]]))
            else: h.append([g, f, n, rng.choice([0, -1, 2147483647, rng.randint(-99, 99)]), rbytes(rng, rng.randint(0, 20), ALPHA + [0, 200])])
        hs.append(h)
    for k in range(scale(tier, 6, 40)):
        m = dic.size(rng, 20, 300, .5)
        h = [["reg", 1, rng.choice(classes), bs("n%d" % i)] for i in range(m)]
        for _ in range(30): h.append(rng.choice([["create", 1, bs("n%d" % rng.randrange(m)), 3, bs("q")], ["try", 1, bs("n%d" % rng.randrange(2 * m)), 3, bs("q")], ["has", 1, bs("n%d" % m)], ["reg", 1, rng.choice(classes), bs("n%d" % rng.randrange(m))]]))
        hs.append(h)
    return hs

def dictionary(rng, dic, tier):
    hs = []
    for k in range(scale(tier, 800, 10000)):
        n = rng.choice([100, 257]) if k % 50 == 0 else dic.size(rng, 0, 48) if k % 3 == 0 else rng.randint(0, 6)
        es = [rng.choice([rng.randint(0, 3), rng.randint(-50, 50), rint(rng, "int")]) for _ in range(max(1, n))]
        ns = [rkey(rng, dic) for _ in range(max(1, n))] + [[], bs("a"), bs("A")]
        ns = [[b for b in s if b] for s in ns]
        d = [[rng.choice(es) if rng.random() < .5 else es[i], rng.choice(ns) if rng.random() < .5 else ns[i]] for i in range(n)]
        h = [[rng.choice(["new", "make"]), d]]
        for _ in range(rng.randint(2, 16)):
            s = rng.choice(ns); s = rng.choice([s, s, s, s + [97], s[:-1], [b ^ 32 if 65 <= b <= 122 else b for b in s]])
            if 0 in s: s = [b for b in s if b]
            h.append(rng.choice([["name", rng.choice(es + [77])], ["elem", s], ["elemd", s, rng.randint(-9, 9)], ["lookup", s], ["copy"]]))
        hs.append(h)
    return hs

def rtree(rng, key, val, nodes, depth=0):
    """a random tree [value, [[key, tree]...]] of about that many nodes"""
    kids = []
    left = nodes
    while left > 0 and len(kids) < 40:
        n = rng.randint(0, left - 1) if depth < 12 and rng.random() < .6 else 0
        kids.append([key(), rtree(rng, key, val, n, depth + 1)]); left -= n + 1
    return [val(bool(kids)), kids]
def mutated(rng, key, val, t):
    """the tree with a single change, anywhere in it"""
    v, kids = t[0], [list(k) for k in t[1]]
    if kids and rng.random() < .75:
        i = rng.randrange(len(kids)); kids[i][1] = mutated(rng, key, val, kids[i][1]); return [v, kids]
    f = rng.choice(["value", "value", "key", "drop", "add", "swap"] if kids else ["value", "value", "add"])
    if f == "value": v = rng.choice([val(), v + [120], v[:-1], [b ^ 32 for b in v] if all(64 < b < 128 for b in v) else v[1:]])
    elif f == "key": i = rng.randrange(len(kids)); kids[i][0] = rng.choice([key(), kids[i][0] + [97], kids[i][0][:-1]])
    elif f == "drop": del kids[rng.randrange(len(kids))]
    elif f == "add": kids.insert(rng.randint(0, len(kids)), [key(), [val(), []]])
    else: i, j = rng.randrange(len(kids)), rng.randrange(len(kids)); kids[i], kids[j] = kids[j], kids[i]
    return [v, kids]
def places(t): return [[]] + [[i] + p for i, k in enumerate(t[1]) for p in places(k[1])]

def prop_node(rng, dic, tier):
    hs = []
    for k in range(scale(tier, 250, 4000)):
        keys = [bs(x) for x in ("a", "b", "ab", "a.b", "x1", "", ".", "c/d")] + [rkey(rng, dic) for _ in range(3)]
        key = lambda: rng.choice(keys[:4] if rng.random() < .7 else keys)
        val = lambda _=0: rng.choice([[], bs("v"), bs("42"), bs(" x "), rbytes(rng, rng.randint(0, 8), list(range(1, 256)))])
        size = dic.size(rng, 0, 60) if k % 5 == 0 else rng.randint(0, 8)
        t1, t2 = rtree(rng, key, val, size), rtree(rng, key, val, rng.randint(0, 8))
        h = [["load", 1, t1], ["load", 2, t2]]
        P = {1: places(t1), 2: places(t2)}
        for _ in range(rng.choice([6, 20, 50])):
            n = rng.randint(1, 2); p = rng.choice(P[n]) if rng.random() < .9 else [rng.randint(0, 3) for _ in range(rng.randint(0, 3))]
            if rng.random() < .3: p = []
            m = rng.randint(1, 2); q = rng.choice(P[m]) if rng.random() < .8 else p + [0]
            dk = lambda: [46 if rng.random() < .3 else b for b in key() + [46] + key()]
            f = rng.choice(["set", "set", "setnum", "setval", "assigns", "push", "pushv", "pushv", "erase", "setd", "setdd", "goa", "index", "assign", "setn", "setk", "pushn", "copyc", "copyp", "merge", "merge", "eq", "eq", "trychilddef", "insert", "insert", "massign", "msetn", "mctor", "mpush",
                            "get", "getdef", "any", "anydef", "getd", "tryd", "child", "cchild", "cindex", "trychild", "ctrychild", "nth", "cnth", "ith", "cith", "key", "find", "cfind", "info", "hasval", "haskey", "value", "select", "selpat", "values", "empty", "reserve"] + (["clear", "load"] if rng.random() < .2 else []))
            if f == "load": t = rtree(rng, key, val, rng.randint(0, 9)); h.append([f, n, t]); P[n] += places(t); continue
            c = [f, n, p]
            if f in ("set", "pushv", "getdef"): c += [key(), val()]
            elif f == "setnum": c += [key(), rng.choice([0, -1, 7, 2147483647, rng.randint(-999, 999)])]
            elif f in ("setval", "assigns"): c += [val()]
            elif f in ("erase", "nth", "cnth", "ith", "cith", "key"): c += [rng.choice([0, 0, 1, rng.randint(0, 5)])]
            elif f == "reserve": c += [rng.randint(0, 40)]
            elif f == "setd": c += [[47 if b == 46 else b for b in dk()], val(), 47]
            elif f == "setdd": c += [dk(), val()]
            elif f in ("getd", "tryd"): c += rng.choice([[dk(), 46], [[47 if b == 46 else b for b in dk()], 47]])
            elif f in ("any",): c += [[key() for _ in range(rng.randint(0, 3))]]
            elif f == "anydef": c += [[key() for _ in range(rng.randint(0, 3))], val()]
            elif f == "selpat": c += [rng.choice([bs("*"), bs("a*"), bs("?"), bs("*b"), key(), []])]
            elif f in ("assign", "setn", "setk", "pushn", "copyc", "copyp", "eq", "trychilddef"): c += [key(), m, q]
            elif f == "merge":
                if m == n: q = p
                c += [[], m, q, rng.randint(0, 1)]
            elif f == "insert":
                m = 3 - n; q = rng.choice(P[m]); a = rng.randint(0, 3); c += [[], m, q, rng.randint(0, 4), a, a + rng.randint(0, 2)]
            elif f in ("massign", "msetn", "mctor", "mpush"): c += [key(), 3 - n]
            elif f in ("info", "value", "values", "clear", "empty"): pass
            else: c += [key()]
            h.append(c)
            if f in ("push", "pushv", "goa", "index", "set", "setd", "setdd", "pushn", "setk"): P[n].append(p + [rng.randint(0, 4)])
        for _ in range(rng.randint(0, 4)):                # equality of trees that differ in one place only
            n = rng.randint(1, 2); t = rtree(rng, key, val, rng.randint(0, 10)); u = mutated(rng, key, val, t)
            h += [["load", n, t], ["load", 3 - n, u], ["eq", 1, [], [], 2, []], ["eq", 2, [], [], 1, []]]
        hs.append(h)
    return hs

def prop_access(rng, dic, tier):
    hs = []
    for k in range(scale(tier, 160, 3000)):
        keys = [bs(x) for x in ("a", "b", "ab", "a.b", "x1", "")] + [rkey(rng, dic) for _ in range(3)]
        key = lambda: rng.choice(keys[:4] if rng.random() < .7 else keys)
        val = lambda _=0: rng.choice([[], bs("v"), bs("42"), bs(" x "), rbytes(rng, rng.randint(0, 8), list(range(1, 256)))])
        t = rtree(rng, key, val, dic.size(rng, 20, 60) if k % 8 == 0 else rng.randint(0, 9))
        P = places(t); h = [["load", t]]
        for _ in range(rng.choice([6, 20, 40])):
            p = rng.choice(P)
            sub = t
            for x in p: sub = sub[1][x][1]
            here = [e[0] for e in sub[1]] or [[97]]
            kk = lambda: rng.choice(here) if rng.random() < .8 else key()
            dk = lambda: kk() + [46] + key()
            f = rng.choice(["value", "get", "getdef", "any", "anydef", "child", "cchild", "cindex", "nth", "cnth", "ith", "cith", "key", "trychild", "ctrychild", "trychilddef", "goa", "index", "getd", "tryd", "find", "cfind", "haskey", "hasval", "iterate", "citerate", "select", "selpat", "values", "quiet", "eq", "count", "count", "copy", "list", "clear", "fresh"] + (["print", "printat"] if rng.random() < .2 else []))
            c = [f, p]
            if f in ("list", "nth", "cnth", "ith", "cith", "key"): c.append(rng.randint(0, 4))
            elif f == "eq": c.append(rng.choice(P))
            elif f == "getdef": c += [kk(), val()]
            elif f in ("any", "anydef"): c += [[kk() for _ in range(rng.randint(0, 3))]] + ([val()] if f == "anydef" else [])
            elif f in ("getd", "tryd"): c += rng.choice([[dk(), 46], [kk() + [47] + key(), 47]])
            elif f == "selpat": c.append(rng.choice([bs("*"), bs("a*"), bs("?"), kk()]))
            elif f not in ("value", "iterate", "citerate", "values", "quiet", "count", "copy", "clear", "print", "printat"): c.append(kk())
            if f == "printat": c += [rng.randint(0, 3), rng.choice([0, 0, rng.randint(1, 20)])]
            h.append(c)
        hs.append(h)
    return hs

SPACES = {9, 10, 11, 12, 13, 32}
def trimmed(s):
    while s and s[0] in SPACES: s = s[1:]
    while s and s[-1] in SPACES: s = s[:-1]
    return s
PROP_CHARS = list(b"\"'\\={}%; \n\t\r#[]<>&/,.0179nrt") + ALPHA[:4]
def prop_text(rng, dic):
    r = rng.random()
    if r < .15: return []
    if r < .45: return rbytes(rng, rng.randint(1, 5), ALPHA)
    if r < .7: return trimmed(rbytes(rng, rng.randint(1, 10), PROP_CHARS))
    if r < .85: return trimmed(rbytes(rng, dic.size(rng, 1, 60), list(range(1, 256))))
    if r < .93 and dic.strs: return trimmed([b for s in (rng.choice(dic.strs), rng.choice(dic.strs)) for b in s if b])
    return trimmed(rbytes(rng, dic.size(rng, 60, 400), list(range(1, 256)) if rng.random() < .5 else ALPHA + [32]))
def prop_key(rng, dic):
    return [rng.choice(list(b"abcXYZ"))] + (prop_text(rng, dic) if rng.random() < .4 else rbytes(rng, rng.randint(0, 3), ALPHA[:3]))

def prop_file(rng, dic, tier):
    hs = []
    tree = lambda n: rtree(rng, lambda: prop_key(rng, dic), lambda k: prop_text(rng, dic) if rng.random() < (.4 if k else .8) else [], n)
    for k in range(scale(tier, 150, 3000)):
        n = dic.size(rng, 20, 150) if k % 6 == 0 else rng.randint(0, 12)
        hs.append([["trip", tree(n)]])
    for k in range(scale(tier, 60, 1000)):
        h = []
        for _ in range(rng.randint(3, 14)):
            i = rng.randint(1, 2)
            h.append(rng.choice([lambda: ["save", i, tree(rng.choice([0, 2, 8, 25])), rng.randint(0, 1)], lambda: ["savedef", i, tree(3)], lambda: ["savelim", i, tree(rng.choice([1, 5, 60])), rng.randint(0, 1), rng.choice([0, 1, 10, 50, 200, 1000, 4096, 9000])], lambda: [rng.choice(["load", "loadany", "parse", "loadec"]), i],
                                 lambda: ["again", i, rng.randint(1, 2), rng.randint(0, 1)], lambda: ["load", i], lambda: rng.choice([["remove", i], ["savebad"], ["loadec", i]])])())
        hs.append(h)
    for d in (3, 20, 40, 75):              # deep nesting
        t = [bs("v"), []]
        for i in range(d): t = [[] if i % 3 else bs("x y"), [[bs("k"), t], [bs("z"), [bs("1"), []]]]]
        hs.append([["trip", [[], t[1]]]])
    return hs

ENC = {34: [92, 34], 92: [92, 92], 13: [92, 114], 10: [92, 110], 9: [92, 116]}
def enc(b): return ENC[b] if b in ENC else [92, 48 + b // 64, 48 + b // 8 % 8, 48 + b % 8] if b < 32 else [b]
def prop_word(style, s):
    if style == 0: return s
    if style == 1: return [34] + [x for b in s for x in enc(b)] + [34]
    if style == 2: return [39] + [x for b in s for x in ([34] if b == 34 else enc(b))] + [39]
    return [34] + [x for b in s for x in ([92, b] if b in (34, 92) else [b])] + [34]
def prop_style(rng, s):
    st = [1, 3] + ([2, 2] if 39 not in s else [])
    if s and not any(b in (9, 10, 11, 13, 59, 34, 39, 61, 123, 125, 37, 0) for b in s): st += [0, 0, 0, 0]
    return rng.choice(st)
def prop_doc(rng, dic, tree):
    NLS = [[10], [13, 10], [13], [10, 10], [32, 10, 9]]
    def comment(end=False): return [37] + [b for b in rbytes(rng, rng.choice([0, 3, 12]), list(range(1, 256)) if rng.random() < .5 else PROP_CHARS) if b not in (10, 13)] + ([] if end and rng.random() < .5 else rng.choice(NLS[:3]))
    def lay(sep=False, semi=False, end=False):
        r = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            r += rng.choice([[32], [9], [12], [32, 32], rng.choice(NLS), comment(), [11]] + ([[59]] if semi else []))
        if end and rng.random() < .3: r += comment(True)
        if sep and not any(b in (9, 10, 11, 13, 59, 37) for b in r): r = rng.choice([[10], [59], [9], [13, 10], comment()]) + r
        return [["l", r]] if r else []
    d = []
    def prev(): 
        for p in reversed(d):
            if p[0] != "l": return p[0]
        return None
    def gap(p):     # layout before a piece
        d.extend(lay(sep=p == "k" and prev() == "v", semi=prev() in (None, "v", "{", "}")))
    def node(k, t):
        gap("k"); d.append(["k", prop_style(rng, k), k])
        if t[0] or rng.random() < (.25 if t[1] else .7): gap("="); d.append(["="]); gap("v"); d.append(["v", prop_style(rng, t[0]), t[0]])
        elif not t[1]: gap("{"); d.append(["{"]); gap("}"); d.append(["}"]); return
        if t[1]:
            gap("{"); d.append(["{"])
            for e in t[1]: node(*e)
            gap("}"); d.append(["}"])
    for e in tree[1]: node(*e)
    d.extend(lay(semi=True, end=True))
    text = []
    for p in d: text += p[1] if p[0] == "l" else prop_word(p[1], p[2]) if p[0] in "kv" else bs(p[0])
    return ["doc", d, text]
def prop_parse(rng, dic, tier):
    cs = []
    for k in range(scale(tier, 300, 6000)):
        t = rtree(rng, lambda: prop_key(rng, dic), lambda k: prop_text(rng, dic) if rng.random() < .6 else [], dic.size(rng, 10, 60) if k % 10 == 0 else rng.randint(0, 7))
        c = prop_doc(rng, dic, t); cs.append(c)
        x = c[2]
        if x and rng.random() < .6: cs.append(["any", x[:rng.randint(0, len(x))]])
        if x and rng.random() < .6:
            y = list(x)
            for _ in range(rng.randint(1, 4)): y[rng.randrange(len(y))] = rng.choice(PROP_CHARS)
            cs.append(["any", y])
    for s in texts(rng, dic, scale(tier, 400, 8000), PROP_CHARS): cs.append(["any", s])
    return batch(cs, 15)

def ini(rng, dic, tier):
    def line(n):
        r = rng.random()
        if r < .5: return rbytes(rng, rng.randint(1, 5), ALPHA)
        if r < .8: return trimmed([b for b in rbytes(rng, dic.size(rng, 1, n), list(range(1, 256))) if b not in (10, 13)])
        return trimmed(rbytes(rng, rng.randint(1, 8), list(b"#=[]; \t\"'%\\ab")))
    def key():
        while True:
            k = [b for b in line(30) if b != 61]; k = trimmed(k)
            if k and k[0] not in (35, 91): return k
    def items(n, empty):
        seen, r = [], []
        for _ in range(n):
            k = key() if rng.random() < .6 else bs("k%d" % rng.randint(0, 400))
            if k in seen: continue
            seen.append(k); v = line(300 if rng.random() < .1 else 40) if rng.random() < .85 or not empty else []
            if not v and not empty: v = [49]
            r.append([k, [v, []]])
        return r
    hs = []
    def tree(k=1):
        big = k % 8 == 0
        t = items(dic.size(rng, 10, 60) if big else rng.randint(0, 5), False)
        for _ in range(rng.randint(0, 12 if big else 3)): t.append([line(20) or [103], [[], items(rng.randint(1, 30 if big else 4), True) or [[[97], [[49], []]]]]])
        return [[], t]
    for k in range(scale(tier, 150, 3000)): hs.append([["trip", tree(k)]])
    for k in range(scale(tier, 20, 300)): hs.append([rng.choice([["save", rng.randint(1, 2), tree()], ["load", rng.randint(1, 2)]]) for _ in range(8)])
    for k in range(scale(tier, 200, 4000)):
        ls = []
        names = [bs(x) for x in ("a", "b", "c d", "g", "[x", "x]")]
        sp = lambda: rng.choice([[], [], [32], [9, 32]])
        for _ in range(rng.choice([3, 8, 30])):
            r = rng.random()
            if r < .55: ls.append(sp() + rng.choice(names) + sp() + [61] + sp() + (line(20) if rng.random() < .7 else rng.choice(names)) + sp())
            elif r < .7: ls.append(sp() + [91] + (line(10) if rng.random() < .3 else rng.choice(names)) + [93] + sp())
            elif r < .8: ls.append(sp() + [35] + line(30))
            elif r < .9: ls.append(sp())
            elif r < .93: ls.append(line(12))
            else: ls.append(sp() + rng.choice(names) + [61])
        hs.append([["lines", ls, rng.randint(1, 3)]])
    return hs

def xml_render(e):
    t = [60] + e[0]
    for a in e[1]: t += a[0] + a[1] + [61, a[2]] + a[3] + [a[2]]
    t += e[2]
    if e[4]: return t + [47, 62]
    t += [62]
    for x in e[3]: t += x[1] if x[0] in "tw" else [60, 33, 45, 45] + x[1] + [45, 45, 62] if x[0] == "c" else xml_render(x[1])
    return t + [60, 47] + e[0] + [62]
def xml(rng, dic, tier):
    name = lambda: [rng.choice(list(b"abcXYZ_"))] + rbytes(rng, rng.choice([0, 1, 3, 12]), list(b"abcXYZ019_-."))
    def val():
        r = rng.random()
        if r < .4: v = rbytes(rng, rng.randint(1, 6), ALPHA)
        elif r < .7: v = rbytes(rng, rng.randint(1, 12), list(b"<>&\"';=/!- \n\tab#x1"))
        else: v = rbytes(rng, dic.size(rng, 1, 300), list(range(1, 256)))
        return v if trimmed(v) else [120]
    def raw(bad):
        r = []
        for _ in range(rng.randint(1, 5)):
            r += rng.choice([bs("&lt;"), bs("&gt;"), bs("&amp;"), bs("&quot;"), bs("&apos;"), bs("&#%d;" % rng.randint(1, 60000)), bs("&#x%x;" % rng.randint(1, 60000)), bs("&#x%X;" % rng.randint(1, 300)), val(), val(), [62], [32]]) if rng.random() < .6 else rbytes(rng, 2, ALPHA)
        out, i = [], 0
        ent = False
        for k, b in enumerate(r):           # no loose '&', no '<', no quote of this kind
            if b == 38:
                import re
                m = re.match(rb"&(?:lt|gt|amp|quot|apos|#[0-9]+|#x[0-9a-fA-F]+);", bytes(r[k:k + 12]))
                if not m: continue
            if b in bad: continue
            out.append(b)
        # dropping characters may have built new pieces: keep only if every '&' starts an entity
        import re
        if re.sub(rb"&(?:lt|gt|amp|quot|apos|#[0-9]+|#x[0-9a-fA-F]+);", b"", bytes(out)).find(b"&") >= 0: out = [120]
        for m in re.finditer(rb"&#(x?)([0-9a-fA-F]+);", bytes(out)):
            v = int(m.group(2), 16 if m.group(1) else 10)
            if not 0 < v < 65536: return [121]
        return out if trimmed(out) else [121]
    ws = lambda: rng.choice([[32], [10], [9, 32], [13, 10]])
    def elem(n, d=0):
        at = []
        for _ in range(rng.choice([0, 0, 1, 3])):
            q = rng.choice([34, 39]); at.append([ws(), name(), q, raw((60, q)) if rng.random() < .8 else []])
        items = []
        com = lambda: ["c", [b for b in rbytes(rng, rng.randint(0, 8), list(b"<>&ab/ '\"")) if b != 45]]
        if n == 0:
            r = rng.random()
            if r < .3: return [name(), at, rng.choice([[], [32]]), [], 1]
            if r < .9: items = [["t", raw((60,))]]; items = ([com()] if rng.random() < .2 else []) + items + ([com()] if rng.random() < .2 else [])
        else:
            while n > 0:
                k = rng.randint(0, n - 1) if d < 10 else 0; n -= k + 1
                if rng.random() < .5: items.append(["w", ws()])
                if rng.random() < .2: items.append(com())
                items.append(["e", elem(k, d + 1)])
            if rng.random() < .5: items.append(["w", ws()])
        return [name(), at, rng.choice([[], [], [32], [10]]), items, 0]
    hs = []
    tree = lambda n: [[], [[name(), rtree(rng, name, lambda k: [] if k else val() if rng.random() < .8 else [], n)]]]
    for k in range(scale(tier, 120, 2500)): hs.append([["trip", tree(dic.size(rng, 10, 80) if k % 8 == 0 else rng.randint(0, 6))]])
    for k in range(scale(tier, 20, 300)):
        hs.append([rng.choice([lambda: ["save", rng.randint(1, 2), tree(4)], lambda: [rng.choice(["load", "loadany", "loadec"]), rng.randint(1, 2)]])() for _ in range(8)])
    pros = [[], bs('<?xml version="1.0"?>'), bs('<?xml version="1.0" encoding="utf-8"?>\n'), bs("\n \t"), bs("<!-- a > b -->\n"), bs("<!DOCTYPE a>\n"), bs('<?xml version="1.0"?>\r\n<!-- x --><!---->\r\n')]
    eps = [[], [10], bs("\n<!-- end -->\n"), [32]]
    for k in range(scale(tier, 250, 5000)):
        e = elem(dic.size(rng, 5, 40) if k % 10 == 0 else rng.randint(0, 5)); p, q = rng.choice(pros), rng.choice(eps)
        t = xml_render(e)
        if rng.random() < .75: hs.append([["xml", p, e, q, p + t + q]])
        else: n = rng.randint(1, len(t) - 1); hs.append([["cut", e, n, t[:n]]])
    return hs

def include(rng, dic, tier):
    INC, FILE, MERGE = bs("INCLUDE"), bs("file"), bs("merge_children")
    def rel(a, b):      # how file b is named in file a
        da, db = a.split("/")[:-1], b.split("/")
        k = 0
        if rng.random() < .3: pass
        else:
            while k < len(da) and k < len(db) - 1 and da[k] == db[k]: k += 1
        r = [".."] * (len(da) - k) + db[k:]
        if rng.random() < .1: r = ["."] + r
        return "/".join(r)
    def case(big):
        n = dic.size(rng, 8, 20) if big else rng.choice([1, 2, 3, 3, 4, 5])
        dirs = ["", "", "d/", "d/e/", "g h/", "k.x/"]
        names = []
        for i in range(n): names.append(rng.choice(dirs) + "f%d" % i + rng.choice([".prop", ".prop", ".xml", "", ".pr.op", ".xml.p"]))
        direct = rng.choice([INC, INC, INC, bs("use"), bs("INCLUDE2"), bs("include")])
        cyc = rng.random() < .2
        keys = [bs(k) for k in ["a", "b", "c", "dd", "INCLUD", "file", "merge_children", "INCLUDE2"]]
        keys = [k for k in keys if k != direct]
        budget = [rng.choice([3, 6, 14]) + (3 if big else 0) for _ in range(n)]
        fan = [0]
        def inc(i):
            js = range(n) if cyc else range(i + 1, n)
            if not js: return None
            j = rng.choice(list(js))
            if not cyc and big and rng.random() < .7: j = i + 1
            t = bs(rel(names[i], names[j]))
            if rng.random() < .02: t = bs("nofile") if rng.random() < .5 else bs("nodir/" + names[j].split("/")[-1])
            kids = [[FILE, [t, []]]]
            m = rng.random()
            if m < .4: kids.append([MERGE, [bs("1"), []]])
            elif m < .5: kids.append([MERGE, [bs("0"), []]])
            if rng.random() < .2: kids.reverse()
            if rng.random() < .1: kids.append([bs("note"), [bs("n"), []]])
            if rng.random() < .01: kids = []
            return [direct, [[], kids]]
        def node(i, d):
            budget[i] -= 1
            kids = []
            k = rng.choice([0, 0, 1, 2, 3, 5]) if d else rng.choice([1, 2, 4, 8])
            for _ in range(k if d < 5 else 0):
                if budget[i] <= 0: break
                if rng.random() < .35 and (cyc or fan[0] < 14):
                    x = inc(i)
                    if x: fan[0] += 1; kids.append(x); continue
                kids.append([rng.choice(keys), node(i, d + 1)])
            xml = names[i].endswith(".xml")
            v = bs(rng.choice(["", "v", "1", "x y", "f%d" % i])) if not (xml and kids) else []
            return [v, kids]
        fs = []
        for i in range(n):
            xml = names[i].endswith(".xml")
            if i == 0: roots = 1 if xml else rng.choice([0, 1, 1, 2, 4])
            else: roots = 1 if xml or rng.random() < .95 else rng.choice([0, 2])
            ks = []
            for _ in range(roots):
                x = inc(i) if rng.random() < .25 and fan[0] < 14 else None
                if x: fan[0] += 1
                ks.append(x if x else [rng.choice([bs("root"), bs("a"), bs("b")]), node(i, 0)])
            fs.append([bs(names[i]), [[], ks]])
        return ["load", fs, bs(names[0]), [] if direct == INC and rng.random() < .7 else direct]
    def chain(n, m, loop=False):
        fs = []
        for i in range(n):
            last = i == n - 1 and not loop
            k = [[bs("x"), [bs(str(i)), []]]] if last else [[INC, [[], [[FILE, [bs("c%d" % ((i + 1) % n)), []]]] + ([[MERGE, [[49], []]]] if m else [])]]]
            fs.append([bs("c%d" % i), [[], [[bs("r%d" % i), [[], k]]]]])
        return [["load", fs, bs("c0"), []]]
    h = batch([case(False) for _ in range(scale(tier, 1500, 12000))], 20) + batch([case(True) for _ in range(scale(tier, 150, 1500))], 10)
    # depth below a hundred files is fine: nesting without merging keeps the tree shallow only when merged
    h += [chain(n, 1) for n in [2, 9, 10, 11, 33, 63, 99, 100]] + [chain(n, 0) for n in (5, 30, 60)] + [chain(n, m, True) for n in (1, 2, 7) for m in (0, 1)]
    h += [chain(101, 1)] if tier == "thorough" else []
    return h

def prop_typed(rng, dic, tier):
    W = dict(short="int16", int="int32", uint="uint32", long="int64", ulong="uint64", llong="int64")
    R = dict(short=(-2**15, 2**15 - 1), int=(-2**31, 2**31 - 1), uint=(0, 2**32 - 1), long=(-2**63, 2**63 - 1), ulong=(0, 2**64 - 1), llong=(-2**63, 2**63 - 1))
    def num(k):
        lo, hi = R[k]
        r = rng.random()
        if r < .2: v = rng.choice([lo, hi, lo + 1, hi - 1, 0, -1, 1])
        elif r < .5: v = rng.choice(dic.near)
        elif r < .7: v = rng.randint(-1000, 1000)
        else: v = rng.getrandbits(rng.randint(1, 64)) * rng.choice([1, -1])
        return bs(str(min(hi, max(lo, v))))
    def real(bits=30): return rng.choice([0, 1, -1, 64, -64, rng.randint(-640, 640), rng.randint(-2**bits, 2**bits)])
    def text(n=None):
        n = rng.choice([0, 1, 3, 12, dic.size(rng, 13, 80)]) if n is None else n
        return rbytes(rng, n, ALPHA + bs(" \t\n\"'\\={}%;0.-") if rng.random() < .6 else list(range(1, 256)))
    def key(): return rng.choice(KS) if rng.random() < .8 else rkey(rng, dic)
    KS = [bs(x) for x in ("a", "b", "c", "alpha", "beta", "gamma", "eps", "o.delta_x", "item0", "x", "", "a ", "A")]
    def vec(n, bits=30): return [real(bits) for _ in range(n)]
    def length(): return rng.choice([0, 1, 2, 3, 5, 11, dic.size(rng, 6, 40)]) if rng.random() < .97 else rng.choice([99, 101, 128, 260, dic.size(rng, 40, 400)])
    def tree(): return rtree(rng, lambda: rkey(rng, dic), lambda g: text(rng.choice([0, 2])), rng.randint(1, 8))
    def val(k):
        if k in R: return num(k)
        return dict(str=text, path=lambda: text(rng.choice([1, 4, 9])), bool=lambda: rng.randint(0, 1), enum=lambda: rng.choice([-3, 0, 1000, rng.randint(-2**31, 2**31 - 1)]),
            char=lambda: rng.choice(list(range(33, 127))), double=real, float=lambda: real(22), vec3=lambda: vec(3), vec3f=lambda: vec(3, 22), quat=lambda: vec(4), tf=lambda: [vec(3), vec(4)],
            vint=lambda: [num("int") for _ in range(length())], vlong=lambda: [num("long") for _ in range(length())], vstr=lambda: [text(rng.choice([0, 1, 5])) for _ in range(length())],
            vdouble=lambda: vec(length()), vvec3=lambda: [vec(3) for _ in range(length())], vvint=lambda: [[num("int") for _ in range(rng.choice([0, 1, 3]))] for _ in range(rng.choice([0, 1, 2, 6]))], node=tree)[k]()
    KINDS = list(R) + ["str", "path", "bool", "enum", "char", "double", "float", "vec3", "vec3f", "quat", "tf", "vint", "vlong", "vstr", "vdouble", "vvec3", "vvint", "node"]
    LISTED = ["vint", "vlong", "vstr", "vdouble", "vvec3", "vvint"]
    MEM = dict(alpha=("alpha", "int"), beta_=("beta", "double"), m_gamma=("gamma", "str"), m_eps__=("eps", "vint"))
    MEM["o.delta_x_"] = ("o.delta_x", "vec3")
    def history(n, wide):
        st, h = [], []        # [key, kind]
        pos = lambda k: next((i for i, e in enumerate(st) if e[0] == k), None)
        def put(k, kind):
            i = pos(k)
            if i is None: st.append([k, kind])
            else: st[i][1] = kind
        for _ in range(n):
            r = rng.random(); k = key(); kind = rng.choice(KINDS)
            i = pos(k)
            if r < .3 or (wide and r < .6):
                h.append([rng.choice(["set", "assign"]), k, kind, val(kind)]); put(k, kind)
            elif r < .36: h.append(["push", k, kind, val(kind)]); st.append([k, kind])
            elif r < .38: h.append(["setlit", k]); put(k, "str")
            elif r < .62:
                kd = st[i][1] if i is not None else kind
                h.append(["get", k, kd] if rng.random() < .5 else ["getdef", k, kd, val(kd)])
            elif r < .76:
                ks = [key() for _ in range(rng.randint(0, 4))]
                i = next((pos(x) for x in ks if pos(x) is not None), None)
                kd = st[i][1] if i is not None else kind
                h.append(["getany", ks, kd] if rng.random() < .5 else ["getanydef", ks, kd, val(kd)])
            elif r < .95:
                m = rng.choice(list(MEM)); mk, kd = bs(MEM[m][0]), MEM[m][1]
                f = rng.choice(["init", "initreq", "initnamed", "initnamedreq", "setprop", "setpropnamed"])
                kk = k if "named" in f else mk
                i = pos(kk)
                if f.startswith("init") and i is not None and st[i][1] != kd: continue
                h.append([f, m] + ([kk] if "named" in f else []) + ([] if f.endswith("req") else [val(kd)]))
                if f.startswith("set"): put(kk, kd)
            elif r < .96: h.append(["copy"])
            elif r < .965: h.append(["clear"]); st = []
            elif r < .975: h.append(["has", k])
            else:
                i = next((i for i, e in enumerate(st) if e[1] in LISTED + ["vec3", "vec3f", "quat"] and pos(e[0]) == i), None) if rng.random() < .9 else None
                k, kd = st[i] if i is not None else (bs("none"), rng.choice(LISTED))
                h += [["elem", k, kd, rng.choice([0, 1, 2, 5, 9, 10, 100, rng.randint(0, 400)])] if kd in LISTED else ["part", k, kd, bs(rng.choice("xyzw"))] for _ in range(3)]
        return h
    h = [history(rng.choice([6, 15, 40]), False) for _ in range(scale(tier, 400, 4000))] + [history(60, True) for _ in range(scale(tier, 30, 400))]
    def dec(v):          # 64ths as text
        s = "-" if v < 0 else ""; v = abs(v)
        t = "%d.%06d" % (v // 64, v % 64 * 15625)
        t = rng.choice([t, t.rstrip("0").rstrip(".")])
        return s + t
    ones = []
    for _ in range(scale(tier, 800, 6000)):
        R64 = lambda: rng.choice([0, 64, -64, 640, rng.randint(-2000, 2000), rng.randint(-2**20, 2**20)])
        RI = lambda: 64 * rng.randint(-2**20, 2**20)
        r = rng.random()
        if r < .3:
            a, b, s, t = dec(R64()), dec(R64()), rng.choice(["", " ", "  "]), rng.choice(["", " "])
            ones.append(["boundsof", [bs(a + s + ".." + t + b), []], 0])
        elif r < .4: ones.append(["boundsof", [bs("%d..%d" % (RI() // 64, RI() // 64)), []], 1])
        elif r < .45: ones.append(["boundsof", [bs(dec(R64())), []], 0])
        elif r < .7:
            d = rng.randint(0, 1)
            ks = [[bs(rng.choice(["min", "max", "lower", "upper", "x", "mini", "MAX"])), [bs(str(RI() // 64) if d else dec(R64())), []]] for _ in range(rng.randint(1, 5))]
            ones.append(["boundsof", [[], ks], d])
        elif r < .85: ones.append(["vec3of", [bs(rng.choice([" ", "  "]).join(dec(R64()) for _ in range(3))), []], rng.randint(0, 1)])
        else: ones.append(["vec3of", [[], [[bs(rng.choice(["x", "y", "z", "w", "X"])), [bs(dec(R64())), []]] for _ in range(rng.randint(0, 5))]], rng.randint(0, 1)])
    return h + batch(ones)

def log(rng, dic, tier):
    def text(zero=False, fmt=False):
        n = rng.choice([0, 1, 4, 20, dic.size(rng, 20, 300)]) if rng.random() < .97 else rng.choice([1022, 1023, 1024, 1025, 1500, 2047, 2048, 5000])
        if dic.near and rng.random() < .05: n = rng.choice([x for x in dic.near if 0 <= x <= 5000])
        t = rbytes(rng, n, ALPHA + bs(" %\n\t\\\"{}")) if rng.random() < .7 else rbytes(rng, n, list(range(0 if zero else 1, 256)))
        return [b for b in t if not (fmt and b == 37)]
    def args(): return [["t", text(True)] if rng.random() < .6 else ["n", rng.choice([0, -1, 7, 2**31 - 1, -2**31 + 1, rng.randint(-10**6, 10**6)])] for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    def history(n, busy, slots=3):
        h, ex = [], {}
        for _ in range(n):
            r = rng.random()
            L = lambda: rng.randint(1, 7)
            free = [i for i in range(1, slots + 1) if i not in ex]
            if r < (.25 if busy else .1) or not ex:
                if free and (rng.random() < (.5 if slots == 3 else .85) or not ex):
                    i = rng.choice(free); ex[i] = 1
                    h.append(["createdef", i] if rng.random() < .15 else ["create", i, rng.choice(["mem", "mem", "stream", "file", "file", "bad"]), L()])
                else: i = rng.choice(list(ex)); del ex[i]; h.append(["destroy", i])
            elif r < (.45 if busy else .2):
                f = rng.choice(["level", "level", "global", "remove", "add"])
                h.append(["global", L()] if f == "global" else [f, rng.choice(list(ex))] + ([L()] if f == "level" else []))
            elif r < .5: h.append(rng.choice([["query"], ["test", L()], ["getlevel", rng.choice(list(ex))]]))
            else:
                f = rng.choice(["message", "string", "stream", "named", "named", "messagef", "vstring", "namedf", "namedf", "formatonly", "namedformat", "mixed", "namedmixed", "vars"])
                l = rng.randint(1, 6) if f.startswith("named") or rng.random() < .9 else 7
                if f == "vars": h.append([f, rng.randint(-99, 10**6), rng.randint(-99, 99)])
                elif f in ("message", "string", "stream", "named"): h.append([f, l, args()])
                elif f in ("messagef", "vstring", "namedf"): h.append([f, l, text(), rng.choice([0, -1, 123456, -2**31 + 1]), text()])
                elif f in ("formatonly", "namedformat"): h.append([f, l, text(fmt=True)])
                else: h.append([f, l, text(True), rng.randint(-10**9, 10**9)])
        return h
    return [history(rng.choice([5, 20, 60]), rng.random() < .6) for _ in range(scale(tier, 300, 3000))] + [history(rng.choice([150, 400]), rng.random() < .5, rng.choice([3, 8, 20])) for _ in range(scale(tier, 10, 100))]

def test_fw(rng, dic, tier):
    def text(): return rbytes(rng, rng.choice([0, 1, 5, dic.size(rng, 6, 60)]), list(range(1, 256)) if rng.random() < .3 else ALPHA + bs(" %:!"))
    def history(n, pass_rate):
        h = []
        for _ in range(n):
            r = rng.random(); i = rng.randint(1, 2); ok = int(rng.random() < pass_rate)
            if r < .5: h.append(["test", i, text(), ok, text()])
            elif r < .6: h.append(["macro", ok])
            elif r < .7: h.append(["macromsg", ok, text()])
            elif r < .8: h.append(["show", i, rng.randint(0, 1)])
            elif r < .87: h.append(["reset", i])
            else: h.append(["report", i])
        return h
    return [history(rng.choice([5, 20, 60]), rng.choice([0, .3, .8, 1])) for _ in range(scale(tier, 300, 3000))] + [history(600, .97) for _ in range(3)] + [
        [["test", 1, [97], r, [98]] for _ in range(m)] + [["report", 1], ["test", 1, [97], 1 - r, []], ["report", 1], ["macro", r], ["report", 1]] for m in [255, 256, dic.size(rng, 10, 600, .7)] for r in (0, 1)]

def test_fw_known(events):
    """the listed defect: a reset after k > 0 failures leaves all counters at k"""
    old = [[0, 0, 0], [0, 0, 0]]
    for e in events:
        if e["c"][0] == "reset":
            i = e["c"][1] - 1; k = old[i][2]; new = e["s"][0][i]
            if k > 0 and new == [k, k, k]: return "test_framework::reset() after %d failures sets all counters to %d instead of 0" % (k, k)
        old = e["s"][0]
    return None

def unique_folder(rng, dic, tier):
    def history(n, procs):
        h, busy = [], {}
        roots = rng.sample(["u", "run", "a b", "p/u", "p/q/r", "x.y", "u (1)", "d-%", "zz"], rng.choice([1, 2, 3]))
        fs = set()
        deep = dic.size(rng, 2, 40, .3)
        for _ in range(n):
            r = rng.random(); b = rng.choice(roots)
            idle = [p for p in range(1, procs + 1) if p not in busy]
            if r < .12 and idle:
                p = rng.choice(idle); h.append(["start", p, bs(b), rng.choice([0, 1, 2, 3, 5, deep + 2, 50])]); busy[p] = 1
            elif r < .7 and busy: h.append(["step", rng.choice(list(busy) if rng.random() < .95 else [1, 2, 3])])
            elif r < .75 and busy: p = rng.choice(list(busy)); h.append(["finish", p]); del busy[p]
            elif r < .85: h.append(["rival", bs(b + ("" if rng.random() < .3 else " (%d)" % rng.choice([1, 1, 2, 2, 3, 4, 9, 10])) if rng.random() < .85 else rng.choice(["p", "p/q", "q"]))])
            elif r < .97: h.append(["request", bs(b), rng.choice([0, 1, 2, 4, 11, 120])])
            elif not busy and not fs and not h: 
                f = rng.choice(["u", "p", "run", "u (1)"]); h.append(["file", bs(f)]); fs.add(f)
        return h + [["finish", p] for p in busy]
    def many(n): return [["request", bs("m"), n + 2]] * n + [["request", bs("m"), n], ["requestdef", bs("m")], ["request", bs("m"), n + 1], ["request", bs("m"), n + 2]]
    return [history(rng.choice([10, 25, 50]), rng.choice([2, 2, 3])) for _ in range(scale(tier, 500, 5000))] + [many(n) for n in (1, 9, 10, 11, 30) + ((101,) if tier == "thorough" else ())]

def file_ops(rng, dic, tier):
    names = ["a", "b", "d", "e", "x.txt", "n m", "\xe9", ".h", "a.b.c"]
    long = ["p", "q", "l" * 40, "m" * 100, "n" * 255]; deep = [0]      # long names, many levels
    def rp(plain=False):
        k = rng.choice([1, 1, 1, 2, 2, 3])
        cs = [rng.choice(names[:5] if rng.random() < .9 else names) for _ in range(k)]
        if deep[0]: cs = cs[:1] + [rng.choice(long) for _ in range(rng.randint(0, deep[0]))] + cs[1:]
        if not plain and rng.random() < .2:
            i = rng.randint(0, k - 1); cs[i:i] = rng.choice([["."], [cs[i], ".."], [""] if i else ["."]])
        return bs("/".join(cs))
    def content(big):
        n = dic.size(rng, 0, 60) if not big else rng.choice([255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 20000])
        return rbytes(rng, n, list(range(256)) if rng.random() < .7 else bs("a\r\n\0\x1a\xff "))
    # a simple model of the tree keeps the calls inside the domain of the specification
    def history(n, big):
        fs, cwd, h, lim = {}, (), [], -1
        what = lambda p: "d" if p == () else fs.get(p)
        def place(t):
            d = cwd
            for c in bytes(t).decode("latin1").split("/"):
                if c in ("", "."): 
                    if what(d) != "d" and c == ".": return None
                    continue
                if what(d) != "d": return None
                if c == "..":
                    if not d: return None
                    d = d[:-1]
                else: d = d + (c,)
            return d
        for _ in range(n):
            r = rng.random(); t = rp()
            up = bs("../") * rng.choice([0, 0, 0, 1]) if len(cwd) >= 1 else []
            t = up + t; p = place(t)
            if r < .2:
                if p is None or what(p) in ("d", "s") or what(p[:-1]) != "d": continue
                x = content(big)
                if 0 <= lim < len(x): continue
                h.append(["write", t, x]); fs[p] = "f", len(x)
                if big and lim < 0 and rng.random() < .4: n = rng.choice([65535, 65536, 65537, 131072, 131073, dic.size(rng, 22001, 100000, .5), dic.size(rng, 22001, 10**6, .5)]); h[-1] = ["writebig", t, rng.randint(0, 255), n]; fs[p] = "f", n
            elif r < .3: h.append([rng.choice(["load", "loadec"]), t])
            elif r < .32:
                if p is None or not p or what(p) is not None or what(p[:-1]) != "d" or len(t) > 90: continue
                h.append(["socket", t]); fs[p] = "s"
            elif r < .55:
                u = up + rp(); q = place(u); o = rng.randint(0, 1)
                if rng.random() < .08: u = rng.choice([t, [46, 47] + t]); q = p
                h.append(["copy", t, u, o])
                if p is not None and p == q: continue
                if p is not None and q is not None and isinstance(what(p), tuple) and what(q) not in ("d", "s") and what(q[:-1]) == "d" and (o or what(q) is None): fs[q] = fs[p]
                if p is not None and isinstance(what(p), tuple) and 0 <= lim < what(p)[1]: return h
            elif r < .63:
                if p is None or what(p) == "d": continue
                h.append(["remove", t])
                fs.pop(p, None)
            elif r < .75: h.append([rng.choice(["exists", "fileexists", "folderexists"]), t])
            elif r < .87:
                t = rp(True); cs = bytes(t).decode("latin1").split("/")
                u = t + rng.choice([[], [], [], [], [47], [47, 47]])
                if rng.random() < .1: i = rng.randint(0, len(u) - 1); u = u[:i] + [47] * 2 + u[i + 1:] if u[i] == 47 and i else u if i else [46, 47] + u
                h.append(["mkdirs", u])
                if not any(what(cwd + tuple(cs[:k])) not in ("d", None) for k in range(1, len(cs) + 1)):
                    for k in range(1, len(cs) + 1): fs.setdefault(cwd + tuple(cs[:k]), "d")
            elif r < .95:
                h.append(["cd", t])
                if p is not None and what(p) == "d": cwd = p
            elif r < .98: h.append(["pwd"])
            elif r < .985: h.append(["home", bs("/home/") + rp()])
            elif not big: lim = rng.choice([-1, 0, 1, 5, 30]); h.append(["limit", lim])
        return h
    hs = []
    for k in range(scale(tier, 120, 1200)): deep[0] = rng.choice([1, 2, 4, 9]); hs.append(history(rng.choice([8, 20]), False))
    deep[0] = 0
    for n in sorted({22001, 32767, 32768, 32769, 65535, 65536, 65537, 131073, 262145, 10**6} | {v for v in dic.near + dic.fresh if 22001 <= v <= 4 * 10**6}):      # long contents, also over longer and shorter ones
        hs.append([["writebig", bs("a"), rng.randint(0, 255), n], ["copy", bs("a"), bs("b"), 0], ["load", bs("b")], ["write", bs("c"), bs("xy")], ["copy", bs("c"), bs("a"), 1], ["copy", bs("b"), bs("c"), 1], ["load", bs("c")], ["loadec", bs("a")]])
    return hs + [history(rng.choice([8, 20, 40]), False) for _ in range(scale(tier, 400, 4000))] + [history(10, True) for _ in range(scale(tier, 40, 300))]

def stopwatch(rng, dic, tier):
    def adv(nano):
        r = rng.random()
        s = 0 if r < .5 else rng.randint(0, 100) if r < .8 else rng.choice([59, 60, 61, 3599, 3600, 3601, 9999, 86400, 100000, 4294968, 2147484])
        us = rng.choice([0, 1, 999, 1000, 1001, 500000, 999999, rng.randint(0, 999999)])
        return ["advance", s, us, rng.choice([0, 1, 999, rng.randint(0, 999)]) if nano else 0]
    def timers():
        h, made = [], set()
        for _ in range(rng.choice([6, 20, 40])):
            r = rng.random(); i = rng.randint(1, 2)
            if r < .35: h.append(adv(True))
            elif r < .45 or not made: h.append(["timer", i]); made.add(i)
            else:
                i = rng.choice(sorted(made))
                if r < .55: h.append(["reset", i])
                elif r < .6: j = 3 - i; h.append(["copy", i, j]); made.add(j)
                else: h.append([rng.choice(["ns", "ticks", "us", "ms"] if r < .8 else ["seconds", "minutes", "hours"]), i])
        # reals are only told apart when they are not next to a whole second
        return h
    def fit(h):
        ep, t, out = {}, 0, []
        for c in h:
            if c[0] == "advance": t += c[1] * 10**9 + c[2] * 1000 + c[3]
            elif c[0] in ("timer", "reset"): ep[c[1]] = t
            elif c[0] == "copy": ep[c[2]] = ep[c[1]]
            elif c[0] in ("seconds", "minutes", "hours"):
                e = t - ep[c[1]]
                if e >= 10**13 and e // 1000 % 10**6 >= 999980: continue
            out.append(c)
        return out
    tags = [bs("a"), bs("b"), bs("internal"), [], bs("a "), bs("A"), bs("a.b"), bs("x{y}"), bs("\xe9 \n")] + [list(s)[:20] for s in dic.strs[:20]]
    def watches(n, ntags):
        h, made, ts = [], set(), (tags + [bs("t%d" % k) for k in range(ntags)] if ntags > 20 else rng.sample(tags, ntags)); tot = 0
        for _ in range(n):
            r = rng.random(); i = rng.randint(1, 2)
            if r < .4:
                c = adv(False); tot += c[1] + 1
                if tot < 2000000: h.append(c)
            elif r < .43 or not made: h.append(["watch", i]); made.add(i)
            else:
                i = rng.choice(sorted(made))
                h.append(["first", i] if r < .48 else ["report", i] if r < .55 else ["measure", i, rng.choice(ts)])
        return h + [["report", i] for i in sorted(made)]
    hs = [fit(timers()) for _ in range(scale(tier, 300, 4000))] + [watches(rng.choice([10, 30, 60]), rng.randint(1, 6)) for _ in range(scale(tier, 300, 4000))]
    hs += [watches(400, 150) for _ in range(scale(tier, 6, 60))]
    hs += [[["accounted", rng.choice([1, 7, 1000, 123456]), [[rng.choice([0, 1, 1000, rng.randint(0, 10**6)]), rng.choice(tags)] for _ in range(rng.choice([0, 1, 3, 10, 40]))]] for _ in range(10)] for _ in range(scale(tier, 20, 200))]
    return hs

def profiler(rng, dic, tier):
    base = [bs("a"), bs("b"), bs("ab"), bs("TOTAL"), bs(""), bs("a.b"), bs("x y"), bs("\xe9\xff"), bs("A")] + [list(s)[:16] for s in dic.strs[:10]]
    pre = kin(rng); base += [pre, pre + bs("1"), pre + bs("2"), kin(rng), kin(rng)]
    def history(n, nnames, maxdepth, grow):
        names = rng.sample(base, min(nnames, len(base))) if nnames <= len(base) else base + [bs("s%d" % k) for k in range(nnames)]
        h, d, t = [["reset", rng.choice([1, 1, 2, 1000, 3600000])]], 0, 0
        for _ in range(n):
            r = rng.random()
            if r < .3:
                a = rng.choice([1, 1, 2, 3, rng.randint(1, 100)])
                if t + a <= 9000: h.append(["advance", a]); t += a
            elif r < grow and d < maxdepth: h.append([rng.choice(["start", "start", "scope"]), rng.choice(names)]); d += 1
            elif r < .93:
                if d: h.append(["end"]); d -= 1
            elif r < .985:
                if t: h.append(["report"])
            elif rng.random() < .3: h.append(["reset", rng.choice([1, 60000])]); d = t = 0
        if t == 0: h.append(["advance", 1])
        return h + [["end"]] * d + [["report"]]
    hs = [history(rng.choice([10, 30, 80]), rng.randint(1, 6), rng.choice([1, 2, 4, 8]), .63) for _ in range(scale(tier, 500, 6000))]
    hs += [history(rng.choice([200, 600]), 120, rng.choice([1, 2]), .63) for _ in range(scale(tier, 8, 80))]      # many siblings
    hs += [history(700, 300, 5, .63) for _ in range(scale(tier, 8, 80))] + [history(250, 3, 60, .8) for _ in range(scale(tier, 10, 100))]
    return hs

def random_(rng, dic, tier):
    pool = [[0, 0], [0, 1], [0, 123], [65535, 65535], [32768, 0], [32767, 65535], [32767, 65534]] + [[rng.randint(0, 65535), rng.randint(0, 65535)] for _ in range(6)]
    def rng_():
        a = rng.choice([0, 0, 64, -64, rng.randint(-10000, 10000)])
        return [a, a + rng.choice([1, 64, 128, rng.randint(1, 20000)])] if abs(a) < 500 else [a, a + rng.randint(640, 64000)]
    def req(g):
        r = rng.random(); t = rng.choice("ddf")
        if r < .3: return ["norm", g, t] + rng.choice([[0, 64], [rng.randint(-640, 640), rng.randint(16, 6400)]])
        if r < .4: return ["unit", g, t, 0, 64]
        return ["uni", g, t] + rng_()
    def history(n):
        seeds = rng.sample(pool, rng.randint(1, 3)); h, made = [], {0}
        script = [req(0) for _ in range(rng.choice([3, 10, 30]))]; pos = {}
        for _ in range(n):
            r = rng.random(); g = rng.randint(1, 3)
            if r < .12: h.append(["new", g, rng.choice(seeds)]); made.add(g); pos[g] = 0
            elif r < .14: h.append(["default", g]); made.add(g); pos[g] = 0
            elif r < .2: g = rng.choice(sorted(made)); h.append(["seed", g, rng.choice(seeds)]); pos[g] = 0
            elif r < .26:
                a = rng.choice(sorted(made))
                if a != g: h.append(["copy", a, g]); made.add(g); pos[g] = pos.get(a, 0)
            elif r < .3:
                a, b = rng.choice(sorted(made)), rng.choice(sorted(made)); h.append(["assign", a, b]); pos[b] = pos.get(a, 0)
            else:
                g = rng.choice(sorted(made)); k = pos.get(g, 0) % len(script); c = list(script[k])      # the same requests again, sometimes for another range
                pos[g] = pos.get(g, 0) + 1
                if c[0] in ("uni", "unit") and rng.random() < .3: c[0] = rng.choice(["uni", "unit"]); c[3:] = [0, 64] if c[0] == "unit" else rng_()
                c[1] = g
                if g == 0 and rng.random() < .5 and c[0] in ("uni", "norm"): c[0] = {"uni": "rand", "norm": "randnorm"}[c[0]]
                h.append(c)
        return h
    hs = [history(rng.choice([12, 40, 80])) for _ in range(scale(tier, 400, 5000))]
    for _ in range(scale(tier, 20, 200)):      # far into a sequence
        s, n, g = rng.choice(pool), str(rng.choice([100, 624, 1000, 5000, dic.size(rng, 1, 100000, .5)])), rng.choice([0, 1])
        h = [["new", 1, s], ["new", 2, s], ["seed", 0, s]]
        for i in rng.sample([0, 1, 2], 3): h += [["skip", i, n]] + [["uni", i, "d", 0, 64], ["norm", i, "d", 0, 64], ["norm", i, "d", 0, 64], ["norm", i, "f", 0, 64]]
        h += [["seed", g, s], ["uni", g, "d", 0, 64], ["seed", g, s], ["skip", g, n], ["uni", g, "d", 0, 64]]
        hs.append(h)
    return hs + [[["spread", rng.choice(pool)] + rng_() + [rng.randint(0, 1)] for _ in range(10)] for _ in range(scale(tier, 10, 100))]

def version(rng, dic, tier):
    def num():
        r = rng.random()
        return bs(str(0 if r < .2 else rng.randint(0, 20) if r < .5 else rng.choice([9, 10, 99, 100, 255, 256, 999, 1000, 65535, 65536, 2**31 - 1]) if r < .8 else rng.randint(0, 2**31 - 1)))
    printable = [b for b in range(1, 256) if b not in (9, 10, 11, 12, 13, 32)]
    def post():
        r = rng.random()
        return [] if r < .3 else rbytes(rng, dic.size(rng, 1, 40), printable) if r < .6 else rbytes(rng, rng.randint(1, 6), bs("a.-0159rc%\"\\")) if r < .95 else rbytes(rng, rng.randint(200, 2000), printable)
    calls = []
    for _ in range(scale(tier, 6000, 60000)):
        v = [num() for _ in range(4)] + [post()]
        r = rng.random()
        if r < .3: calls.append(["again", v])
        elif r < .5: calls.append([rng.choice(["make", "stream"]), v])
        elif r < .6: v[3:] = [bs("0"), []]; calls.append(["make3", v])
        else:
            z = lambda d: rng.choice([[], [], [], [48], [48, 48]]) + d
            def pad(d): return z(d)
            t = pad(v[0]) + [46] + pad(v[1]) + [46] + pad(v[2]) + (([46] + pad(v[3])) if rng.random() < .5 else [])
            t += rng.choice([[], [32] + v[4], [32] + v[4], [9] + v[4]])
            calls.append(["read", t])
    return batch(calls)

def filters(rng, dic, tier):
    LIM = 2**21
    class Obj: pass
    def make(i):
        k = rng.choice(["filter", "filter", "delta", "average", "delay", "smooth", "delay", "smooth"]); t = rng.choice("df"); o = Obj(); o.k = k
        if k == "filter":
            n = rng.choice([1, 2, 2, 3, 4, 9]); o.b0 = rng.randint(-4, 4); o.b = [rng.randint(-5, 5) for _ in range(n)]; o.a = [rng.choice([0, 0, 1, -1, -1, 2]) for _ in range(n)]; o.x = []; o.y = []
            return o, ["filter", i, o.b0, o.b, o.a, t]
        if k == "delta": return o, ["delta", i, rng.randint(-1000, 1000), t]
        if k == "average": o.v = o.w = 0; o.e = rng.choice([0, 0, -3, -8, -20, 10]); return o, ["average", i, o.e, t]
        o.n = rng.choice([2, 3, 5, 9]) if rng.random() < .9 else rng.choice([33, 33, 130]); o.W = rng.choice([1, 2, 4, 8]); o.t = 0; return o, [k, i, o.n, o.W, rng.choice([0, 7, -100]), t]
    def clone(o):
        import copy
        return copy.deepcopy(o)
    def history(n):
        objs, h = {}, []
        for _ in range(n):
            i = rng.randint(1, 4); r = rng.random()
            if i not in objs or r < .02: objs[i], c = make(i); h.append(c); continue
            if r < .06:
                j = rng.randint(1, 4)
                if j != i: objs[j] = clone(objs[i]); h.append(["copy", i, j])
                continue
            o = objs[i]
            if o.k == "filter":
                if r < .8:
                    x = rng.choice([0, 1, -1, rng.randint(-50, 50)]); g = lambda s, k: s[k] if k < len(s) else 0
                    y = o.b0 * x + sum(o.b[k] * g(o.x, k) + o.a[k] * g(o.y, k) for k in range(len(o.a)))
                    if abs(y) > LIM: objs[i], c = make(i); h.append(c); continue
                    o.x.insert(0, x); o.y.insert(0, y); h.append(["in", i, x])
                else: h.append([rng.choice(["out", "velocity"] if len(o.a) > 1 else ["out"]), i])
            elif o.k == "delta": h.append(["change", i, rng.randint(-1000, 1000)])
            elif o.k == "average":
                if r < .65:
                    v, w = rng.randint(-100, 100), rng.choice([0, 1, 2, 3, rng.randint(0, 40)])
                    if abs(o.v + v * w) > LIM: continue
                    if o.e == 0 and rng.random() < .3: h.append(["addone", i, v]); w = 1
                    else: h.append(["add", i, v, w])
                    o.v += v * w; o.w += w
                elif r < .7: h.append(["reset", i]); o.v = o.w = 0
                elif r < .8: h.append(["empty", i])
                else: h.append(["get", i, o.w])
            else:
                if r < .9:
                    dts = [d for d in range(1, o.W + 1) if (o.k == "smooth" or o.t + d == o.W or 2 * (o.t + d) + d <= 2 * o.W)]
                    if not dts: continue
                    d = rng.choice(dts); o.t = (o.t + d) % o.W; h.append([rng.choice(["sample", "next", "next"]), i, rng.choice([0, 1, rng.randint(-200, 200)]), d])
                else: h.append([rng.choice(["value", "now"]), i])
        return h
    hs = [history(rng.choice([15, 50, 120])) for _ in range(scale(tier, 800, 8000))]
    return hs + [[["lowpass", rng.randint(20, 480)]] for _ in range(scale(tier, 12, 60))]

def rotation(rng, dic, tier):
    def q(m): 
        while True:
            r = [rng.randint(-m, m) for _ in range(4)]
            if rng.random() < .15: r = [0] * 4; r[rng.randint(0, 3)] = rng.choice([1, -1])
            elif rng.random() < .15: r[rng.randint(0, 3)] = 0
            if any(r): return r
    norm = lambda q: sum(x * x for x in q)
    def v(m=50): return [rng.randint(-m, m) for _ in range(3)] if rng.random() < .8 else rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0], [-1, 1, 1]])
    def prod(l):
        d = 1
        for x in l: d *= x
        return d
    calls = []
    for _ in range(scale(tier, 5000, 50000)):
        f = rng.choice(["product", "turns", "composed", "applied", "composedinv", "axes", "axesnear", "dirnear", "betweennear", "heading", "axisangle", "axisanglerad", "toaxisangle", "torotvec", "euler", "eulervec", "single", "directions", "directions", "between", "unit", "identity"])
        if f in ("product", "turns"):
            n = rng.randint(1, 4); l = [[rng.choice(["fwd", "fwd", "inv"]), q({1: 7, 2: 5, 3: 3, 4: 2}[n])] for _ in range(n)]; c = [l, v(), prod(norm(x[1]) for x in l)]
        elif f in ("composed", "applied", "composedinv"):
            n = rng.randint(1, 4); l = [[rng.choice(["fwd", "fwd", "inv"]), v(20), q({1: 7, 2: 4, 3: 2, 4: 2}[n])] for _ in range(n)]; c = [l, v(), prod(norm(x[2]) for x in l)]
        elif f in ("axes", "axisangle", "axisanglerad", "toaxisangle", "torotvec"): x = q(9); c = [x, v(), norm(x)]
        elif f in ("euler", "eulervec"):
            o = list("xyz"); rng.shuffle(o); a = [(lambda t: t if any(t) else [1, 0])([rng.randint(-5, 5), rng.randint(-5, 5)]) for _ in range(3)]
            c = [o] + a + [v(), prod(x[0] ** 2 + x[1] ** 2 for x in a)]
        elif f == "single": a = [rng.randint(-9, 9), rng.choice([-3, -1, 1, 2, 7])]; c = [rng.choice("xyz"), a, v(), a[0] ** 2 + a[1] ** 2]
        elif f == "directions":
            a = v(9)
            if not any(a): continue
            r = rng.random(); k = rng.randint(1, 5); b = [-k * x for x in a] if r < .2 else [k * x for x in a] if r < .3 else v(9)
            if not any(b): continue
            c = [a, b]
        elif f == "between": a, b = q(5), q(5); c = [a, b, v(), norm(a) * norm(b)]
        elif f == "unit": c = [q(30)]
        elif f == "axesnear":
            x = q(9); e = [rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 9, 12]) for _ in range(4)]
            if not any(x[k] and not e[k] for k in range(4)): k = next(k for k in range(4) if x[k]); e[k] = 0
            c = [x, e, v()]
        elif f == "heading":
            w, x, y, z = q(9); k = rng.choice("xyz")
            p = dict(x=[w*w - x*x + y*y - z*z, 2*(y*z + w*x)], y=[w*w - x*x - y*y + z*z, 2*(x*z + w*y)], z=[w*w + x*x - y*y - z*z, 2*(x*y + w*z)])[k]
            if not any(p): continue
            c = [k, [w, x, y, z], p]
        elif f == "betweennear":
            x = v(9)
            if not any(x): continue
            c = [q(9), [rng.randint(-9, 9) for _ in range(4)], rng.randint(2, 14), x]
        elif f == "dirnear":
            a = v(9)
            if not any(a): continue
            c = [a, v(9), rng.randint(2, 14), rng.choice([1, -1])]
        else: c = [v()]
        calls.append([f] + c)
    return batch(calls)

def interp(rng, dic, tier):
    def regd(xs): n = len(xs); return n * (n * sum(x * x for x in xs) - sum(xs) ** 2)
    calls = []
    for _ in range(scale(tier, 6000, 60000)):
        f = rng.choice(["pairs", "pairs", "vector", "vector", "far", "piecewise", "piecewise", "poly", "intersect", "regress", "regressbad", "regresseven", "means", "covariance", "segment", "alphazero", "alphaends", "spline", "spline", "splinebad", "length", "line"])
        n = rng.choice([1, 2, 3, 5, rng.randint(1, 40)]); vals = lambda k, m=1000: [rng.randint(-m, m) for _ in range(k)]
        if f == "pairs":
            if rng.random() < .05: n = rng.randint(100, 400)
            ks = sorted(rng.sample(range(-2000, 2000), n)); x = rng.choice([rng.choice(ks), rng.choice(ks) + rng.randint(-3, 3), rng.randint(-2100, 2100)])
            d = 1
            if ks[0] < x < ks[-1]: k = max(i for i in range(n) if ks[i] <= x); d = ks[k + 1] - ks[k]
            c = [[list(p) for p in zip(ks, vals(n))], x, d]
        elif f == "vector":
            if rng.random() < .05: n = rng.randint(100, 1000)
            c = [vals(n), rng.choice([rng.randint(-20, 8 * n + 20), 8 * rng.randint(0, n), 8 * (n - 1) + rng.randint(-1, 1)])]
        elif f == "far": c = [vals(n), rng.choice([10, 30, 31, 32, 33, 52, 53, 62, 63, 64, 65, 100, 300, 1000])]
        elif f == "piecewise":
            n = max(n, 2); d = rng.choice([1, 2, 3, 8, 10, 24]); a = rng.randint(-500, 500); c = [vals(n, 100), a, d, a + rng.choice([rng.randint(0, d * (n - 1)), d * rng.randint(0, n - 1)])]
        elif f == "poly": k = rng.choice([2, 3, 4, 5, 8]); c = [vals(k, 9), rng.randint(-6, 6)]
        elif f == "intersect": c = [[rng.randint(-99, 99), rng.choice([-7, -1, 1, 2, 50])], rng.randint(-999, 999)]
        elif f == "line": c = [vals(2)]
        elif f == "regress":
            n = max(2, min(n, 8)); xs = vals(n, 20); line = rng.random() < .4; ys = [3 + 2 * x for x in xs] if line else vals(n, 20); d = regd(xs)
            if d == 0: continue
            c = [xs, ys, d]
        elif f == "regressbad": c = [vals(n), vals(n + rng.choice([-1, 1, 2]))] if n > 1 else [[1, 2], [1]]
        elif f == "regresseven": n = max(2, min(n, 8)); a, s = rng.randint(-9, 9), rng.choice([1, 1, 2, 3, 4, 5, -1, -2, -3, -5]); c = [a, s, vals(n, 20), regd([a + s * k for k in range(n)])]
        elif f in ("means", "covariance"): m = rng.randint(1, 6); c = [[vals(m, 99) for _ in range(n)]]
        elif f in ("segment", "alphazero"): c = [vals(4, 50), rng.randint(0, 8)]
        elif f == "alphaends":
            p = vals(4, 50)
            if any(p[k] == p[k + 1] for k in range(3)): continue
            c = [p]
        elif f == "spline":
            n = rng.choice([4, 4, 5, 6, 10, 60]); ts = sorted(rng.sample(range(-100, 200), n - 2)); 
            if any(ts[k + 1] - ts[k] > 60 for k in range(n - 3)): ts = [3 * k for k in range(n - 2)]
            t = rng.choice([rng.choice(ts), rng.randint(ts[0], ts[-1])]); k = min(max(i for i in range(n - 2) if ts[i] <= t), n - 4); c = [vals(n, 50), ts, t, ts[k + 1] - ts[k]]
        elif f == "splinebad": k = rng.randint(0, 6); m = k - 2 + rng.choice([-1, 1, 2]) if k >= 4 else rng.randint(0, 3); c = [vals(k), sorted(vals(max(m, 0)))]
        else: c = [rng.randint(1, 100)]
        calls.append([f] + c)
    return batch(calls)

def scalar(rng, dic, tier):
    def num(m=10**6): 
        r = rng.random()
        return rng.randint(-20, 20) if r < .4 else rng.randint(-m, m) if r < .9 else rng.choice([0, m, -m, 1, -1])
    calls = []
    for _ in range(scale(tier, 8000, 80000)):
        f = rng.choice(["clamp", "boundsclamp", "between", "wrap", "wrap", "softclamp", "sign", "parity", "power", "lower", "raise", "compare", "powers", "root", "wave", "degrees", "sines", "point", "bounds", "range", "rangefrom0", "steps", "stepsof", "box", "boxfrom", "boxes", "angle"])
        a, b = sorted([num(), num()])
        if f in ("clamp", "boundsclamp", "between"): c = [rng.choice([num(), a, b, a - 1, b + 1]), a, b]
        elif f == "wrap":
            if a == b: continue
            c = [rng.choice([num(), a, b, a + rng.randint(-4, 4) * (b - a)]), a, b]
            if abs(c[0]) > 2 * 10**7: continue
        elif f == "softclamp":
            n, k = rng.randint(1, 50), rng.randint(0, 2); a = rng.randint(-100, 100); b = a + 4 * n; v = rng.randint(-400, 400); r = n * k
            d = v - b + 2 * r if v > b - r else a + 2 * r - v if v < a + r else 1
            if d == 0: continue
            c = [v, a, b, k, d]
        elif f in ("sign", "parity", "power"): c = [rng.choice([num(), 2 ** rng.randint(0, 30) + rng.randint(-1, 1), -2 ** rng.randint(0, 30), rng.choice([-2**31, 2**31 - 1])])]
        elif f in ("lower", "raise", "compare"): c = rng.choice([[a, b], [b, a], [a, a]])
        elif f in ("powers", "root"): c = [rng.randint(-1000, 1000)]
        elif f == "wave": c = [rng.randint(-10000, 10000)]
        elif f in ("degrees", "sines"): c = [rng.randint(-5000, 5000)]
        elif f == "point": c = [num()]
        elif f == "bounds": c = [a, b, rng.choice([num(), a, b])]
        elif f == "range": a = rng.randint(-1000, 1000); c = [a, a + rng.choice([0, 1, rng.randint(0, 300)])]
        elif f == "rangefrom0": c = [rng.randint(0, 300)]
        elif f in ("steps", "stepsof"): s = rng.choice([1, 2, 3, 7, -1, -2, -5]); a = rng.randint(-500, 500); c = [a, a + s * rng.randint(0, 100), s]
        elif f == "angle": c = [rng.randint(-500, 500), rng.randint(-500, 500), rng.choice([-3, -1, 1, 2, 8])]
        else: c = [[[num() for _ in range(3)] for _ in range(rng.choice([1, 2, 3, 10, 60]))]]
        calls.append([f] + c)
    return batch(calls)

def stats(rng, dic, tier):
    calls = []
    for _ in range(scale(tier, 2500, 30000)):
        n = rng.choice([0, 1, 2, 3, rng.randint(0, 20), dic.size(rng, 0, 60), rng.randint(20, 200) if rng.random() < .3 else 5, dic.size(rng, 60, 1200, .5) if rng.random() < .1 else 4])
        m = rng.choice([2, 10, 1000, 10**6])
        s = [rng.randint(-m, m) for _ in range(n)]
        k = rng.random()
        if k < .15: s.sort()
        elif k < .3: s.sort(reverse=True)
        elif k < .4 and s: s = [s[0]] * n
        elif k < .45 and s: s = [rng.randint(0, 3) for _ in range(n - 1)] + [s[0]]
        f = rng.choice(["min", "max", "average", "median", "median", "lowest", "sorted", "order", "index", "back", "filter", "firstof", "print"])
        if f in ("min", "max", "average", "lowest") and not s: continue
        c = [f, s]
        if f == "lowest": c.append(rng.choice([1, n, rng.randint(1, n)]))
        elif f == "index": c.append(rng.choice([s[0], s[-1], rng.choice(s), max(s)]) if s and rng.random() < .7 else rng.randint(-m, m))
        elif f in ("filter", "firstof"): q = rng.randint(1, 7); c += [q, rng.randint(0, q - 1)]
        calls.append(c)
    for n in sorted(set(range(1, 600 if tier != "quick" else 140, 2 if tier != "quick" else 7)) | {v for v in dic.near + dic.fresh if 1 <= v <= 1200}):
        s = [rng.randint(0, 50) for _ in range(n)]; j = rng.randrange(n)
        for k in {0, j, n - 1}:          # one special element at a chosen place
            t = s[:k] + [99] + s[k + 1:]
            calls += [["index", t, 99], ["max", t], ["firstof", t, 100, 99]]
            t = s[:k] + [-7] + s[k + 1:]
            calls += [["min", t], ["lowest", t, rng.randint(1, n)]]
        calls += [["index", s, 77], ["back", s], ["order", s]]
    return batch(calls, 20)

def cells(rng, dic, tier):
    kinds = ["str", "int", "size", "float", "double", "short", "llong"]
    def txt():
        s = []
        for _ in range(rng.randint(0, 7)):
            k = rng.random()
            if k < .5: s += bs(str(rng.randint(0, 9999)))
            elif k < .6: s += bs(rng.choice(["1.5", "-2.25", ".75", "3.", "+.5", "-0.1", "0"]))
            elif k < .8: s += bs(rng.choice([" ", "  ", "\n", " \n "]))
            else: s += bs(rng.choice(["-", "+", ".", "z", "zz", "z1"]))
            if rng.random() < .5: s += [32]
        return s
    def plain(s, noneg):
        import re
        t = bytes(s)
        return not re.search(rb"\d{5}", t) and not re.search(rb"\.\d{3}", t) and not (noneg and b"-" in t)
    def val(k):
        if k == "str": return rbytes(rng, rng.choice([0, 1, 3, 20, 60]), list(range(1, 256))) or [120]
        if k == "size": return bs(str(rng.choice([0, 1, rng.randint(0, 10**9), dic.size(rng, 0, 100)])))
        if k == "short": return bs(str(rng.choice([0, 1, -1, 32767, -32767, rng.randint(-32767, 32767)])))
        if k in ("float", "double"): return bs(str(rng.choice([0, 100, -100, 25, rng.randint(-10000, 10000)])))
        return bs(str(rng.choice([0, 1, -1, 2**31 - 1, -2**31 + 1, rng.randint(-10**9, 10**9)])))
    hs = []
    for _ in range(scale(tier, 150, 2500)):
        h, os = [], []
        for _ in range(rng.choice([8, 25, 60])):
            if len(os) < 2 or rng.random() < .1 and len(os) < 12:
                k = rng.choice(kinds); os.append(k); h.append(["new", k] if rng.random() < .5 else ["newval", k, val(k)]); continue
            i = rng.randrange(len(os)); f = rng.choice(["assign", "assign", "empty", "marker", "copy", "copyof", "stream", "chars", "stream", "chars"])
            if f == "assign": h.append([f, i + 1, val(os[i])])
            elif f == "marker":
                if os[i] != "str": h.append([f, i + 1])
            elif f == "empty": h.append([f, i + 1])
            elif f == "copyof":
                if len(os) < 12: h.append([f, i + 1]); os.append(os[i])
            elif f == "copy":
                j = rng.choice([j for j in range(len(os)) if os[j] == os[i]]); h.append([f, i + 1, j + 1])
            else:
                js = [rng.randrange(len(os)) for _ in range(rng.choice([1, 1, 2, 3, 5]))]; t = txt()
                if plain(t, any(os[j] == "size" for j in js)): h.append([f, [j + 1 for j in js], t])
        hs.append(h)
    for _ in range(scale(tier, 60, 800)):
        h, n = [], 0
        for _ in range(rng.choice([8, 30])):
            msg = rbytes(rng, rng.choice([0, 1, 5, 40, 100]), list(range(0, 256)))
            if n == 0 or rng.random() < .2: h.append(rng.choice([["code", rng.choice([0, 1, -1, 2**31 - 1, -2**31]), msg], ["success"], ["failure", msg]])); n += 1; continue
            i = rng.randint(1, n)
            h.append(rng.choice([["set", i, rng.choice([0, 1, -1, 256, 65536, -2**31, rng.randint(-10**9, 10**9)]), msg], ["setcode", i, rng.choice([0, 2, -256])], ["try", rng.randint(0, n), msg], ["errcopy", i, rng.randint(1, n)]]))
        hs.append(h)
    for _ in range(scale(tier, 20, 200)):
        h, n = [], 0
        for _ in range(20):
            if n == 0 or rng.random() < .3: h.append(["task"]); n += 1
            else: h.append([rng.choice(["interrupt", "interruptbase"]), rng.randint(1, n)])
        hs.append(h)
    return hs

def debug_storage(rng, dic, tier):
    hs = []
    for _ in range(scale(tier, 150, 1500)):
        m = rng.choice([1, 2, 3, 5, rng.randint(1, 30), dic.size(rng, 1, 120, .5)])
        ls = [rbytes(rng, rng.choice([1, 3, 12]), list(range(33, 127))) for _ in range(m)]
        h = []
        if rng.random() < .3: h.append(["output", bs(rng.choice(["out.txt", "d.sto", "x"]))])
        k = rng.random(); n = rng.choice([0, 1, 5, 30, 100, dic.size(rng, 1, 400, .5)])
        for i in range(n):
            l = ls[i % m] if k < .4 else rng.choice(ls) if k < .8 else ls[min(i, m - 1)]
            if k < .4 and rng.random() < .1: continue
            h.append(["write", l, rng.choice([0, 0, 1, -1, 4, rng.randint(-4000, 4000), rng.randint(-100000, 100000) * 4 % 400000])])
            if rng.random() < .02: h.append(["output", bs(rng.choice(["later.txt", "x", "debug.txt"]))])
        hs.append(h + [["exit"]])
    return hs

def vec(rng, dic, tier):
    calls = []
    for _ in range(scale(tier, 6000, 60000)):
        m = rng.choice([3, 30, 900, 15000])
        def v(n=3): return [rng.choice([0, rng.randint(-m, m), rng.randint(-m, m), rng.randint(-m, m)]) for _ in range(n)]
        f = rng.choice(["sum", "sum", "neg", "scale", "divide", "mask", "dot", "cross", "length", "distance", "equal", "normalize", "polar", "uniform", "set", "print", "read"])
        n = rng.choice([3, 4])
        a = v()
        if f == "sum": c = [v(n), v(n)]
        elif f in ("neg", "length"): c = [v(n)]
        elif f == "scale": c = [rng.choice([0, 1, -1, rng.randint(-100, 100)]), v(n)]
        elif f == "divide": c = [rng.choice([1, -1, 2, 3, 5, 7, rng.randint(1, 100)]), v(n)]
        elif f == "equal":
            b = list(a)
            if rng.random() < .7: b[rng.randrange(3)] += rng.choice([1, -1])
            c = [a, b]
        elif f in ("normalize", "print", "read"): c = [a]
        elif f == "polar": c = [rng.randint(0, 1000), rng.randint(-9, 9), rng.randint(-9, 9)]
        elif f == "uniform": c = [rng.randint(-m, m)]
        else: c = [a, v()]
        calls.append([f] + c)
    return batch(calls)

def func_table(rng, dic, tier):
    calls = []
    for _ in range(scale(tier, 600, 6000)):
        t = rng.choice(["int", "float", "double"]); u = 4 if t == "int" else 1
        a = rng.choice([0, rng.randint(-300, 300), rng.randint(-20, 20)]) * u
        n = dic.size(rng, 2, 120, .2) if rng.random() < .5 else rng.randint(2, 8)
        f = rng.choice(["same", "fall", "const", "abs"])
        calls.append(["sample", t, f, a, rng.choice([0, 1, -1, 4, rng.randint(-9, 9)]) * u, n] if rng.random() < .9 else ["samplec", t, f, a, rng.choice([1, -1, 4]) * u])
    return batch(calls)

def clone(rng, dic, tier):
    hs = []
    for _ in range(scale(tier, 150, 2000)):
        h, vs = [], []
        for _ in range(rng.choice([10, 40, 120])):
            if not vs or rng.random() < .05: h.append(["new"]); vs.append(0); continue
            if rng.random() < .004: i = rng.randrange(len(vs)); m = dic.size(rng, 20, 300, .6); h += [["push", i + 1, j] for j in range(m)]; vs[i] += m; h.append(["clone", i + 1]); vs.append(vs[i]); h += [["write", len(vs), vs[i], 5], ["write", i + 1, vs[i] - 1, 6], ["drop", i + 1], ["write", len(vs), 1, 8]]; vs[i] = 0; continue
            i = rng.randrange(len(vs)); k = rng.random()
            if k < .5: h.append(["push", i + 1, rng.choice([0, -1, rng.randint(-10**6, 10**6)])]); vs[i] += 1
            elif k < .6 and len(vs) < 12: h.append(["clone", i + 1]); vs.append(vs[i])
            elif k < .75 and vs[i]: h.append(["cloneone", i + 1, rng.randint(1, vs[i])]); vs[i] += 1
            elif k < .95 and vs[i]: h.append(["write", i + 1, rng.randint(1, vs[i]), rng.randint(-100, 100)])
            elif k < .98: j = rng.randrange(len(vs)); h.append(["assign", i + 1, j + 1]); vs[j] = vs[i]
            else: h.append(["drop", i + 1]); vs[i] = 0
        hs.append(h)
    return hs
