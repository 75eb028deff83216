"""C11: literals denote the values, types and contents the language defines."""
import os
from . import common
from .common import run, scratch, build_cc, main, VERIF
from .diff import Runner, Test, RT_DECLS

TYPE = "#define TY(x) _Generic((x), _Bool: 1, char: 2, signed char: 3, unsigned char: 4, short: 5, unsigned short: 6, int: 7, unsigned: 8, long: 9, unsigned long: 10, long long: 11, unsigned long long: 12, float: 13, double: 14, char *: 16, int *: 17, unsigned *: 18, unsigned short *: 19, default: 99)\n"
SIMPLE = ["\\n", "\\t", "\\0", "\\\\", "\\'", '\\"', "\\a", "\\b", "\\f", "\\v", "\\r", "\\?"]
BMP = ["\u00e9", "\u00df", "\u03a9", "\u20ac", "\u65e5", "\uffee", "\u00a0", "\u07ff", "\u0800"]
ASTRAL = ["\U0001f600", "\U00010000", "\U0010fffd", "\U0002070e"]


def integer(r):
    edge = r.choice([0, 1, 7, 8, 9, 10, 15, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**62, 2**63 - 1, 2**63, 2**64 - 1])
    v = r.choice([edge, max(0, edge - r.randint(0, 3)), min(2**64 - 1, edge + r.randint(0, 3)), r.getrandbits(r.randint(1, 64))])
    suf = r.choice(["", "", "", "u", "U", "l", "L", "ll", "LL", "ul", "uL", "Ul", "lu", "LU", "ull", "ULL", "llu", "LLU", "lLU"[1:], "Ull", "uLL"])
    base = r.randrange(3)
    if r.random() < .1:
        return "0%s%s%s%s" % (r.choice("bB"), "0" * r.randrange(3), bin(v)[2:], suf)
    if base == 0:
        if v >= 2**63 and "u" not in suf.lower():
            suf += "u"
        return "%d%s" % (v, suf)
    if base == 1:
        return "0%s%o%s" % ("0" * r.randrange(3), v, suf)
    s = r.choice(["0x%x", "0X%X", "0x%X", "0x0%x"]) % v
    return s + suf


def floating(r):
    k = r.random()
    if k < .35:
        m = r.choice(["%d." % r.randrange(1000), ".%d" % r.randrange(100000), "%d.%d" % (r.randrange(1000), r.randrange(10**9)), "%d.%d" % (r.randrange(10), r.getrandbits(60))])
        e = r.choice(["", "", "e%d" % r.randint(-20, 20), "E+%d" % r.randint(0, 30), "e-%d" % r.randint(0, 40), "e%d" % r.randint(-320, 300)])
        s = m + e
        try:
            if float(s) > 1e300:
                s = m
        except ValueError:
            pass
    elif k < .5:
        s = "%d%s%d" % (r.randrange(100000), r.choice(["e", "E", "e+", "e-"]), r.randint(0, 30))
    elif k < .75:
        s = r.choice(["0x%xp%d", "0X%XP%d", "0x%x.p%d", "0x.%xp%d", "0x1.%xp%d", "0x%x.8p+%d"]) % (r.getrandbits(r.choice([4, 20, 52, 60])), r.randint(0, 40)) if r.random() < .7 else \
            "0x1.%xp-%d" % (r.getrandbits(52), r.choice([1, 100, 1022, 1023, 1040, 1060, 1074]))
    elif k < .9:
        # values next to half way between two floats or two doubles
        n = r.getrandbits(23) | (1 << 23)
        s = "%d.5%s" % (n, r.choice(["", "0", "0000000000000000000001", "000000001"]))
        if r.random() < .5:
            s = "%d%s" % ((r.getrandbits(52) | (1 << 52)) * 2 + 1, r.choice([".0", ".5", ".00000000000000001", "."]))
    else:
        s = r.choice(["1.7976931348623157e308", "2.2250738585072014e-308", "4.9406564584124654e-324", "1e-400", "3.4028235e38", "0.0", "0.", ".0", "00.5", "09.5", "08e1", "1e0000000000000000000001"])
    suf = r.choice(["", "", "f", "F"])
    if suf:
        try:
            v = float.fromhex(s) if s[:2].lower() == "0x" else float(s)
            if v > 3.4e38:
                suf = ""
        except (ValueError, OverflowError):
            suf = ""
    return s + suf


def hexesc(r, limit):
    n = r.choice([1, 2]) if limit < 256 else r.choice([1, 2, 3, 4] if limit < 70000 else [1, 2, 4, 5, 6, 8])
    v = r.randrange(min(16**n, limit))
    return "\\x%s%x" % ("0" * r.choice([0, 0, 1, 5]), v) if r.random() < .7 else "\\x%X" % v


def ucn(r, astral=True):
    c = r.choice(BMP + (ASTRAL if astral else []))
    return ("\\u%04x" % ord(c)) if ord(c) < 65536 and r.random() < .8 else "\\U%08X" % ord(c)


def chars(r, prefix, quote, last_hex=False):
    """one element of a literal; returns (text, ends with a numeric escape of variable length)"""
    k = r.random()
    lim = {"": 256, "u8": 256, "L": 2**31, "u": 65536, "U": 2**32}[prefix]
    if k < .45:
        c = r.choice("abcxyzABCXYZ0123456789 !#%&()*+,-./:;<=>[]^_{|}~?@$`")
        return c, None
    if k < .6:
        return r.choice(SIMPLE[:2] + SIMPLE[3:]), None
    if k < .7:
        return "\\%o" % r.choice([0, 1, 7, 8, 63, 64, 127, 128, 255, r.randrange(256)]) if r.random() < .7 else "\\%03o" % r.randrange(256), "o"
    if k < .82:
        return hexesc(r, lim), "x"
    if quote == "'" and prefix in ("", "u8"):
        return r.choice("qwerty"), None
    if k < .91:
        return r.choice(BMP + ([] if prefix == "u" and quote == "'" else ASTRAL)), None
    return ucn(r, not (prefix == "u" and quote == "'")), None


def string(r, prefix, n=None):
    n = r.choice([0, 1, 2, 3, 5, 9, 40]) if n is None else n
    out, last = "", None
    for _ in range(n):
        t, l = chars(r, prefix, '"')
        if last == "x" and t[0] in "0123456789abcdefABCDEF":
            t = r.choice(['" "', '""', '"\n\t"', '" /* x */ "']) + t   # the next literal does not continue the escape
        if last == "o" and t[0] in "01234567" and (prefix in ("", "u8") or r.random() < .5):
            t = '""' + t
        if (out + t).endswith("??"):
            continue
        out += t
        last = l
    return '%s"%s"' % (prefix, out)


def literal(r):
    """a string literal of one or several pieces"""
    prefix = r.choice(["", "", "", "", "L", "u", "U", "u8"])
    pieces = [string(r, prefix)]
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        pieces.append(string(r, r.choice(["", prefix])))
    if len(pieces) > 1 and r.random() < .3:
        if prefix != "u8":
            pieces[0] = pieces[0][len(prefix):]
            pieces[-1] = prefix + pieces[-1].lstrip("LuU8") if not pieces[-1].startswith(prefix + '"') or not prefix else pieces[-1]
    return prefix, r.choice([" ", "", "\n", " /* , */ ", " // \" '\n"]).join(pieces)


ELT = {"": "char", "L": "int", "u": "unsigned short", "U": "unsigned", "u8": "char"}


def splice(r, text):
    """line splices at arbitrary places; not inside the characters written in UTF-8"""
    for k in sorted({r.randint(0, len(text)) for _ in range(r.choice([0, 0, 0, 1, 2]))}, reverse=True):
        text = text[:k] + "\\\n" + text[k:]
    return text


def separated(r, c):
    """the number c with digit separators and line splices"""
    out = ""
    digit = "0123456789abcdefABCDEF" if c[:2].lower() == "0x" else "0123456789"
    for i, ch in enumerate(c):
        if i and c[i - 1] in digit and ch in digit and not (i in (1, 2) and c[:2] in ("0x", "0X", "0b", "0B")) and r.random() < .4:
            out += "'"
        out += ch
    return splice(r, out)


def item_sep(r, n):
    """a number with digit separators (C23, an extension here); the reference sees the number without them"""
    fl = r.random() < .4
    c = floating(r) if fl else integer(r)
    defs = "#ifdef __GNUC__\n#define N@@_%d %s\n#else\n#define N@@_%d %s\n#endif\n" % (n, c, n, separated(r, c))
    if fl:
        # the conversion of the value to double is exact for both types
        return defs + "\tevd((double)(N@@_%d)); ev(TY(N@@_%d));" % (n, n)
    return defs + "\tev(N@@_%d); ev(TY(N@@_%d)); ev(sizeof(N@@_%d));" % (n, n, n)


def item(r, n):
    if r.random() < .08:
        return item_sep(r, n)
    k = r.random()
    if k < .3:
        c = integer(r)
        return r.choice(["ev(%s); ev(TY(%s));", "ev(TY(%s)); ev((%s) > -1);", "ev(sizeof(%s)); ev((unsigned long long)(%s) / 3);",
                         "{ static const unsigned long long z = %s; ev(z); ev(TY(+%s)); }", "{ enum { E%d = (%%s) %%%% 1000 }; ev(E%d); ev(TY(%%s)); }" % (n, n)]) % (splice(r, c), c)
    if k < .5:
        c = floating(r)
        return "%s(%s); ev(TY(%s));" % ("evf" if c[-1] in "fF" and c[:2].lower() != "0x" or c[-1] in "fF" and "p" in c.lower() else "evd", splice(r, c), c)
    if k < .62:
        p = r.choice(["", "", "", "L", "u", "U"])
        while True:
            t, l = chars(r, p, "'")
            if t not in ("'", "\\0"):
                break
        c = "%s'%s'" % (p, t)
        return "ev(%s); ev(TY(%s)); ev((%s) < 0);" % (splice(r, c) if r.random() < .5 else c, c, c)
    p, s = literal(r)
    e = ELT[p]
    return r.choice([
        "ev(sizeof(%s)); evm((void *)(%s), sizeof(%s));" % (s, splice(r, s), s),
        "{ static %s a[] = %s; ev(sizeof a); evm(a, sizeof a); }" % (e, splice(r, s)),
        "{ %s a[] = %s; ev(sizeof a); evm(a, sizeof a); }" % (e, s),
        "{ %s a[60] = %s; evm(a, sizeof a); }" % (e, string(r, p, r.randint(0, 9))),
        "{ static %s a[3] = { %s }; evm(a, sizeof a); }" % (e, string(r, p, r.choice([0, 1, 2]))) if r.random() < .5 and p in ("L", "U") else
        "{ static %s a[9] = { %s }; evm(a, sizeof a); }" % (e, string(r, p, r.choice([0, 1, 2]))),
        "{ %s *q = %s; evm(q, sizeof(%s)); ev(TY(%s)); }" % (e, s, s, s),
        "{ static %s *const t[] = { %s, %s }; evm(t[0], sizeof(%s)); ev(t[1][0]); }" % (e, s, string(r, p, 2), s),
        "ev((%s)[0]); ev(*(%s)); ev(sizeof *(%s));" % (s, s, s),
        "ev(sizeof(__func__)); evs((char *)__func__);",
    ])


def gen(r, j):
    return Test("void t_@@(int v) {\n%s\n}\n" % "\n".join("\t" + item(r, k) for k in range(r.randint(6, 14))))


def known(c, cc):
    """L"" strings of the Microsoft target (see known_findings.txt)"""
    src = os.path.join(scratch(), "wide.c")
    with open(src, "w") as f:
        f.write('int first(void) { return L"ab"[1] == \'b\'; }\n')
    with open(src[:-2] + "m.c", "w") as f:
        f.write("int __attribute__((ms_abi)) first(void);\nint main(void) { return first() == 1 ? 0 : 7; }\n")
    if run([cc, "-fabi=ms", "-S", src, "-o", src + ".s"])[0] == 0 and \
            run(["gcc", "-no-pie", src + ".s", src[:-2] + "m.c", "-o", src + ".x"])[0] == 0 and run([src + ".x"])[0] == 7:
        c.known_finding('with -fabi=ms, L"ab"[1] is 0: wide strings have 4-byte units although wchar_t has 2 (pinned by tests/wine/wchar.c)')


def check(c):
    c.rule = "generated integer, floating, character and string literals in every spelling: value, type, size and bytes compared with the reference"
    c.assumptions = ["clang -O0 and gcc define the values (multi-character constants are implementation-defined and not generated)"]
    run_ = Runner(c, build_cc(), nvec=1, prelude=TYPE, ubsan=False, what="literal")
    run_.run_files(c.n(400, 8000), gen, per_file=20, tag="lit")
    run2 = Runner(c, build_cc(), nvec=1, prelude=TYPE, ubsan=False, what="literal (assembly output)", mode="S")
    run2.run_files(c.n(120, 2500), gen, per_file=20, tag="lits")
    known(c, build_cc())
    c.min_nontrivial = 1000 if not os.environ.get("VT_SCALE") else 1


if __name__ == "__main__":
    main("C11", check)
