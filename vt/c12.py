"""C12: the object file written directly holds what the assembler makes of -S output."""
import os, re, shutil
from .common import main, build_cc, run, scratch, fmap, make_config, ENV
from .jobs import Jobs, place
from .objfile import read, Canon, Bad

MODES = [("sysv", [], ["as"]), ("large", ["-fcmodel=large"], ["as"]), ("ms", ["-fabi=ms"], ["x86_64-w64-mingw32-as"])]


def alignments(text):
    """alignment asked for in each section of the assembly text"""
    sec, out = ".text", {}
    for l in text.decode("latin-1").splitlines():
        m = re.match(r"\s*\.section\s+(\S+)|\s*(\.text|\.data|\.bss)\s*$|\s*\.(?:b?align)\s+(\d+)", l)
        if m and m.group(3):
            out[sec] = max(out.get(sec, 1), int(m.group(3)))
        elif m:
            sec = (m.group(1) or m.group(2)).split(",")[0]
    return out


def compare(direct, assembled, aligns):
    """-> description of the first difference, or None"""
    a, b = direct.code(), assembled.code()
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "instruction %d at %#x: object has %s, assembler made %s" % (i, direct.ins[i][0], x, y)
    if len(a) != len(b):
        return "object has %d instructions, assembler made %d" % (len(a), len(b))
    names = set(direct.o.sections) | set(assembled.o.sections)
    for n in sorted(names - {".text"}):
        if n.startswith((".note", ".comment", ".eh_frame", ".pdata", ".xdata", ".debug")):
            continue
        x, xr, xa = direct.data(n)
        y, yr, ya = assembled.data(n)
        m = max(len(x), len(y))
        if abs(len(x) - len(y)) >= 16 or x.ljust(m, b"\0") != y.ljust(m, b"\0"):
            k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
            return "section %s differs at %d: %d bytes %s, assembler made %d bytes %s" % (n, k, len(x), x[k:k + 8].hex(), len(y), y[k:k + 8].hex())
        if xr != yr:
            k = next((k for k in range(min(len(xr), len(yr))) if xr[k] != yr[k]), min(len(xr), len(yr)))
            return "relocation of %s: %s, assembler made %s" % (n, xr[k:k + 1], yr[k:k + 1])
        if direct.o.kind == "coff":
            ya = aligns.get(n, 1)  # the assembler rounds up
        if m and max(xa, 1) < ya:
            return "alignment of %s is %d, assembler made %d" % (n, xa, ya)
    x, y = direct.symbols(), assembled.symbols()
    for n in sorted(set(x) | set(y)):
        if x.get(n) != y.get(n):
            return "symbol %s: %s, assembler made %s" % (n, x.get(n), y.get(n))
    return None


def check(c):
    c.rule = ("random programs, the compiler's own sources and its tests, compiled to an object and to assembly text under both ABIs and both code models; non-trivial = distinct (mnemonic, operand shape) forms compared, "
              "each instruction, data byte, relocation and symbol of both being compared")
    cc = build_cc("plain")
    jobs = Jobs(c)
    base = os.path.join(scratch(), "d")
    cfg = os.path.join(scratch(), "cfgsrc")
    os.makedirs(cfg)
    make_config(os.path.join(cfg, "config.h"))

    def one(item):
        fam, i = item
        kind, files, args = getattr(jobs, fam)(i)
        r = c.rng("mode", fam, i)
        args = [a for a in args if a not in ("-S", "-c", "-E") and not a.startswith(("-f", "-M", "t.d"))]
        o = args.index("-o")
        del args[o:o + 2]
        d = os.path.join(base, "%s-%d" % (fam, i))
        place(d, files)
        if kind == "own":
            shutil.copytree(cfg, os.path.join(d, "cfg"))
        res = []
        try:
            for name, flags, asm in (MODES if fam != "valid" else r.sample(MODES, 2)):
                r1, o1, e1 = run([cc] + flags + args + ["-c", "-o", "direct.o"], cwd=d, timeout=60, cpu=30)
                r2, o2, e2 = run([cc] + flags + args + ["-S", "-o", "t.s"], cwd=d, timeout=60, cpu=30)
                if r1 in (None, -9, -24) or r2 in (None, -9, -24):
                    res.append(("slow", kind, None, None))
                    continue
                if r1 != r2:
                    res.append(("bad", "%s: -c ends with %s, -S with %s: %s" % (name, r1, r2, (o1 + e1 + o2 + e2)[-300:]), dict(files), "status"))
                    continue
                if r1 != 0:
                    res.append(("rej", kind, None, None))
                    continue
                r3, o3, e3 = run(asm + ["t.s", "-o", "as.o"], cwd=d, timeout=60)
                fl = dict(files)
                fl["t.s"] = open(os.path.join(d, "t.s"), "rb").read()
                data = open(os.path.join(d, "direct.o"), "rb").read()
                fl["direct.o"] = data
                cmd = "cc %s -c / -S" % " ".join(flags)
                if r3 != 0:
                    msg = e3.decode(errors="replace").splitlines()
                    res.append(("bad", "%s: the assembler rejects the -S output: %s (%s)" % (name, msg[1] if len(msg) > 1 else msg, cmd), fl, "as " + re.sub(r"\d+", "N", str(msg[1:2]))))
                    continue
                try:
                    x = Canon(read(data), os.path.join(d, "x.bin"))
                except Bad as e:
                    res.append(("bad", "%s: malformed object: %s (%s)" % (name, e, cmd), fl, "malformed " + str(e)))
                    continue
                y = Canon(read(open(os.path.join(d, "as.o"), "rb").read()), os.path.join(d, "y.bin"))
                diff = compare(x, y, alignments(fl["t.s"]))
                if diff:
                    res.append(("bad", "%s: %s (%s)" % (name, diff, cmd), fl, name + re.sub(r"0x[0-9a-f]+|\d+", "N", diff)))
                    continue
                forms = {(name == "ms", re.sub(r"0x[0-9a-f]+", "N", t)) for _, _, t in x.ins}
                res.append(("ok", name, (len(x.ins), sum(len(s["data"]) for s in x.o.sections.values()), sum(len(s["relocs"]) for s in x.o.sections.values())), forms))
            return res
        finally:
            shutil.rmtree(d, ignore_errors=True)
    work = [("own", i) for i in range(len(jobs.srcs))] + [("test", i) for i in range(len(jobs.tests))] + [("valid", i) for i in range(c.n(350, 8000))]
    for res in fmap(one, work):
        for st, a, b, k in res:
            if st == "bad":
                c.violation(a, b, key=k)
            elif st == "slow":
                c.inconclusive.append("slow")
            elif st == "rej":
                c.count(rejected_both=1)
            else:
                c.evaluations += 1
                c.count(**{"objects_" + a: 1, "instructions": b[0], "bytes": b[1], "relocations": b[2]})
                c.nontrivial |= k
    c.min_nontrivial = 300


if __name__ == "__main__":
    main("C12", check)
