"""Readers for ELF64 and COFF relocatable files, written from the formats' definitions."""
import re, struct
from .common import run


class Bad(Exception):
    pass


class Obj:
    """sections: name -> dict(data, align, flags, relocs); symbols: list of dicts; relocs are (offset, kind, size, symbol index, addend) where
    kind is 'abs' or 'pc' and, for 'pc', the addend counts from the byte after the relocated field"""


ELF_REL = {1: ("abs", 8), 2: ("pc", 4), 4: ("pc", 4), 10: ("abs", 4), 11: ("abs", 4)}


def need(cond, what):
    if not cond:
        raise Bad(what)


def read_elf(data):
    need(len(data) >= 64, "file shorter than its header")
    need(data[:4] == b"\x7fELF" and data[4] == 2 and data[5] == 1 and data[6] == 1, "identification bytes")
    (typ, mach, ver, entry, phoff, shoff, flags, ehsize, phes, phn, shes, shn, shstr) = struct.unpack_from("<HHIQQQIHHHHHH", data, 16)
    need(typ == 1 and mach == 62 and ver == 1, "type, machine or version")
    need(ehsize == 64 and shes == 64, "header sizes")
    need(shoff + 64 * shn <= len(data), "section headers outside of the file")
    need(0 < shstr < shn, "index of the section name table")
    H = [struct.unpack_from("<IIQQQQIIQQ", data, shoff + 64 * i) for i in range(shn)]
    need(H[0] == (0,) * 10, "section header 0 is not empty")

    def body(h):
        if h[1] == 8:
            return b"\0" * h[5]
        need(h[4] + h[5] <= len(data), "section outside of the file")
        return data[h[4]:h[4] + h[5]]

    def string(tab, off):
        need(off < len(tab), "string offset %d of %d" % (off, len(tab)))
        e = tab.find(b"\0", off)
        need(e >= 0, "unterminated string")
        return tab[off:e].decode("latin-1")
    need(H[shstr][1] == 3, "section name table type")
    names = body(H[shstr])
    o = Obj()
    o.kind = "elf"
    o.sections, o.order = {}, []
    secname = {}
    for i, h in enumerate(H):
        n = string(names, h[0]) if i else ""
        secname[i] = n
        if h[1] in (1, 8):
            need(n not in o.sections, "two sections called " + n)
            o.sections[n] = dict(data=body(h), align=h[8], flags=h[2], relocs=[], index=i, nobits=h[1] == 8)
        need(h[8] == 0 or h[8] & (h[8] - 1) == 0, "alignment of section %s is %d" % (n, h[8]))
    st = [i for i, h in enumerate(H) if h[1] == 2]
    need(len(st) <= 1, "several symbol tables")
    o.symbols = []
    if st:
        h = H[st[0]]
        need(h[9] == 24 and h[5] % 24 == 0, "symbol entry size")
        need(h[6] < shn and H[h[6]][1] == 3, "symbol string table link")
        strs = body(H[h[6]])
        need(strs[:1] == b"\0" and strs[-1:] == b"\0", "string table ends")
        raw = body(h)
        n = len(raw) // 24
        for i in range(n):
            name, info, other, shndx, value, size = struct.unpack_from("<IBBHQQ", raw, 24 * i)
            if i == 0:
                need((name, info, other, shndx, value, size) == (0,) * 6, "symbol 0 is not null")
            bind, ty = info >> 4, info & 15
            need(bind in (0, 1, 2), "symbol binding %d" % bind)
            need((bind == 0) == (i < h[7]), "sh_info does not separate local from global symbols")
            sec = {0: None, 0xfff1: "*ABS*", 0xfff2: "*COM*"}.get(shndx)
            if shndx not in (0, 0xfff1, 0xfff2):
                need(shndx < shn, "symbol section index")
                sec = secname[shndx]
                if ty == 3 and not name:
                    pass
                need(value <= H[shndx][5], "symbol %s value %d outside of its section" % (string(strs, name), value))
            nm = string(strs, name) or (sec if ty == 3 else "")
            o.symbols.append(dict(name=nm, section=sec, value=value, size=size, glob=bind != 0, bind=bind, type=ty))
    for i, h in enumerate(H):
        if h[1] == 9:
            raise Bad("unexpected REL section")
        if h[1] != 4:
            continue
        need(h[9] == 24 and h[5] % 24 == 0, "relocation entry size")
        need(st and h[6] == st[0], "relocation section link")
        tgt = secname.get(h[7])
        need(tgt in o.sections, "relocation target section")
        raw = body(h)
        for k in range(len(raw) // 24):
            off, info, add = struct.unpack_from("<QQq", raw, 24 * k)
            sym, ty = info >> 32, info & 0xffffffff
            if tgt.startswith(".eh_frame"):
                continue
            need(ty in ELF_REL, "relocation type %d" % ty)
            kind, size = ELF_REL[ty]
            need(off + size <= len(o.sections[tgt]["data"]), "relocation outside of %s" % tgt)
            need(sym < len(o.symbols), "relocation symbol index")
            o.sections[tgt]["relocs"].append((off, kind, size, sym, add + (4 if kind == "pc" else 0)))
    for s in o.sections.values():
        s["relocs"].sort()
        for a, b in zip(s["relocs"], s["relocs"][1:]):
            need(a[0] + a[2] <= b[0], "overlapping relocations")
    return o


COFF_REL = {1: ("abs", 8), 2: ("abs", 4), 3: ("rva", 4), 4: ("pc", 4), 5: ("pc", 4), 6: ("pc", 4), 7: ("pc", 4), 8: ("pc", 4), 9: ("pc", 4), 17: ("abs", 4)}


def read_coff(data):
    need(len(data) >= 20, "file shorter than its header")
    mach, nsec, ts, symoff, nsym, opt, chars = struct.unpack_from("<HHIIIHH", data, 0)
    need(mach == 0x8664 and opt == 0, "machine or optional header")
    need(symoff + 18 * nsym + 4 <= len(data), "symbol table outside of the file")
    strs = data[symoff + 18 * nsym:]
    size = struct.unpack_from("<I", strs)[0]
    need(size >= 4 and size <= len(strs), "string table size")

    def string(off):
        need(4 <= off < size, "string offset")
        e = strs.find(b"\0", off)
        need(0 <= e < size, "unterminated string")
        return strs[off:e].decode("latin-1")
    o = Obj()
    o.kind = "coff"
    o.sections, secs = {}, []
    used = [(0, 20 + 40 * nsec, "headers"), (symoff, symoff + 18 * nsym + size, "symbols")]
    for i in range(nsec):
        nm, vs, va, rs, rp, relp, lnp, nrel, nln, ch = struct.unpack_from("<8sIIIIIIHHI", data, 20 + 40 * i)
        nm = nm.rstrip(b"\0").decode("latin-1")
        if nm[:1] == "/":
            nm = string(int(nm[1:]))
        nobits = bool(ch & 0x80)
        if not nobits:
            need(rs == 0 or rp + rs <= len(data), "section outside of the file")
        first = 0
        if ch & 0x01000000:
            nrel = struct.unpack_from("<I", data, relp)[0]
            first = 1
        need(relp + 10 * nrel <= len(data), "relocations outside of the file")
        if rs and not nobits:
            used.append((rp, rp + rs, "data of section %d" % i))
        if nrel:
            used.append((relp, relp + 10 * nrel, "relocations of section %d" % i))
        al = (ch >> 20) & 15
        s = dict(data=b"\0" * rs if nobits else data[rp:rp + rs], align=1 << (al - 1) if al else 16, flags=ch, relocs=[], index=i + 1, nobits=nobits, raw=[struct.unpack_from("<IIH", data, relp + 10 * k) for k in range(first, nrel)])
        o.sections[nm] = s
        secs.append(nm)
    used.sort()
    for x, y in zip(used, used[1:]):
        need(x[1] <= y[0], "%s and %s overlap" % (x[2], y[2]))
    o.symbols, i = [], 0
    while i < nsym:
        b = data[symoff + 18 * i:symoff + 18 * i + 18]
        nm = b[:8]
        name = string(struct.unpack("<I", nm[4:])[0]) if nm[:4] == b"\0\0\0\0" else nm.rstrip(b"\0").decode("latin-1")
        value, sn, ty, cls, aux = struct.unpack("<IhHBB", b[8:])
        need(sn <= nsec, "symbol section index")
        sec = None if sn == 0 else "*ABS*" if sn < 0 else secs[sn - 1]
        need(i + aux < nsym, "auxiliary symbols outside of the table")
        if cls not in (2, 3, 6, 103):
            raise Bad("storage class %d" % cls)
        if sn > 0:
            need(value <= len(o.sections[sec]["data"]), "symbol %s outside of its section" % name)
        o.symbols.append(dict(name=name, section=sec, value=value, size=0, glob=cls == 2, bind=int(cls == 2), type=3 if cls == 3 and aux and value == 0 and name == sec else 0))
        o.symbols += [None] * aux
        i += 1 + aux
    for n, s in o.sections.items():
        for off, sym, ty in s.pop("raw"):
            if n not in (".text", ".data", ".rdata", ".rodata", ".bss"):
                continue
            need(ty in COFF_REL, "relocation type %d" % ty)
            kind, sz = COFF_REL[ty]
            need(off + sz <= len(s["data"]), "relocation outside of " + n)
            need(sym < len(o.symbols) and o.symbols[sym], "relocation symbol index")
            add = int.from_bytes(s["data"][off:off + sz], "little", signed=True)
            s["relocs"].append((off, kind, sz, sym, add - (ty - 4 if kind == "pc" else 0)))
        s["relocs"].sort()
        for a, b in zip(s["relocs"], s["relocs"][1:]):
            need(a[0] + a[2] <= b[0], "overlapping relocations")
    return o


def read(data):
    return read_elf(data) if data[:4] == b"\x7fELF" else read_coff(data)


LINE = re.compile(r"^\s*([0-9a-f]+):\t(?:([0-9a-f ]+?)\s*)(?:\t(.*))?$")
BRANCH = re.compile(r"^((?:j\w+|call\w*|loop\w*)(?:,p[nt])?)\s+0x([0-9a-f]+)$")


def disassemble(code, path):
    if not code:
        return []
    open(path, "wb").write(code)
    rc, out, err = run(["objdump", "-D", "-w", "-z", "-b", "binary", "-m", "i386:x86-64", path], timeout=60)
    if rc != 0:
        raise Bad("objdump: %s" % err)
    ins = []
    for l in out.decode().splitlines():
        m = LINE.match(l)
        if m and m.group(3) is not None:
            n = len(m.group(2).split())
            ins.append((int(m.group(1), 16), n, re.sub(r"\s*#.*", "", m.group(3)).strip()))
    return ins


class Canon:
    """an object in a form that does not depend on the sizes of jumps or on how local references are expressed"""
    def __init__(self, o, tmp):
        self.o = o
        self.text = o.sections.get(".text", dict(data=b"", relocs=[], align=1))
        code = bytearray(self.text["data"])
        for off, kind, size, sym, add in self.text["relocs"]:
            code[off:off + size] = b"\0" * size
        self.ins = disassemble(bytes(code), tmp)
        while self.ins and self.ins[-1][2].split()[0] in ("nop", "nopw", "nopl", "xchg", "data16", "cs"):
            self.ins.pop()  # padding at the end of the section
        self.index = {a: i for i, (a, n, t) in enumerate(self.ins)}
        end = self.ins[-1][0] + self.ins[-1][1] if self.ins else 0
        self.index[end] = len(self.ins)

    def place(self, sec, off):
        if sec == ".text":
            return (sec, self.index.get(off, "inside an instruction (+%d)" % off))
        return (sec, off)

    def target(self, sym, add):
        s = self.o.symbols[sym]
        if s["section"] in (None, "*COM*"):
            return ("symbol", s["name"], add)
        return self.place(s["section"], s["value"] + add)

    def code(self):
        rel, out = list(self.text["relocs"]), []
        k = 0
        for i, (a, n, t) in enumerate(self.ins):
            m = BRANCH.match(t)
            rs = []
            while k < len(rel) and rel[k][0] < a + n:
                off, kind, size, sym, add = rel[k]
                if kind == "pc":
                    add += a + n - (off + size)
                rs.append((kind, size) + self.target(sym, add))
                k += 1
            if m and rs:
                out.append((m.group(1), rs[0][2:]))
            elif m:
                out.append((m.group(1), self.place(".text", int(m.group(2), 16))))
            else:
                out.append((t.replace("movabs", "mov"), tuple(rs)))
        return out

    def data(self, name):
        s = self.o.sections.get(name)
        if s is None:
            return b"", [], 1
        b = bytearray(s["data"])
        rel = []
        for off, kind, size, sym, add in s["relocs"]:
            b[off:off + size] = b"\0" * size
            rel.append((off, kind, size) + self.target(sym, add))
        return bytes(b), rel, s["align"]

    def symbols(self):
        """name -> (global, place); local labels of the assembler left out"""
        d = {}
        for s in self.o.symbols:
            if not s or not s["name"] or s["type"] in (3, 4) or s["name"].startswith(".L") or (s["name"].startswith(".") and not s["glob"]):
                continue
            p = s["section"]
            d.setdefault(s["name"], []).append((s["glob"], None if p is None else self.place(p, s["value"]), s["size"] if p == "*COM*" else 0))
        return {k: sorted(v, key=str) for k, v in d.items()}
