"""Programs whose output depends on calls into the C library: arguments and results of every
class, callbacks out of the library, structures it returns, memory it writes."""

HEAD = """#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <math.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <inttypes.h>
#include <limits.h>
#include <float.h>
#include <errno.h>
#include <assert.h>
#include <stdbool.h>
#include <signal.h>
#include <time.h>
#include <locale.h>
"""


class Gen:
    def __init__(self, r):
        self.r, self.n, self.out, self.top = r, 0, [], []

    def id(self, p="x"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def int(self):
        r = self.r
        return r.choice(["%d" % r.randint(-100, 1000), "%d" % r.randint(-2**31 + 1, 2**31 - 1), "INT_MAX", "INT_MIN", "-1", "0", "'%s'" % r.choice("azAZ09 "), "(short)%d" % r.randint(-40000, 40000),
                         "UCHAR_MAX", "(unsigned char)%d" % r.randint(0, 400), "argc"])

    def ll(self):
        r = self.r
        return r.choice(["%dLL" % r.randint(-2**62, 2**62), "LLONG_MAX", "INT64_MIN", "(long long)%s" % self.int()])

    def dbl(self):
        r = self.r
        return r.choice(["%r" % (r.randint(-4000, 4000) / 16), "%re%d" % (r.randint(1, 999) / 8, r.randint(-20, 20)), "(double)%s" % self.int(), "%rf" % (r.randint(-999, 999) / 4), "DBL_MAX", "DBL_EPSILON",
                         "(float)%r" % (r.randint(-99, 99) / 3), "-0.0", "FLT_MIN"])

    def str(self):
        r = self.r
        return '"%s"' % "".join(r.choice("abcdefgh XYZ0123456789,.-_") for _ in range(r.choice([0, 1, 3, 8, 20])))

    def fmt(self):
        """-> (format, arguments)"""
        r = self.r
        f, a = "", []
        for _ in range(r.choice([1, 2, 3, 5, 9])):
            k = r.randrange(8)
            w = r.choice(["", "", "8", "-6", "03", "*", "+"])
            if w == "*":
                a.append("%d" % r.randint(-9, 9))
            if k < 2:
                f += "%" + w + r.choice("dixXuo") + "|"
                a.append(self.int())
            elif k == 2:
                f += "%" + w.replace("*", "5").replace("0", "").replace("+", "") + "c|" if w != "*" else "%*c|"
                a.append("'%s'" % r.choice("abcxyz"))
            elif k == 3:
                f += "%" + w.replace("0", "").replace("+", "") + r.choice(["s", ".3s", "s"]) + "|"
                a.append(self.str())
            elif k == 4:
                f += "%" + w + '" %s "|' % r.choice(["PRId64", "PRIx64", "PRIu64"])
                a.append("(int64_t)" + self.ll())
            elif k == 5:
                f += "%" + w + "hhd|"
                a.append(self.int())
            else:
                f += "%" + w + r.choice(["f", ".3f", ".2e", "g", ".10g"]) + "|"
                d = self.dbl()
                a.append("1.5" if "DBL_MAX" in d and "f" in f[-3:] else d)
        return '"%s\\n"' % f, ", ".join(a)

    def step(self):
        r, o, I = self.r, self.out, self.id
        k = r.randrange(17)
        if k == 0:
            o.append("printf(%s, %s);" % self.fmt())
        elif k == 1:
            b = I("b")
            f, a = self.fmt()
            n = r.choice([1, 5, 20, 400])
            o.append("char %s[%d]; printf(\"%%d \", snprintf(%s, sizeof %s, %s, %s)); puts(%s);" % (b, n, b, b, f, a, b))
        elif k == 2:
            w = I("w")
            kind = r.choice(["vprintf(f, a)", "vfprintf(stdout, f, a)"])
            self.top.append("static int %s(%sconst char *f, ...) { va_list a; va_start(a, f); int n = %s; va_end(a); return n; }" % (w, r.choice(["", "double d, "]) if False else "", kind))
            o.append("printf(\"%%d\\n\", %s(%s, %s));" % ((w,) + self.fmt()))
        elif k == 3:
            s, c_ = I("s"), I("cmp")
            t = r.choice(["int", "double", "short", "struct { int k; char c[%d]; }" % r.randint(1, 9), "unsigned char", "long long"])
            n = r.randint(2, 20)
            if t.startswith("struct"):
                self.top.append("struct %s { int k; char c[%d]; };" % (s, r.randint(1, 9)))
                t, key = "struct " + s, ".k"
            else:
                key = ""
            self.top.append("static int calls_%s;\nstatic int %s(const void *a, const void *b) { const %s *x = a, *y = b; calls_%s++; return (x%s > y%s) - (x%s < y%s); }" % (
                c_, c_, t, c_, *(["->k"] * 4 if key else ["[0]"] * 4)))
            vals = [r.randint(-100, 100) if "unsigned" not in t else r.randint(0, 255) for _ in range(n)]
            o.append("%s %s[] = { %s };" % (t, s, ", ".join(("{ %d, \"x\" }" if key else "%d") % v for v in vals)))
            o.append("qsort(%s, %d, sizeof *%s, %s); for (int i = 0; i < %d; i++) printf(\"%%d \", (int)%s[i]%s); puts(calls_%s > 0 ? \"called\" : \"\");" % (s, n, s, c_, n, s, key, c_))
            o.append("{ %s key = %s[%d], *f = bsearch(&key, %s, %d, sizeof key, %s); printf(\"%%d\\n\", f && !%s(f, &key)); }" % (t, s, r.randrange(n), s, n, c_, c_))
        elif k == 4:
            st = r.choice(["123abc", "-77", "0x1fz", "  42", "99999999999999999999", "zz", "-0", "077", "2147483648"])
            e = I("e")
            o.append("{ char *%s; errno = 0; char *s = \"%s\"; long long v = (long long)%s(s, &%s, %s); printf(\"%%lld %%d \", v, errno); puts(%s); }" % (
                e, st, r.choice(["strtol", "strtoll", "strtoul", "strtoull"]), e, r.choice(["0", "10", "16", "8", "36"]), e))
        elif k == 5:
            st = r.choice(["1.5e3x", "-.25", "1e400", "inf", "abc", "0.1", "3."])
            o.append("{ char *e; double d = strtod(\"%s\", &e); printf(\"%%g %%s %%g\\n\", d, e, atof(\"%s\") + atoi(\"%d\")); }" % (st, st if st not in ("inf", "1e400") else "2", r.randint(-99, 99)))
        elif k == 6:
            b = I("b")
            o.append("char %s[64] = %s; strcat(%s, %s); strncat(%s, %s, %d); memmove(%s + %d, %s, %d); %s[63] = 0;" % (b, self.str(), b, self.str(), b, self.str(), r.randint(0, 9), b, r.randint(0, 9), b, r.randint(1, 30), b))
            o.append("printf(\"%%s %%d %%d %%d\\n\", %s, (int)strlen(%s), strcmp(%s, %s) > 0, (int)(strchr(%s, '%s') ? strchr(%s, '%s') - %s : -1));" % ((b, b, b, self.str(), b) + (lambda ch: (ch, b, ch, b))(r.choice("abc 1"))))
            o.append("{ char *p = strstr(%s, %s); puts(p ? p : \"none\"); for (p = strtok(%s, \" ,.\"); p; p = strtok(NULL, \" ,.\")) printf(\"[%%s]\", p); puts(\"\"); }" % (b, self.str(), b))
        elif k == 7:
            p, n = I("p"), r.randint(1, 3000)
            t = r.choice(["int", "char", "double", "struct { char a[3]; short b; }"])
            t = "int" if t.startswith("struct") else t
            o.append("%s *%s = calloc(%d, sizeof *%s); for (int i = 0; i < %d; i++) %s[i] += i; %s = realloc(%s, 2 * %d * sizeof *%s); { long long t = 0; for (int i = 0; i < %d; i++) t = t * 3 + (long long)%s[i]; printf(\"%%lld\\n\", t %% 1000003); } free(%s);" % (
                t, p, n, p, n, p, p, p, n, p, n, p, p))
        elif k == 8:
            f = r.choice(["sqrt", "floor", "ceil", "fabs", "trunc", "round"])
            x = r.randint(-9999, 9999) / 8
            o.append("printf(\"%%.17g %%.9g\\n\", %s(%s%r), %sf(%s%rf));" % (f, "fabs(" * (f == "sqrt"), x, f, "fabsf(" * (f == "sqrt"), x) if f != "sqrt" else "printf(\"%%.17g %%.9g\\n\", sqrt(fabs(%r)), sqrtf(fabsf(%rf)));" % (x, x))
            o.append("{ int e; double ip, m = frexp(%r, &e), fr = modf(%r, &ip); printf(\"%%g %%d %%g %%g %%g %%g\\n\", m, e, fr, ip, ldexp(%r, %d), fmod(%r, %r)); }" % (x, x, x, r.randint(-9, 9), x, r.randint(1, 99) / 4))
        elif k == 9:
            a, b = r.randint(-10**6, 10**6), r.choice([1, -7, 3, 1000, -13])
            o.append("{ div_t d = div(%d, %d); ldiv_t l = ldiv(%d, %d); lldiv_t m = lldiv(%dLL, %d); printf(\"%%d %%d %%ld %%ld %%\" PRId64 \" %%\" PRId64 \"\\n\", d.quot, d.rem, l.quot, l.rem, (int64_t)m.quot, (int64_t)m.rem); }" % (
                a, b, a, b, a * 10**9, b))
        elif k == 10:
            o.append("{ int n = 0; for (const char *s = %s; *s; s++) n = n * 31 %% 65521 + !!isalpha((unsigned char)*s) + 2 * !!isdigit(*s) + 4 * !!isspace(*s) + 8 * !!ispunct(*s) + toupper(*s) + tolower(*s); printf(\"%%d\\n\", n); }" % self.str())
        elif k == 11:
            o.append("{ int a = 0, b = 0; char s[20] = \"\"; double d = 0; short h = 0; long long q = 0; int n = sscanf(\"%d %s %r %d %d\", \"%%d %%19s %%lf %%hd %%\" SCNd64, &a, s, &d, &h, &q); printf(\"%%d %%d %%s %%g %%d %%\" PRId64 \"\\n\", n, a, s, d, h, (int64_t)q); (void)b; }" % (
                r.randint(-9999, 9999), "".join(r.choice("abcdef") for _ in range(r.randint(1, 15))), r.randint(-99, 99) / 8, r.randint(-30000, 30000), r.randint(-2**60, 2**60)))
        elif k == 12:
            nm = "f%d.tmp" % self.n
            m = r.choice(["wb", "wb+"])
            o.append("{ FILE *f = fopen(\"%s\", \"%s\"); int a[] = { %s }; if (f) { printf(\"%%d\\n\", (int)fwrite(a, sizeof *a, sizeof a / sizeof *a, f)); fprintf(f, %s, %s); printf(\"%%ld\\n\", ftell(f)); fclose(f); }" % (
                (nm, m, ", ".join(self.int() for _ in range(r.randint(1, 9)))) + self.fmt()))
            o.append("  f = fopen(\"%s\", \"rb\"); unsigned h = 0; int c; if (f) { fseek(f, %d, SEEK_SET); while ((c = fgetc(f)) != EOF) h = h * 33 + c; fclose(f); } printf(\"%%u\\n\", h); remove(\"%s\"); }" % (nm, r.randint(0, 6), nm))
            self.n += 1
        elif k == 13:
            h = I("h")
            self.top.append("static void %s(void) { printf(\"%s %%d\\n\", ++count); }" % (h, h))
            o.append("atexit(%s);" % h)
        elif k == 14:
            h = I("h")
            self.top.append("static void %s(int s) { count += s == SIGTERM; printf(\"signal %%d\\n\", s == SIGTERM); }" % h)
            o.append("signal(SIGTERM, %s); raise(SIGTERM);" % h)
            o.append("assert(count);")
        elif k == 15:
            o.append("fputs(%s, stdout); putchar('%s'); puts(\"\"); fwrite(%s, 1, %d, stdout); puts(\"\"); fflush(stdout);" % (self.str(), r.choice("abc"), '"abcdefghij"', r.randint(0, 10)))
        else:
            o.append("{ struct tm t = { .tm_year = %d, .tm_mon = %d, .tm_mday = %d, .tm_hour = %d }; char b[40]; printf(\"%%d \", (int)strftime(b, sizeof b, \"%%Y-%%m-%%d %%H\", &t)); puts(b); printf(\"%%d %%d %%s\\n\", abs(%s / 2), (int)llabs(%s / 3), localeconv()->decimal_point); }" % (
                r.randint(70, 130), r.randint(0, 11), r.randint(1, 28), r.randint(0, 23), self.int(), self.int()))

    def text(self):
        r = self.r
        for _ in range(r.randint(4, 14)):
            self.step()
        end = r.choice(["return %d;", "exit(%d);", "return count - count + %d;"]) % r.choice([0, 0, 3, 42])
        return ("#define __USE_MINGW_ANSI_STDIO 1\n" + HEAD + "static int count;\n" + "\n".join(self.top) +
                "\nint main(int argc, char **argv) {\n  setvbuf(stdout, NULL, %s, 512);\n  " % r.choice(["_IOFBF", "_IONBF"]) + "\n  ".join(self.out) + "\n  %s\n}\n" % end)


def program(r):
    return Gen(r).text()
