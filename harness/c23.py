"""C23: generated C programs that describe structures with the helper macros.

Each program holds several structure trees.  The schema entries its macros make
are compared with offsetof/sizeof and the arguments given; then documents and
C-initialised data go through load, save, copy and free, and each member is
compared with its value in plain C."""
import functools, operator, os, glob, random, subprocess, hashlib, json, re, shutil, tempfile, copy as cp
from concurrent.futures import ThreadPoolExecutor

SIGNED = {"int8_t": 1, "int16_t": 2, "int32_t": 4, "int64_t": 8, "signed char": 1, "short": 2, "int": 4, "long": 8, "long long": 8, "ptrdiff_t": 8, "intmax_t": 8}
UNSIGNED = {"uint8_t": 1, "uint16_t": 2, "uint32_t": 4, "uint64_t": 8, "unsigned char": 1, "unsigned short": 2, "unsigned": 4, "unsigned long": 8, "size_t": 8, "uintptr_t": 8}
ABSENT = "<absent>"
PTR = {"": [], "P": ["CYAML_FLAG_POINTER"], "N": ["CYAML_FLAG_POINTER_NULL"], "S": ["CYAML_FLAG_POINTER_NULL_STR"]}
SCALARS = ("INT", "UINT", "BOOL", "ENUM", "FLAGS", "FLOAT", "STRING", "BITFIELD")
CB = {"INT": "cb_int", "UINT": "cb_uint", "ENUM": "cb_int", "FLAGS": "cb_int", "BITFIELD": "cb_uint", "FLOAT": "cb_float", "STRING": "cb_str", "MAPPING": "cb_map", "SEQUENCE": "cb_seq", "SEQUENCE_FIXED": "cb_seq"}
MEMBER = {"INT": "integer", "UINT": "unsigned_integer", "BOOL": "boolean", "ENUM": "enumeration", "FLAGS": "enumeration", "BITFIELD": "bitfield", "FLOAT": "floating_point", "STRING": "string", "MAPPING": "mapping",
          "SEQUENCE": "sequence", "SEQUENCE_FIXED": "sequence"}


def word(r, lo=1, hi=8):
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_") for _ in range(r.randint(lo, hi)))


def words(r, n, lo=1, hi=8):
    out, seen = [], set()
    while len(out) < n:
        w = word(r, lo, hi) + (str(len(out)) if r.random() < .5 or len(seen) != len(out) else "")
        if w.lower() not in seen:
            seen.add(w.lower())
            out.append(w)
    return out


# ---------------------------------------------------------------- specifications
class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0

    def id(self):
        self.n += 1
        return self.n

    def value(self, depth, where):
        """where: field, entry, top"""
        r = self.r
        kinds = list(SCALARS) + ["STRING"]
        if depth < 3:
            kinds += ["MAPPING"] * 3 + ["SEQUENCE_FIXED"] * 2 + (["SEQUENCE"] * 3 if where != "entry" else [])
        k = r.choice(kinds)
        if where == "top":
            k = r.choice(["MAPPING"] * 12 + ["SEQUENCE"] * 3 + ["SEQUENCE_FIXED", "STRING", "INT", "FLOAT", "BITFIELD", "ENUM"])
        v = {"kind": k, "id": self.id(), "ptr": r.choice(["", "", "P", "P", "N", "S"]), "more": []}
        if where == "top" and v["ptr"] == "":
            v["ptr"] = "P"
        if r.random() < .15:
            v["more"].append(r.choice(["CYAML_FLAG_STRICT", "CYAML_FLAG_BLOCK", "CYAML_FLAG_FLOW", "CYAML_FLAG_CASE_SENSITIVE", "CYAML_FLAG_CASE_INSENSITIVE"]))
        if k in SCALARS and v["ptr"] in ("", "P") and r.random() < .15:
            v["more"].append(r.choice(["CYAML_FLAG_SCALAR_PLAIN", "CYAML_FLAG_SCALAR_QUOTE_SINGLE", "CYAML_FLAG_SCALAR_QUOTE_DOUBLE"]))
        if k == "INT":
            v["ct"] = r.choice(list(SIGNED))
        elif k == "UINT":
            v["ct"] = r.choice(list(UNSIGNED))
        elif k == "BOOL":
            v["ct"] = r.choice(["bool", "bool", "int", "uint8_t", "uint16_t", "uint64_t"])
        elif k == "FLOAT":
            v["ct"] = r.choice(["float", "double"])
        elif k == "ENUM":
            v["ct"] = r.choice(["enum", "enum", "int8_t", "int16_t", "int", "int64_t"])
            n = r.randint(1, 6) if r.random() < .96 else r.choice([255, 256, 257, 300, 600])
            size = 4 if v["ct"] == "enum" else SIGNED[v["ct"]]
            if n > 6 and size == 1:
                n = 200
            vals = r.sample(range(-100, 101) if n < 200 else range(-100, 1001), n) if size > 1 else r.sample(range(-128, 128), n)
            if size >= 4 and r.random() < .3:
                vals[0] = r.choice([1 << 30, -(1 << 31), (1 << 31) - 1])
            v["strs"] = list(zip(words(r, n), vals))
        elif k == "FLAGS":
            v["ct"] = r.choice(["enum", "uint8_t", "uint16_t", "unsigned", "uint64_t"])
            bits = {"enum": 31, "uint8_t": 8, "uint16_t": 16, "unsigned": 32, "uint64_t": 63}[v["ct"]]
            n = r.randint(1, min(bits, 9))
            v["strs"] = list(zip(words(r, n), [1 << b for b in r.sample(range(bits), n)]))
            if r.random() < .05:  # long tables, with several names for a bit
                n = r.choice([255, 256, 257, 300])
                v["strs"] = list(zip(words(r, n), [1 << r.randrange(bits) for _ in range(n)]))
        elif k == "BITFIELD":
            v["ct"] = r.choice(["uint8_t", "uint16_t", "uint32_t", "uint64_t"])
            total, at, defs = UNSIGNED[v["ct"]] * 8, r.randint(0, 2), []
            while at < total and len(defs) < 7:
                b = min(total - at, r.choice([1, 1, 2, 3, 5, 8, 20, 64]))
                defs.append([at, b])
                at += b + r.choice([0, 0, 1, 3])
            r.shuffle(defs)
            if r.random() < .05:
                defs += [r.choice(defs) for _ in range(r.choice([255, 256, 257, 300]) - len(defs))]
            v["defs"] = [[w, a, b] for w, (a, b) in zip(words(r, len(defs)), defs)]
        elif k == "STRING":
            if v["ptr"] == "":
                v["n"] = r.choice([1, 2, 3, 5, 8, 13, 32, 64, 255, 256, 257, 300])
                v["max"] = v["n"] - 1 if r.random() < .5 else r.randint(0, v["n"] - 1)
                v["min"] = 0 if r.random() < .6 else r.randint(0, v["max"])
            else:
                v["max"] = r.choice([None, 3, 10, 1000])
                v["min"] = 0 if r.random() < .6 and where != "top" else r.randint(1, 3)  # an empty top level string is saved as nothing
        elif k == "MAPPING":
            v["struct"] = self.struct(depth + 1)
        else:
            v["entry"] = self.value(depth + 1, "entry")
            n = r.choice([1, 1, 2, 3, 4, 7])
            if v["entry"]["kind"] in SCALARS and v["entry"].get("n", 0) < 10 and where == "field" and r.random() < .04:
                n = r.choice([255, 256, 257, 300])
            if k == "SEQUENCE_FIXED":
                v["min"] = v["max"] = n
            else:
                v["max"] = n if v["ptr"] == "" else r.choice([None, n, n + 5])
                v["min"] = r.choice([0, 0, 1])
        return v

    def struct(self, depth):
        r = self.r
        n = r.randint(1, 10 if depth < 2 else 5)
        s = {"id": self.id(), "style": r.choice(["struct", "struct", "typedef", "packed", "union"]), "fields": []}
        keys, names = words(r, n + 1), words(r, 2 * n + 2, 1, 5)
        for i in range(n):
            v = self.value(depth, "field")
            if r.random() < .2 and v["kind"] not in ("MAPPING",) and not (v["kind"] == "SEQUENCE_FIXED" and v["ptr"] == ""):
                v["missing"] = True
            f = {"key": keys[i], "name": "m_" + names[i], "v": v, "opt": r.random() < .35 or "missing" in v, "grp": r.choice(["", "", "", "sub", "anon"]), "pad": r.choice([0, 0, 0, 1, 3, 7]),
                 "form": r.randint(0, 3), "cb": r.random() < .2, "ct": r.choice(list(UNSIGNED) + ["int", "uint16_t", "uint8_t"]), "cname": "c_" + names[n + i] if r.random() < .5 else None, "cfar": r.random() < .5, "cgrp": r.choice(["", "", "sub", "anon"])}
            if r.random() < .02:
                f["pad"] = r.choice([250, 255, 256, 300] + [65500, 70000] * (depth < 2))
            if v["kind"] == "SEQUENCE" and (v["max"] or 0) > 250:
                f["ct"] = r.choice(["unsigned", "uint16_t", "size_t"])
            s["fields"].append(f)
        if r.random() < .15:
            s["ignore"] = keys[n]
            s["ignopt"] = r.random() < .5
        return s


# ---------------------------------------------------------------- values
def size_of(v):
    return 4 if v["ct"] == "enum" else SIGNED.get(v["ct"]) or UNSIGNED.get(v["ct"]) or 1


class Vals:
    def __init__(self, r):
        self.r = r

    def value(self, v, null=True):
        r, k = self.r, v["kind"]
        if null and v["ptr"] in ("N", "S") and "missing" not in v and r.random() < .25:
            return None
        if k == "INT":
            b = 8 * SIGNED[v["ct"]]
            return r.choice([0, 1, -1, r.randint(-100, 100), -(1 << b - 1), (1 << b - 1) - 1, r.randint(-(1 << b - 1), (1 << b - 1) - 1)])
        if k == "UINT":
            b = 8 * UNSIGNED[v["ct"]]
            return r.choice([0, 1, r.randint(0, 100), (1 << b) - 1, r.randint(0, (1 << b) - 1)])
        if k == "BOOL":
            return r.random() < .5
        if k == "FLOAT":
            return r.randint(-7999, 7999) / 8
        if k == "ENUM":
            return r.randrange(len(v["strs"]))
        if k == "FLAGS":
            n = len(v["strs"])
            return sorted(r.sample(range(n), r.randint(0, n if n < 20 or r.random() < .1 else 4)))
        if k == "BITFIELD":
            at = {}
            return [at.setdefault((a, b), r.choice([0, (1 << b) - 1, r.randint(0, (1 << b) - 1)])) for _, a, b in v["defs"]]
        if k == "STRING":
            hi = 20 if v["max"] is None else v["max"]
            lo = max(v["min"], 1 if v["ptr"] in ("N", "S") else 0)
            n = r.choice([lo, hi, r.randint(lo, hi)])
            return "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(n))
        if k == "MAPPING":
            return [self.field(f) for f in v["struct"]["fields"]]
        lo = 1 if v["ptr"] else v["min"]  # behind a pointer, an empty one may be NULL
        n = v["max"] if k == "SEQUENCE_FIXED" else r.randint(lo, lo + 4 if v["max"] is None else v["max"])
        return [self.value(v["entry"]) for _ in range(n)]

    def field(self, f):
        v = f["v"]
        if f["opt"] and (v["ptr"] or v["kind"] in ("INT", "UINT", "BOOL", "FLOAT", "FLAGS", "BITFIELD") or (v["kind"] == "ENUM" and any(x == 0 for _, x in v["strs"])) or (v["kind"] == "STRING" and v["min"] == 0)
                         or (v["kind"] == "SEQUENCE" and v["min"] == 0)) and self.r.random() < .4:
            return ABSENT
        return self.value(v)


def walk(v):
    yield v
    if v["kind"] == "MAPPING":
        for f in v["struct"]["fields"]:
            yield from walk(f["v"])
    elif "entry" in v:
        yield from walk(v["entry"])


def lit(v, x):
    """A C expression for the pointee of v (scalars)."""
    k = v["kind"]
    if k == "INT":
        return "(-%dLL-1)" % (-x - 1) if x < 0 else "%dLL" % x
    if k == "UINT":
        return "%dULL" % x
    if k == "BOOL":
        return "1" if x else "0"
    if k == "FLOAT":
        return "%.3f%s" % (x, "f" if v["ct"] == "float" else "")
    if k == "ENUM":
        x = v["strs"][x][1]
        return "(-%dLL-1)" % (-x - 1) if x < 0 else "%dLL" % x
    if k == "FLAGS":
        return "%dULL" % functools.reduce(operator.or_, (v["strs"][i][1] for i in x), 0)
    if k == "BITFIELD":
        return "%dULL" % functools.reduce(operator.or_, (n << a for n, (_, a, _b) in zip(x, v["defs"])), 0)
    if k == "STRING":
        return '"%s"' % x


class Render:
    def __init__(self, case, pre):
        self.case, self.pre = case, pre
        self.out, self.table, self.done, self.uses = [], [], set(), 0
        self.r = random.Random(case["salt"])

    # ------------------------------------------------ types
    def ctype(self, v):
        """The type of the value itself, not of a pointer to it."""
        k, p = v["kind"], self.pre
        if k in ("ENUM", "FLAGS") and v["ct"] == "enum":
            return "enum %se%d" % (p, v["id"])
        if k == "STRING":
            return "char" if v["ptr"] else "%sT%d" % (p, v["id"])
        if k == "MAPPING":
            return self.sname(v["struct"])
        if "entry" in v:
            return self.slot(v["entry"])  # of one entry
        return v["ct"]

    def sname(self, s):
        return ("%sS%d" if s["style"] == "typedef" else "union %sS%d" if s["style"] == "union" and len(s["fields"]) == 1 and s["fields"][0]["v"]["kind"] != "SEQUENCE" else "struct %sS%d") % (self.pre, s["id"])

    def slot(self, v):
        return "%sL%d" % (self.pre, v["id"])

    def declare(self, v):
        p, k, o = self.pre, v["kind"], self.out
        if k in ("ENUM", "FLAGS"):
            if v["ct"] == "enum":
                o.append("enum %se%d { %s };" % (p, v["id"], ", ".join("%se%d_%d = %s" % (p, v["id"], i, x if x > -(1 << 31) else "(-2147483647 - 1)") for i, (_, x) in enumerate(v["strs"]))))
            o.append("static const cyaml_strval_t %ss%d[] = { %s };" % (p, v["id"], ", ".join('{ "%s", %s }' % (w, "%dLL" % x) for w, x in v["strs"])))
        if k == "BITFIELD":
            o.append("static const cyaml_bitdef_t %ss%d[] = { %s };" % (p, v["id"], ", ".join('{ "%s", %d, %d }' % tuple(d) for d in v["defs"])))
        if k == "STRING" and not v["ptr"]:
            o.append("typedef char %sT%d[%d];" % (p, v["id"], v["n"]))
        if k == "MAPPING":
            self.struct(v["struct"])
        if "entry" in v:
            self.declare(v["entry"])
            self.entry_schema(v["entry"])
        t = self.ctype(v)
        if v["ptr"]:
            o.append("typedef %s *%s;" % (t, self.slot(v)))
        elif "entry" in v:
            o.append("typedef %s %s[%d];" % (t, self.slot(v), v["max"]))
        else:
            o.append("typedef %s %s;" % (t, self.slot(v)))

    def struct(self, s):
        for f in s["fields"]:
            self.declare(f["v"])
        mem = {"": [], "sub": [], "anon": []}
        order = list(s["fields"])
        self.r.shuffle(order)
        late = []
        for f in order:
            v = f["v"]
            if f["pad"]:
                mem[f["grp"]].append("char p_%s[%d];" % (f["name"], f["pad"]))
            t = self.ctype(v)
            if "entry" in v:
                d = "%s *%s;" % (t, f["name"]) if v["ptr"] else "%s %s[%d];" % (t, f["name"], v["max"])
            else:
                d = "%s %s%s;" % (t, "*" if v["ptr"] else "", f["name"])
            c = None
            if v["kind"] == "SEQUENCE":
                # with the default name the count lies beside the member
                c = (f["cgrp"] if f["cname"] else f["grp"], "%s %s;" % (f["ct"], f["cname"] or f["name"] + "_count"))
            if c and not f["cfar"]:
                mem[c[0]].append(c[1])
            mem[f["grp"]].append(d)
            if c and f["cfar"]:
                late.append(c)
        for g, d in late:
            mem[g].append(d)
        body = []
        for g in self.r.sample(["", "sub", "anon"], 3):
            if g == "" or not mem[g]:
                body += mem[g]
            else:
                body.append("struct { %s }%s;" % (" ".join(mem[g]), " sub" if g == "sub" else ""))
        n = self.sname(s)
        if s["style"] == "typedef":
            self.out.append("typedef struct { %s } %s;" % (" ".join(body), n))
        else:
            self.out.append("%s { %s }%s;" % (n, " ".join(body), " __attribute__((packed))" if s["style"] == "packed" else ""))
        F = "%sF%d" % (self.pre, s["id"])
        rows = []
        for i, f in enumerate(s["fields"]):
            rows.append(self.field(s, f, "%s[%d]" % (F, i)))
        if "ignore" in s:
            fl = "CYAML_FLAG_OPTIONAL" + ("" if s["ignopt"] else " | CYAML_FLAG_FLOW")
            at = self.r.randint(0, len(rows))
            e = "%s[%d]" % (F, len(rows))
            rows.append('CYAML_FIELD_IGNORE("%s", %s)' % (s["ignore"], fl))
            self.table += ['CK(!strcmp(%s.key, "%s"));' % (e, s["ignore"]), "EQ(%s.value.type, CYAML_IGNORE);" % e, "EQ(%s.value.flags, %s);" % (e, fl)]
            self.uses += 1
        rows.append("CYAML_FIELD_END")
        self.out.append("static const cyaml_schema_field_t %s[] = {\n\t%s\n};" % (F, ",\n\t".join(rows)))
        self.table += ["PEQ(%s[%d].key, NULL);" % (F, len(rows) - 1), "EQ(CYAML_ARRAY_LEN(%s), %d);" % (F, len(rows))]

    def path(self, f):
        return ("sub." if f["grp"] == "sub" else "") + f["name"]

    def cpath(self, f):
        if f["cname"]:
            return ("sub." if f["cgrp"] == "sub" else "") + f["cname"]
        return self.path(f) + "_count"

    def strs(self, v):
        a = "%ss%d" % (self.pre, v["id"])
        n = len(v.get("strs") or v["defs"])
        return a, self.r.choice(["CYAML_ARRAY_LEN(%s)" % a, "%d" % n, "%d + %d" % (n - 1, 1)]), n

    def init(self, v, missing, cb, expect, e, generic):
        """Initialiser of the union member for the generic macros, and what is expected of it."""
        k, p, it = v["kind"], self.pre, []
        m = "%s.%s" % (e, MEMBER[k])
        if k in ("ENUM", "FLAGS", "BITFIELD"):
            a, cnt, n = self.strs(v)
            it += [".%s = %s" % ("bitdefs" if k == "BITFIELD" else "strings", a), ".count = " + cnt]
            expect += ["PEQ(%s.%s, %s);" % (m, "bitdefs" if k == "BITFIELD" else "strings", a), "EQ(%s.count, %d);" % (m, n)]
        elif k == "STRING":
            it += [".min = %d" % v["min"], ".max = %s" % self.num(v["max"])]
            expect += ["EQ(%s.min, %d);" % (m, v["min"]), "EQ(%s.max, %s);" % (m, self.num(v["max"], True))]
        elif k == "MAPPING":
            it.append(".fields = %sF%d" % (p, v["struct"]["id"]))
            expect.append("PEQ(%s.fields, %sF%d);" % (m, p, v["struct"]["id"]))
        elif "entry" in v:
            it += [".entry = &%sV%d" % (p, v["entry"]["id"]), ".min = %d" % v["min"], ".max = %s" % self.num(v["max"])]
            expect += ["PEQ(%s.entry, &%sV%d);" % (m, p, v["entry"]["id"]), "EQ(%s.min, %d);" % (m, v["min"]), "EQ(%s.max, %s);" % (m, self.num(v["max"], True))]
        if k == "BOOL":
            pass  # has no callback
        elif generic and cb:
            it.append(".validation_cb = " + CB[k])
            expect.append("CK(%s.validation_cb == %s);" % (m, CB[k]))
        else:
            expect.append("CK(%s.validation_cb == NULL);" % m)
        if missing is not None:
            if k == "SEQUENCE":
                a = "%sD%d" % (p, v["id"])
                self.out.append("static %s %s[] = { %s };" % (self.slot(v["entry"]), a, ", ".join(self.cinit(v["entry"], x) for x in missing)))
                it += [".missing = " + a, ".missing_count = %d" % len(missing)]
                expect += ["PEQ(%s.missing, %s);" % (m, a), "EQ(%s.missing_count, %d);" % (m, len(missing))]
            else:
                it.append(".missing = " + lit(v, missing))
                expect.append(('CK(!strcmp(%s.missing, %s));' if k == "STRING" else "CK(%s.missing == %s);") % (m, lit(v, missing)))
        elif k == "STRING" or k == "MAPPING" or "entry" in v:
            expect.append("PEQ(%s.missing, NULL);" % m)
        else:
            expect.append("CK(%s.missing == 0);" % m)
        return "{ %s }" % (", ".join(it) or "0")

    def num(self, n, plain=False):
        if n is None:
            return "0xffffffff" if plain else "CYAML_UNLIMITED"
        return "%d" % n if plain or n < 2 or self.r.random() < .7 else "%d + 1" % (n - 1)

    def flags(self, fl):
        return " | ".join(fl) if fl else self.r.choice(["CYAML_FLAG_DEFAULT", "0"])

    def field(self, s, f, e):
        v, k, S = f["v"], f["v"]["kind"], self.sname(s)
        self.uses += 1
        M = self.path(f)
        extra = (["CYAML_FLAG_OPTIONAL"] if f["opt"] else []) + v["more"]
        want = extra + PTR[v["ptr"]]
        ev = e + ".value"
        T = self.table
        T += ['CK(!strcmp(%s.key, "%s"));' % (e, f["key"]), "EQ(%s.data_offset, offsetof(%s, %s));" % (e, S, M), "EQ(%s.type, CYAML_%s);" % (ev, k), "EQ(%s.flags, %s);" % (ev, " | ".join(want) or "0")]
        T.append("EQ(%s.data_size, sizeof(%s));" % (ev, self.ctype(v)))
        if k == "SEQUENCE":
            T += ["EQ(%s.count_offset, offsetof(%s, %s));" % (e, S, self.cpath(f)), "EQ(%s.count_size, sizeof(%s));" % (e, f["ct"])]
        given = list(want)
        form = f["form"]
        if "entry" not in v:
            if v["ptr"] == "P" and self.r.random() < .5:
                given = extra  # the macros for pointers add it
            if v["ptr"] == "" and self.r.random() < .3:
                given = extra + ["CYAML_FLAG_POINTER"]  # and the others take it away
        self.r.shuffle(given)
        fl = self.flags(given)
        missing = f.get("missing")
        generic = f["cb"] or missing is not None or form == 3 or (k == "STRING" and v["ptr"] == "" and v["max"] != v["n"] - 1)
        head = '"%s", %s, %s, %s' % (f["key"], fl, S, M)
        if generic:
            init = self.init(v, missing, f["cb"], T, ev, True)
            if k == "SEQUENCE" and f["cname"]:
                return "CYAML_FIELD_PTR_COUNT(SEQUENCE, %s, %s, %s)" % (head, self.cpath(f), init)
            if v["ptr"] and k not in ("SEQUENCE",) and form == 1:
                return "CYAML_FIELD_PTR_COUNT(%s, %s, %s, %s)" % (k, head, M, init)
            if not v["ptr"] and ("entry" not in v or form != 1):
                return "CYAML_FIELD(%s, %s, %s)" % (k, head, init)
            return "CYAML_FIELD_PTR(%s, %s, %s)" % (k, head, init)
        self.init(v, None, False, T, ev, False)
        P = "_PTR" if v["ptr"] else ""
        if k in ("INT", "UINT", "BOOL", "FLOAT"):
            return "CYAML_FIELD_%s%s(%s)" % (k, P, head)
        if k in ("ENUM", "FLAGS", "BITFIELD"):
            a, cnt, n = self.strs(v)
            return "CYAML_FIELD_%s%s(%s, %s, %s)" % (k, P, head, a, cnt)
        if k == "STRING":
            return "CYAML_FIELD_STRING%s(%s, %d%s)" % (P, head, v["min"], ", " + self.num(v["max"]) if P else "")
        if k == "MAPPING":
            return "CYAML_FIELD_MAPPING%s(%s, %sF%d)" % (P, head, self.pre, v["struct"]["id"])
        E = "&%sV%d" % (self.pre, v["entry"]["id"])
        if k == "SEQUENCE_FIXED":
            return "CYAML_FIELD_SEQUENCE_FIXED(%s, %s, %s)" % (head, E, self.num(v["max"]))
        if f["cname"]:
            return "CYAML_FIELD_SEQUENCE_COUNT(%s, %s, %s, %d, %s)" % (head, self.cpath(f), E, v["min"], self.num(v["max"]))
        return "CYAML_FIELD_SEQUENCE(%s, %s, %d, %s)" % (head, E, v["min"], self.num(v["max"]))

    def entry_schema(self, v):
        k, n = v["kind"], "%sV%d" % (self.pre, v["id"])
        self.uses += 1
        want = v["more"] + PTR[v["ptr"]]
        given = list(want)
        self.r.shuffle(given)
        fl, t = self.flags(given), self.ctype(v)
        if k == "STRING" and not v["ptr"] and self.r.random() < .5:
            t = "char[%d]" % v["n"]
        T = self.table
        T += ["EQ(%s.type, CYAML_%s);" % (n, k), "EQ(%s.flags, %s);" % (n, " | ".join(want) or "0"), "EQ(%s.data_size, sizeof(%s));" % (n, self.ctype(v))]
        if self.r.random() < .3:
            cb = self.r.random() < .5
            x = "CYAML_VALUE(%s, %s, %s, %s)" % (k, fl, t, self.init(v, None, cb, T, n, True))
        else:
            self.init(v, None, False, T, n, False)
            if k in ("INT", "UINT", "BOOL", "FLOAT"):
                x = "CYAML_VALUE_%s(%s, %s)" % (k, fl, t)
            elif k in ("ENUM", "FLAGS", "BITFIELD"):
                a, cnt, _ = self.strs(v)
                x = "CYAML_VALUE_%s(%s, %s, %s, %s)" % (k, fl, t, a, cnt)
            elif k == "STRING":
                x = "CYAML_VALUE_STRING(%s, %s, %d, %s)" % (fl, t, v["min"], self.num(v["max"]))
            elif k == "MAPPING":
                x = "CYAML_VALUE_MAPPING(%s, %s, %sF%d)" % (fl, t, self.pre, v["struct"]["id"])
            elif k == "SEQUENCE_FIXED":
                x = "CYAML_VALUE_SEQUENCE_FIXED(%s, %s, &%sV%d, %s)" % (fl, t, self.pre, v["entry"]["id"], self.num(v["max"]))
            else:
                x = "CYAML_VALUE_SEQUENCE(%s, %s, &%sV%d, %d, %s)" % (fl, t, self.pre, v["entry"]["id"], v["min"], self.num(v["max"]))
        self.out.append("static const cyaml_schema_value_t %s = { %s };" % (n, x))

    # ------------------------------------------------ values
    def yaml(self, v, x):
        if x is None:
            return "null" if v["ptr"] == "S" and self.r.random() < .7 else "!!null "
        k = v["kind"]
        if k in ("INT", "UINT"):
            return str(x)
        if k == "BOOL":
            return "true" if x else "false"
        if k == "FLOAT":
            return "%.3f" % x
        if k == "ENUM":
            return v["strs"][x][0]
        if k == "FLAGS":
            return "[%s]" % ", ".join(v["strs"][i][0] for i in x)
        if k == "BITFIELD":
            return "{%s}" % ", ".join("%s: %d" % (d[0], n) for d, n in zip(v["defs"], x))
        if k == "STRING":
            return '"%s"' % x
        if k == "MAPPING":
            s = v["struct"]
            it = ["%s: %s" % (f["key"], self.yaml(f["v"], y)) for f, y in zip(s["fields"], x) if y != ABSENT]
            if "ignore" in s and self.r.random() < .6:
                it.append("%s: [a, {b: c}]" % s["ignore"])
            self.r.shuffle(it)
            return "{%s}" % ", ".join(it)
        return "[%s]" % ", ".join(self.yaml(v["entry"], y) for y in x)

    def cinit(self, v, x):
        """Initialiser for a slot of v."""
        if x is None:
            return "NULL"
        k, t = v["kind"], self.ctype(v)
        if k == "STRING":
            return '(char[]){ "%s" }' % x if v["ptr"] else '{ "%s" }' % x
        if k == "MAPPING":
            it = []
            for f, y in zip(v["struct"]["fields"], x):
                if y == ABSENT:
                    y = f.get("missing")
                    if y is None:
                        continue
                it.append(".%s = %s" % (self.path(f), self.cinit(f["v"], y)))
                if f["v"]["kind"] == "SEQUENCE":
                    it.append(".%s = %d" % (self.cpath(f), len(y or [])))
            b = "{ %s }" % (", ".join(it) or "0")
            return "&(%s)%s" % (t, b) if v["ptr"] else b
        if "entry" in v:
            b = "{ %s }" % (", ".join(self.cinit(v["entry"], y) for y in x) or "0")
            return "(%s[%d])%s" % (t, max(len(x), 1), b) if v["ptr"] else b
        return "&(%s){ %s }" % (t, lit(v, x)) if v["ptr"] else lit(v, x)

    def check(self, v, x, e, out, count=None):
        if count is not None:
            out.append("CK(%s == %d);" % (count, len(x or [])))
        if x is None:
            out.append("CK(%s == NULL);" % e)
            return
        if v["ptr"]:
            out.append("CK(%s != NULL);" % e)
        k = v["kind"]
        if k == "STRING":
            out.append('CK(!strcmp(%s, "%s"));' % (e, x))
        elif k == "MAPPING":
            b = "(*%s)" % e if v["ptr"] else e
            for f, y in zip(v["struct"]["fields"], x):
                m = "%s.%s" % (b, self.path(f))
                c = "%s.%s" % (b, self.cpath(f)) if f["v"]["kind"] == "SEQUENCE" else None
                if y == ABSENT:
                    y = f.get("missing")
                    if y is None:
                        if f["v"]["ptr"]:
                            out.append("CK(%s == NULL);" % m)
                        elif f["v"]["kind"] == "STRING":
                            out.append("CK(!%s[0]);" % m)
                        elif c is None:
                            out.append("CK(%s == 0);" % m)
                        if c:
                            out.append("CK(%s == 0);" % c)
                        continue
                self.check(f["v"], y, m, out, c)
        elif "entry" in v:
            for i, y in enumerate(x):
                self.check(v["entry"], y, "%s[%d]" % (e, i), out)
        else:
            out.append("CK(%s == %s);" % ("(*%s)" % e if v["ptr"] else e, "(%s)%s" % (self.ctype(v), lit(v, x))))

    def render(self):
        c, p = self.case, self.pre
        top = c["top"]
        r = random.Random(c["salt"] + 1)
        for v in walk(top):
            if v["kind"] == "MAPPING":
                for f in v["struct"]["fields"]:
                    f.pop("missing", None)
                    if "missing" in f["v"]:
                        g = Vals(r)
                        x = g.value(f["v"], False)
                        ok = True
                        if f["v"]["kind"] == "SEQUENCE":
                            # plain entries only: the default is one static array
                            en = f["v"]["entry"]
                            ok = en["kind"] in SCALARS and not en["ptr"] and x
                        elif f["v"]["kind"] not in SCALARS or (f["v"]["kind"] == "STRING" and not x) or lit(f["v"], x) in ("0", "0LL", "0ULL", "0.000", "0.000f", "-0.000"):
                            ok = False
                        if ok:
                            f["missing"] = x
        self.declare(top)
        self.entry_schema(top)
        runs = []
        for i in range(c["values"]):
            g = Vals(random.Random(c["salt"] * 1000 + i))
            x = g.value(top, False)
            body = []
            ck = "%scheck%d" % (p, i)
            self.check(top, x, "p", body, "n" if top["kind"] == "SEQUENCE" else None)
            self.out.append("static void %s(void *data, unsigned n)\n{\n\t%s p = data;\n\t(void)n; (void)p;\n\t%s\n}" % (ck, self.slot(top), "\n\t".join(body)))
            d = self.yaml(top, x)
            fl = self.r.choice(["0", "0", "CYAML_CFG_STYLE_BLOCK", "CYAML_CFG_STYLE_FLOW", "CYAML_CFG_DOCUMENT_DELIM", "CYAML_CFG_CASE_INSENSITIVE", "CYAML_CFG_STYLE_FLOW | CYAML_CFG_DOCUMENT_DELIM"])
            runs.append("{ %s p = %s;\n\trun(\"%s value %d\", &%sV%d, %s, %s, %s, p, %d); }" % (self.slot(top), self.cinit(top, x), p, i, p, top["id"], fl, json.dumps(d), ck, len(x) if "entry" in top else 0))
        return self.out, self.table, runs


def make_case(seed):
    r = random.Random(seed)
    g = Gen(r)
    return {"salt": r.randrange(1 << 40), "top": g.value(0, "top" ), "values": r.choice([1, 2, 3])}


def program(cases):
    src, table, runs, uses = ['#include "macros.h"'], [], [], []
    for i, c in enumerate(cases):
        R = Render(c, "c%d_" % i)
        o, t, u = R.render()
        src += o
        src.append("static void c%d_table(void)\n{\n\tnow = \"c%d_\";\n\t%s\n}" % (i, i, "\n\t".join(t)))
        src.append("static void c%d_run(void)\n{\n\t%s\n}" % (i, "\n\t".join(u)))
        uses.append(R.uses)
    src.append("static void table(void)\n{\n\t%s\n}" % "\n\t".join("c%d_table();" % i for i in range(len(cases))))
    src.append("static void cases(void)\n{\n\t%s\n}" % "\n\t".join("c%d_run();" % i for i in range(len(cases))))
    return "\n".join(src) + "\n", uses


# ---------------------------------------------------------------- running
def library(ck, cc):
    inc, lib_h = glob.glob(ck.REPO + "/include/cyaml/*.h"), glob.glob(ck.REPO + "/src/*.h")
    os.makedirs(os.path.join(ck.BUILD, "obj"), exist_ok=True)
    fl = cc["lib"] + ck.DEFS + ["-D_GNU_SOURCE", "-I", ck.REPO + "/include"]
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(lambda s: ck.compile_obj(fl, s, inc + lib_h, "m-" + cc["name"]), sorted(glob.glob(ck.REPO + "/src/*.c"))))


def compilers(ck):
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"]
    return [{"name": "clang", "lib": ["clang", "-std=c11", "-O1", "-g1"] + san, "prog": ["clang", "-std=gnu11", "-O0", "-w"] + san},
            {"name": "gcc", "lib": ["gcc", "-std=c11", "-O2"], "prog": ["gcc", "-std=gnu17", "-O0", "-w"]},
            {"name": "gcc99", "lib": ["gcc", "-std=c11", "-O2"], "prog": ["gcc", "-std=gnu99", "-O1", "-w"]}]


def run_source(ck, cc, src, tmp, name):
    """None if it holds, otherwise what failed; and what it printed."""
    c, exe = os.path.join(tmp, name + ".c"), os.path.join(tmp, name)
    with open(c, "w") as f:
        f.write(src)
    p = subprocess.run(cc["prog"] + ["-I", ck.REPO + "/include", "-I", os.path.join(ck.H, "progs"), c] + cc["objs"] + ["-lyaml", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        m = re.search(r"^.*error:.*$", p.stdout, re.M)
        return "the program does not compile: " + (m.group(0) if m else p.stdout[-600:]), p.stdout
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    try:
        q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=e)
    except subprocess.TimeoutExpired:
        return "the program does not end", ""
    out = q.stdout.decode("latin-1")
    os.unlink(exe)
    os.unlink(c)
    if q.returncode == 0:
        return None, out
    m = re.search(r"^FAILS: .*$|^.*ERROR: AddressSanitizer.*$", out, re.M)
    return (m.group(0) if m else "the program ended with status %d" % q.returncode), out


def simpler(case):
    """Simpler cases, one step each."""
    if case["values"] > 1:
        c = cp.deepcopy(case)
        c["values"] = 1
        yield c
    vals = list(walk(case["top"]))
    for i, v in enumerate(vals):
        if v["kind"] == "MAPPING":
            n = len(v["struct"]["fields"])
            for j in range(n if n > 1 else 0):
                c = cp.deepcopy(case)
                del list(walk(c["top"]))[i]["struct"]["fields"][j]
                yield c
            for j in range(n):
                f = v["struct"]["fields"][j]
                if f["v"]["kind"] in ("MAPPING", "SEQUENCE", "SEQUENCE_FIXED"):
                    c = cp.deepcopy(case)
                    g = list(walk(c["top"]))[i]["struct"]["fields"][j]
                    g["v"] = {"kind": "INT", "ct": "int", "id": f["v"]["id"], "ptr": "", "more": []}
                    yield c
                for k, z in (("pad", 0), ("grp", ""), ("opt", False), ("cb", False)):
                    if f[k] != z and not (k == "opt" and "missing" in f["v"]):
                        c = cp.deepcopy(case)
                        list(walk(c["top"]))[i]["struct"]["fields"][j][k] = z
                        yield c
            if v["struct"]["style"] != "struct":
                c = cp.deepcopy(case)
                list(walk(c["top"]))[i]["struct"]["style"] = "struct"
                yield c
        if v["more"]:
            c = cp.deepcopy(case)
            list(walk(c["top"]))[i]["more"] = []
            yield c
        if "entry" in v and v["entry"]["kind"] != "INT":
            c = cp.deepcopy(case)
            w = list(walk(c["top"]))[i]
            w["entry"] = {"kind": "INT", "ct": "int", "id": v["entry"]["id"], "ptr": "", "more": []}
            yield c


def kind_of(w):
    return re.sub(r"c\d+_|line \d+|value \d+", "", w)[:40]


def shrink(ck, cc, case, what, tmp):
    tries = 0
    again = True
    while again and tries < 150:
        again = False
        for c in simpler(case):
            tries += 1
            if tries >= 150:
                break
            w, _ = run_source(ck, cc, program([c])[0], tmp, "shrink")
            if w and ("does not compile" in w) == ("does not compile" in what):
                case, what, again = c, w, True
                break
    return case, what


def run(ck, prop, tier, seed, extra):
    total = int(os.environ.get("C23_PROGRAMS", "500" if tier == "quick" else "20000"))
    per = 5
    ccs = compilers(ck)
    for cc in ccs:
        cc["objs"] = library(ck, cc)
    j = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "cases": {"programs": 0, "structure trees": 0}, "labels": {}, "violations": [], "extra": {}}
    seen = set()
    tmp = tempfile.mkdtemp(prefix="cymac.")
    try:
        def job(i):
            cases = [make_case("%d/%d/%d" % (seed, i, k)) for k in range(per)]
            cc = ccs[i % 4 if i % 4 < 3 else 0]
            src, uses = program(cases)
            w, out = run_source(ck, cc, src, tmp, "p%d" % i)
            return i, cases, cc, src, uses, w, out
        with ThreadPoolExecutor(max_workers=8) as ex:
            for i, cases, cc, src, uses, w, out in ex.map(job, range(total)):
                if j["violations"]:
                    continue
                j["cases"]["programs"] += 1
                m = re.search(r"^OK (\d+) (\d+)$", out, re.M)
                if m:
                    j["evaluations"] += int(m.group(1))
                    j["labels"]["validation callbacks called"] = j["labels"].get("validation callbacks called", 0) + int(m.group(2))
                j["labels"]["compiler " + cc["name"]] = j["labels"].get("compiler " + cc["name"], 0) + 1
                for c, u in zip(cases, uses):
                    j["cases"]["structure trees"] += 1
                    h = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()
                    if u >= 4 and h not in seen:
                        seen.add(h)
                for x in re.findall(r"CYAML_(?:FIELD|VALUE)\w*(?=\()", src):
                    j["labels"][x] = j["labels"].get(x, 0) + 1
                if len(j["samples"]) < 3:
                    o, t, _ = Render(cases[0], "").render()
                    j["samples"].append("\n".join(x for x in o if "static void" not in x)[:1500])
                if w:
                    for c in cases:  # which of them
                        s1, _ = program([c])
                        w1, _ = run_source(ck, cc, s1, tmp, "one")
                        if w1:
                            c, w = shrink(ck, cc, c, w1, tmp)
                            src = program([c])[0]
                            break
                    path = os.path.join(ck.HERE, "replays", "%s-%s-%s.txt" % (prop, cc["name"], hashlib.sha256(src.encode()).hexdigest()[:12]))
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    with open(path, "w") as f:
                        f.write("property: %s\ncompiler: %s\nwhat: %s\nprogram:\n%s" % (prop, cc["name"], w.replace("\n", " "), src))
                    j["violations"].append({"replay": path, "what": w})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    j["distinct_nontrivial"] = len(seen)
    return j


def replay(ck, path):
    t = open(path).read()
    name = re.search(r"^compiler: (\w+)", t, re.M).group(1)
    prop = re.search(r"^property: (\w+)", t, re.M).group(1)
    cc = next(c for c in compilers(ck) if c["name"] == name)
    cc["objs"] = library(ck, cc)
    tmp = tempfile.mkdtemp(prefix="cymac.")
    try:
        w, out = run_source(ck, cc, t.split("\nprogram:\n", 1)[1], tmp, "replay")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(w or "holds: " + out.strip())
    if w:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if w else 0


def prepare(ck):
    for cc in compilers(ck):
        library(ck, cc)
