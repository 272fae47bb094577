"""mkrnd.py SEED DIR: writes random services into the simulation module at DIR.

Everything is derived from SEED: packages of random types, services of random
signatures over them, implementations, and worker/rnd_gen.go, which registers
them with the worker. Their targets are appended to DIR/gotsrpc.yml."""
import json, os, random, re, shutil, sys, zlib

ROOT = "gotsrpcsim/svc/rnd"
# modules which packages may be in: path, version, directory, and what replaces it in go.mod
MODULES = [
    ("gotsrpcsim-ext", "v1.0.0", "mods/ext", "./mods/ext"),  # starts like the main module
    ("dep.test/lib", "v1.3.0", "mods/lib", "./mods/lib"),
    ("dep.test/lib/deep", "v0.1.0", "mods/deep", "./mods/deep"),  # inside another one's path
    ("abs.test/lib", "v1.0.0", "mods/abs", "@ROOT@/mods/abs"),
    ("dep.test/Upper", "v1.2.0", "gopath/pkg/mod/dep.test/!upper@v1.2.0", ""),  # in the module cache
    ("dep.test/lib/v2", "v2.0.1", "gopath/pkg/mod/dep.test/lib/v2@v2.0.1", ""),
    ("old.test/lib", "v1.0.0", "gopath/pkg/mod/new.test/!fork@v1.1.0", "new.test/Fork v1.1.0"),
]
PRIMS = ["rune", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "string", "string", "int64", "int", "byte"]
WORDS = ("alpha amber apple basin batch birch bloom board brick cabin cable canal cargo cedar chart cliff cloud cobalt comet coral crane crest dairy delta depot "
         "diary drift eagle ember fable ferry field flint flora forge frost gable giant glade grain grove guild harbor hazel heron honey house inlet ivory jewel kayak kiosk "
         "label lance latch ledge lemon lever linen lodge lotus lunar maple marsh medal mercy metal mint mocha motor mount noble north novel ocean olive onion orbit "
         "organ otter panel paper patch pearl petal pilot plaza point polar porch pride prism pulse quartz queen quill radar ranch raven ridge river robin rope royal "
         "saddle salad scale scout shelf shore silk slate solar spice spoon steel stone stream sugar swift table tempo thorn tiger timber topaz torch tower trail tulip "
         "tundra urban valley vapor velvet verge vigor villa vista vivid wagon walnut water wheat willow winter wolf yacht zebra zinc größe ñandú été übung").split()
VERBS = ["Get", "GetAll", "List", "Find", "FindBy", "Add", "Put", "Remove", "Update", "Count", "Check", "Move", "Copy", "Save", "Load", "Apply", "Run", "Is", "Has", "Set", "Call", "Execution", "Transport", "Constructor", "String", "Close", "Error"]
# not usable in the implementations written here
BAD = {"err", "nil", "id", "w", "r", "s", "c", "o"}
# names which generated code or TypeScript use themselves
TAKEN = ["ctx", "args", "reply", "tsc", "clientErr", "req", "response", "request", "rets", "callStats", "rpcCallRes", "endpoint", "client",
         "new", "class", "function", "delete", "in", "this", "let", "void", "await", "with", "static", "method", "transport"]


class Gen:
    def __init__(self, seed, root):
        self.r = random.Random(seed * 7919 + 17)
        self.seed, self.root = seed, root
        self.n = 0
        self.words = WORDS

    def word(self, cap=False):
        w = self.r.choice(self.words)
        return w.capitalize() if cap else w

    def few(self, lo, hi, most):
        """a number which is small, but for rare ones"""
        return self.r.randrange(hi + 1, most + 1) if self.p(6) else self.r.randrange(lo, hi + 1)

    def p(self, pct):
        return self.r.randrange(100) < pct


class Pkg:
    def __init__(self, g, path, name):
        self.g, self.path, self.name = g, path, name
        self.types = []       # (name, kind, definition)
        self.used = set()     # lower-case names
        self.first = {}       # of bases: the first field and its name in JSON
        self.last = None
        self.imports = {}     # path -> alias
        self.code = []
        self.structs, self.scalars, self.keys, self.lists, self.flat, self.bases = [], [], [], [], [], []

    def ident(self, base):
        k = base
        i = 2
        while k.lower() in self.used:
            k = base + str(i)
            i += 1
        self.used.add(k.lower())
        return k

    def ref(self, t, file):
        """the source text of a type in this package"""
        k = t[0]
        if k == "prim":
            return t[1]
        if k == "any":
            return "any" if t[1:] else "interface{}"
        if k == "time":
            file["time"] = "time"
            return "time.Time"
        if k == "dur":
            file["time"] = "time"
            return "time.Duration"
        if k == "named":
            if t[1] is self:
                return t[2]
            return self.alias(t[1], file) + "." + t[2]
        if k == "slice":
            return "[]" + self.ref(t[1], file)
        if k == "array":
            return "[%d]%s" % (t[1], self.ref(t[2], file))
        if k == "ptr":
            return "*" + self.ref(t[1], file)
        if k == "map":
            return "map[%s]%s" % (self.ref(t[1], file), self.ref(t[2], file))
        if k == "anon":
            return "struct {\n" + "".join("\t\t%s %s `json:%s`\n" % (n, self.ref(x, file), '"' + j + '"') for n, x, j in t[1]) + "\t}"
        raise ValueError(k)

    def alias(self, pkg, file):
        if pkg.path not in file:
            names = set(file.values()) | {self.name}
            a = pkg.name
            i = 0
            while a in names:
                i += 1
                a = ["other" + pkg.name, pkg.name + "s", "x" + pkg.name][i - 1] if i <= 3 else pkg.name + str(i)
            file[pkg.path] = a
        return file[pkg.path]

    # ---- types ---------------------------------------------------------------
    def pick(self, depth, gob, field, deps, flat=False):
        """a random type, usable in a field or an argument"""
        g = self.g
        srcs = [self] + deps
        x = g.r.randrange(100)
        if depth <= 0:
            x = x % 58
        if x < 30:
            return ("prim", g.r.choice(PRIMS))
        if x < 38:
            return ("time",) if g.p(60) else ("dur",)
        if x < 46 and field == "field" and x >= 43:
            if g.p(50):
                return ("array", g.few(1, 3, 9), ("prim", g.r.choice(["int", "string", "float64", "int16", "bool"])))
            return ("anon", [(g.word(True) + str(i), ("prim", g.r.choice(PRIMS)), g.word() + str(i)) for i in range(g.few(1, 3, 9))])
        if x < 48:
            l = [("named", q, n) for q in srcs for n in q.scalars]
            return g.r.choice(l) if l else ("prim", "string")
        if x < 55:
            l = [("named", q, n) for q in srcs for n in q.lists] if not flat else []
            return g.r.choice(l) if l else ("prim", "int64")
        if x < 58:
            return ("slice", ("prim", "uint8")) if gob or g.p(60) else g.r.choice([("any",), ("any", 1)])
        if x < 72:
            l = [("named", q, n) for q in srcs for n in (q.structs if not flat else q.flat)]
            return g.r.choice(l) if l else ("prim", "string")
        if x < 80:
            l = [("named", q, n) for q in srcs for n in (q.structs if not flat else q.flat)]
            if not l:
                return ("prim", "bool")
            if gob:
                return ("ptr", g.r.choice(l)) if field != "elem" else g.r.choice(l)
            return ("ptr", g.r.choice(l + [("prim", g.r.choice(PRIMS)), ("time",)] + [("named", q, n) for q in srcs for n in q.scalars]))
        if x < 89:
            return ("slice", self.pick(depth - 1, gob, "elem", deps, flat))
        if True:
            ks = [("prim", "string")] * 4 + [("prim", "int"), ("prim", "int64"), ("prim", "uint16"), ("prim", "int32")] + [("named", q, n) for q in srcs for n in q.keys]
            return ("map", g.r.choice(ks), self.pick(depth - 1, gob, "elem", deps, flat))

    def fill(self, deps, gob):
        g = self.g
        f = {}
        out = []
        for _ in range(g.r.randrange(1, 4)):  # string enums and plain strings
            n = self.ident(g.word(True))
            out.append("type %s string\n" % n)
            if g.p(60):
                out.append("const (\n" + "".join("\t%s%s %s = %s\n" % (n, w.capitalize(), n, g.r.choice(['"' + w + '"'] * 4 + ["`" + w + "`", '"\\x41' + w + '"', '"' + w + ' \\"x\\""'])) for w in g.r.sample([w for w in g.words if w.isascii()], g.few(1, 3, 15))) + ")\n")
            self.scalars.append(n)
            self.keys.append(n)
        for _ in range(g.r.randrange(1, 4)):
            n = self.ident(g.word(True))
            k = g.r.choice(["int", "int64", "int32", "uint", "uint64", "uint8", "int16", "float64", "float32", "bool"])
            out.append("type %s %s\n" % (n, k))
            if k.startswith("int") and g.p(40):
                nums = ["%d" % i for i in range(3)]
                if g.p(40):
                    nums = g.r.sample(["-1", "0", "1", "017", "0x1f", "'x'", "(7)", "-0x10", "0b11", "1_00"], 3)
                    nums = ["9" if x == "'x'" and k == "int8" else x for x in nums]
                words = g.r.sample([w for w in g.words if w.isascii()], 3)
                if g.p(30):
                    words = ["%d" % (100 + i) for i in range(3)]
                out.append("const (\n" + "".join("\t%s%s %s = %s\n" % (n, w.capitalize(), n, nums[i]) for i, w in enumerate(words)) + ")\n")
            self.scalars.append(n)
            if k not in ("bool", "float64", "float32"):
                self.keys.append(n)
        nstruct = g.r.randrange(3, 7)
        for i in range(nstruct):
            if g.p(45):
                n = self.ident(g.word(True) + "s")
                if g.p(50):
                    t = ("slice", self.pick(1, gob, "elem", deps, True))
                else:
                    t = ("map", g.r.choice([("prim", "string"), ("prim", "int")] + [("named", self, k) for k in self.keys]), self.pick(1, gob, "elem", deps, True))
                out.append("type %s %s\n" % (n, self.ref(t, f)))
                self.lists.append(n)
            n = self.ident(g.word(True))
            rows = []
            names = set()
            flat = i < 2

            dash = []

            def field(t, opts=""):
                w = g.word() + (g.word(True) if g.p(30) else "")
                while w.lower() in names:
                    w += "X"
                names.add(w.lower())
                name = w[0].upper() + w[1:]
                g.n += 1
                style = g.r.randrange(10)
                omit = (t[0] in ("prim", "ptr", "slice", "map") or g.p(60)) and g.p(25) and not gob
                o = ",omitempty" if omit else ""
                if style < 5:
                    tag = '`json:"%s%s"`' % (w, o)
                elif style < 6 and g.p(40):
                    tag = '`json:"%s%s%s%s"`' % (w.lower(), g.r.choice(["-", ".", " ", "--", "/"]), g.n, o) if g.p(70) else '`json:"%d%s%s"`' % (g.n, w, o)
                elif style < 6:
                    tag = '`json:"%s_%d%s"`' % (w.lower(), g.n, o)
                elif style < 7:
                    tag = '`yaml:"%s" json:"%s%s" xml:"z"`' % (g.word(), w + "Of", o) if not any(x == w.lower() + "of" for x in names) else ""
                    names.add(w.lower() + "of")
                elif style < 8:
                    tag = '`json:"%s"`' % (o,) if o else ""
                else:
                    tag = ""
                x = g.r.randrange(100)
                if x < 4 and not flat and not gob:
                    anon = ("anon", [(g.word(True) + str(i), ("prim", g.r.choice(PRIMS)), g.word() + str(i)) for i in range(g.r.randrange(1, 4))])
                    t = g.r.choice([("slice", anon), ("map", ("prim", "string"), anon), ("ptr", anon)])
                elif x < 8 and not flat and not gob and tag.startswith('`json:"') and '"' not in tag[7:-2]:
                    s, ty = g.r.choice([("[2]int", "[number,number]|null"), ("map[string]int", "Record<string,number>|null"), ("string", "string"), ("[]string", "Array<string>|null"),
                                        ("struct {\n\t\tA int `json:\"a\"`\n\t\tB string `json:\"b\"`\n\t}", "{a:number,b:string}"), ("int", "number")])
                    rows.append("\t%s %s %s gotsrpc:\"type:%s\"`\n" % (name, s, tag[:-1].replace(",omitempty", ""), ty))
                    return
                elif x < 11 and tag:  # an interpreted string
                    tag = json.dumps(tag[1:-1], ensure_ascii=False)
                elif x < 14 and not flat and tag:
                    w2 = w + "Also"
                    names.add(w2.lower())
                    rows.append("\t%s, %s %s\n" % (name, w2[0].upper() + w2[1:], self.ref(t, f)))
                    return
                elif x < 15 and not gob and not dash:
                    dash.append(1)
                    tag = '`json:"-,%s"`' % o[1:]
                rows.append("\t%s %s %s\n" % (name, self.ref(t, f), tag))
            for _ in range(g.few(2, 7, 30)):
                field(self.pick(0 if flat else g.few(1, 3, 6), gob, "field", deps, flat))
            if not gob and g.p(15):
                rows.append('\t%s %s `json:"-"`\n' % (self.hidden(names), g.r.choice(["string", "int", "[]string"])))
            if g.p(20):
                rows.append("\t%s %s\n" % ("unexported%d" % i, g.r.choice(["string", "int", "[]string", "map[string]bool"])))
            if not flat and not gob:
                if g.p(30):
                    e, d = self.embed(out, f, gob, n, names, deps)
                    rows.insert(g.r.randrange(len(rows) + 1), d)
                    if g.p(40) and self.last and "Embedded" not in d:  # a field of its own hides one of the embedded struct
                        fn, jn = self.last
                        rows.insert(g.r.randrange(len(rows) + 1), "\t%s %s `json:\"%s\"`\n" % (g.r.choice([fn, g.word(True) + "Hiding"]), g.r.choice(["string", "int", "[]string", "bool"]), jn))
            if not flat and g.p(35):
                field(g.r.choice([("ptr", ("named", self, n)), ("slice", ("named", self, n)), ("map", ("prim", "string"), ("named", self, n))]))
            out.append("// %s is a %s.\ntype %s struct {\n%s}\n" % (n, g.word(), n, "".join(rows)) if g.p(50) else "type %s struct {\n%s}\n" % (n, "".join(rows)))
            self.structs.append(n)
            if flat:
                self.flat.append(n)
        for _ in range(g.r.choice([0, 0, 1, 1, 2, 3])):  # types defined on others, and aliases
            l = g.r.choice([self.scalars, self.keys, self.lists, self.structs, self.flat])
            if l:
                o = g.r.choice(l)
                n = self.ident(g.word(True))
                out.append("type %s %s%s\n" % (n, g.r.choice(["", "", "= "]), o))
                for l in (self.scalars, self.keys, self.lists, self.structs, self.flat):
                    if o in l:
                        l.append(n)
        g.r.shuffle(out) if g.p(50) else None
        # several files, one of them with everything that has imports
        self.write("types.go", f, out)

    def unions(self, f, out, like=()):
        """types which are one of several structs, and what holds them"""
        g = self.g
        res = []
        for _ in range(g.r.choice([0, 1, 1, 2])):
            n = self.ident(g.r.choice(like)[2] if like and g.p(80) else g.word(True) + g.r.choice(["Union", "Choice", "Kind"]))
            rows = ""
            for i in range(g.few(2, 4, 12)):
                m = self.ident(n + g.word(True))
                mrows = '\tKind string `json:"kind" gotsrpc:"type:\'%s\'"`\n' % m
                for _ in range(g.few(0, 3, 12)):
                    g.n += 1
                    mrows += '\tM%d%s %s `json:"m%d"`\n' % (g.n, g.word(True), self.ref(self.pick(1, False, "elem", [], True), f), g.n)
                out.append("type %s struct {\n%s}\n" % (m, mrows))
                w = g.word() + str(i)
                rows += '\t%s *%s `json:"%s,omitempty" gotsrpc:"union"`\n' % (w[0].upper() + w[1:], m, w)
            out.append("type %s struct {\n%s}\n" % (n, rows))
            res.append(n)
            if g.p(60):
                h = self.ident(g.word(True) + "Holder")
                out.append('type %s struct {\n\tOne %s `json:"one"`\n\tList []%s `json:"list"`\n\tOpt *%s `json:"opt,omitempty"`\n\tByKey map[string]%s `json:"byKey"`\n}\n' % (h, n, n, n, n))
                res.append(h)
        return [("named", self, x) for x in res]

    def hidden(self, names):
        w = self.g.word(True) + "Hidden"
        names.add(w.lower())
        return w

    def embed(self, out, f, gob, owner, names, deps):
        """a struct of its own to embed, so that no names meet"""
        g = self.g
        far = [(q, n) for q in deps for n in q.bases if n.lower() not in names]
        if far and g.p(40):
            q, n = g.r.choice(far)
            self.last = q.first.get(n)
            t = self.alias(q, f) + "." + n
        else:
            n = self.ident(g.word(True) + "Base")
            rows = ""
            for i in range(g.r.randrange(1, 4)):
                g.n += 1
                rows += '\tE%d%s %s `json:"e%d"`\n' % (g.n, g.word(True), self.ref(self.pick(1, gob, "elem", deps, True), f), g.n)
            self.last = self.first[n] = ("E" + rows[2:].split(" ")[0], rows.split('"')[1])
            out.append("type %s struct {\n%s}\n" % (n, rows))
            self.bases.append(n)
            t = n
        names.add(n.lower())
        if g.p(30):
            t = "*" + t
        style = g.r.randrange(3)
        if style == 0:
            return n, "\t%s\n" % t
        if style == 1:
            return n, '\t%s `json:",inline"`\n' % t
        return n, '\t%s `json:"%s"`\n' % (t, g.word() + "Embedded")

    def grouped(self, parts):
        """some types are declared in groups: type ( A ...; B ... )"""
        g, out, i = self.g, [], 0
        pct = g.r.choice([0, 0, 30, 80])

        def single(x):
            return re.match(r"(//[^\n]*\n)?type [^\n]*\n((\t|})[^\n]*\n)*$", x)
        while i < len(parts):
            j = i
            while j < len(parts) and j < i + 4 and single(parts[j]) and g.p(pct):
                j += 1
            if j == i:
                out.append(parts[i])
                i += 1
                continue
            out += self.group(parts[i:j])
            i = j
        return out

    def group(self, parts):
        rows = []
        for x in parts:
            x = re.sub(r"(?m)^type ", "", x, count=1)
            rows.append("".join("\t" + l + "\n" for l in x.splitlines()))
        return ["type (\n" + "".join(rows) + ")\n"]

    def write(self, name, imports, parts):
        d = os.path.join(self.g.root, dirof(self.path))
        os.makedirs(d, exist_ok=True)
        if name in OTHER:
            names = [name, name] + OTHER[name]
            name = names[zlib.crc32(("%d %s" % (self.g.seed, self.path)).encode()) % len(names)]
        imp = ""
        if imports:
            rows = []
            for path, alias in sorted(imports.items()):
                plain = path.split("/")[-1] == alias or assumed(path) == alias and self.g.p(50)
                rows.append("\t%s%s\n" % ("" if plain else alias + " ", '"' + path + '"'))
            imp = "import (\n" + "".join(rows) + ")\n\n"
        with open(os.path.join(d, name), "w") as o:
            o.write("package %s\n\n%s%s" % (self.name, imp, "\n".join(self.grouped(parts) if self.name != "main" else parts)))


# names of files which look like tests, generated files or others the build leaves out
OTHER = {"types.go": ["latest.go", "test.go", "gotsrpc_types.go", "types_generated.go", "doc.go"],
         "service.go": ["contest.go", "gotsrpc.go", "service_impl.go", "gorpc_service.go"],
         "concrete.go": ["test_concrete.go", "a.b.go"]}


def assumed(path):
    """the name a package has if its path follows the conventions"""
    parts = path.split("/")
    if re.fullmatch(r"v\d+", parts[-1]) and len(parts) > 1:
        parts.pop()
    return re.match(r"\w*", re.sub(r"^go-", "", parts[-1])).group()


def dirof(path):
    """the directory of a package, relative to the main module's"""
    if path.startswith("gotsrpcsim/"):
        return path[len("gotsrpcsim/"):]
    m = max([m for m in MODULES if path.startswith(m[0] + "/")], key=lambda m: len(m[0]))
    return m[2] + path[len(m[0]):]


def modules(g, root):
    """go.mod as the generator sees it, and another one to build with, which
    finds what is in the (made up) module cache by replacing it"""
    p = os.path.join(root, "go.mod")
    text = open(p).read().rstrip("\n") + "\n"
    build = text
    mods = MODULES[:]
    g.r.shuffle(mods)
    for path, version, d, repl in mods:
        os.makedirs(os.path.join(root, d), exist_ok=True)
        with open(os.path.join(root, d, "go.mod"), "w") as o:
            o.write("module %s\n\ngo 1.23.0\n" % (path if "Fork" not in repl else "new.test/Fork"))
        text += "\nrequire %s %s\n" % (path, version)
        build += "\nrequire %s %s\n\nreplace %s => %s\n" % (path, version, path, os.path.join(root, d))
        if repl:
            text += "\nreplace %s => %s\n" % (path, repl.replace("@ROOT@", root))
    for name, x in (("go.mod", text), ("build.mod", build)):
        with open(os.path.join(root, name), "w") as o:
            o.write(x)


class Service:
    def __init__(self, key, name, kind):
        self.key, self.name, self.kind = key, name, kind
        self.methods = []  # (name, [(param, type)], [(result, type)], session, haserr)


def service(g, pkg, key, kind, deps, out, f, unions=()):
    """kind: iface | struct | both (TSRPC and GoRPC)"""
    gob = kind == "both"
    s = Service(key, pkg.ident(g.word(True) + g.r.choice(["Service", "API", "Store", "", "Desk"])), kind)
    used = {"pair", "bulk", "pulse", "census", s.name.lower()}
    entries = ["Pair", "Bulk", "Pulse"]
    for _ in range(g.few(3, 8, 25)):
        base = g.r.choice(VERBS) + (g.word(True) if g.p(70) else "")
        if g.p(20) and s.methods:
            base = s.methods[-1][0] + g.r.choice(["All", "s", "By" + g.word(True), "2"])
        if g.p(8):
            base = base + "_" + g.word()
        while base.lower() in used or base in ("Run",):
            base += g.word(True)
        used.add(base.lower())
        params, names = [], set(BAD)

        def pname():
            w = g.r.choice([g.word(), g.word() + g.word(True), g.r.choice("abdefghijklmnpqtuvxyz")])
            if g.p(12):
                w = g.r.choice(TAKEN)
                if w.lower() not in names:
                    names.add(w.lower())
                    return w
            while w.lower() in names or w in KEYWORDS:
                w += g.r.choice("abdxyz")
            names.add(w.lower())
            return w
        for _ in range(g.few(0, 4, 14) if g.p(60) else g.r.choice([1, 2, 6])):
            params.append((pname(), argtype(g, pkg, gob, deps)))
        results = [argtype(g, pkg, gob, deps) for _ in range(g.few(0, 4, 9) if g.p(40) else g.r.choice([1, 1, 2]))]
        haserr = not gob and g.p(30)
        for l in (params, results):
            if unions and g.p(30) and not (haserr and l is params):
                u = g.r.choice(unions)
                u = g.r.choice([u, u, ("slice", u), ("map", ("prim", "string"), u), ("slice", ("ptr", u))])
                l.insert(g.r.randrange(len(l) + 1), (pname(), u) if l is params else u)
        if haserr:
            results.insert(0 if g.p(12) else len(results), ("error",))
        named = g.p(50)
        res = [(pname() if named else "", t) for t in results]
        if res and base in ("Call", "Execution") and g.p(70):
            # called like variables of the generated servers
            own = {"Call": "stats", "Execution": "start"}[base]
            at = g.r.randrange(len(res))
            if not any(own == n for n, _ in params + res):
                res = [(pname() if i != at and not n else own if i == at else n, t) for i, (n, t) in enumerate(res)]
        s.methods.append((base, params, res, g.p(18), haserr))
    sigs, impls, calls, errs = [], [], [], []
    for base, params, res, sess, haserr in s.methods:
        (errs if haserr else calls).append(base)
        if haserr:
            calls.append(base)
        sigs.append((base, params, res, sess, True))
    S = ("prim", "string")
    sigs.append(("Pair", [("a", S), ("b", S)], [("x", S), ("y", S)] if g.p(50) else [("", S), ("", S)], g.p(15), True))
    sigs.append(("Bulk", [("list", ("slice", S))], [("", ("slice", S))], False, True))
    sigs.append(("Pulse", [], [("", S)], False, False))
    if g.p(60):
        calls.append("Census")
        sigs.append(("Census", [], [("", S)] + [("", argtype(g, pkg, gob, deps)) for _ in range(g.r.randrange(1, 4))], False, False))
    g.r.shuffle(sigs)
    calls += ["Pair", "Pair", "Bulk", "Pulse"]
    s.calls, s.errs, s.sigs = calls, errs, sigs
    s.uargs = [m[0] for m in sigs if any(isunion(t, unions) for _, t in m[1])]
    s.unions = [m[0] for m in sigs if any(isunion(t, unions) for _, t in m[1] + m[2])]
    if kind == "struct":
        out.append("type %s struct {\n\tRun func(w http.ResponseWriter, r *http.Request, method, id string, args ...any) []any\n}\n" % s.name)
        f["net/http"] = "http"
    else:
        rows = []
        for m in sigs:
            m = blanks(g, m)
            rows.append("\t%s%s %s\n" % (m[0], plist(pkg, m, f, g), rlist(pkg, m, f, g)))
        out.append("%stype %s interface {\n%s}\n" % ("// %s serves.\n" % s.name if g.p(50) else "", s.name, "".join(rows)))
    return s


def blanks(g, m):
    """a method of an interface does not have to name its parameters and results"""
    base, params, res, sess, hasid = m
    way = g.r.choice(["none"] * 8 + ["some", "unnamed"])
    if way == "unnamed":
        return (base, params, res, sess, None if hasid else False)
    if way == "some":
        params = [("_" if g.p(50) else n, t) for n, t in params]
        if res and res[0][0]:
            res = [("_" if g.p(40) else n, t) for n, t in res]
    return (base, params, res, sess, hasid)


KEYWORDS = {"do", "in", "if", "of", "as", "is", "go", "new", "var", "let", "int", "len", "cap", "map", "any", "try", "for", "out", "url"}


def argtype(g, pkg, gob, deps):
    while True:
        t = pkg.pick(g.r.choice([0, 1, 1, 2, 2, 3]), gob, "arg", deps)
        if bad_arg(t) or gob and t[0] == "any":
            continue
        return t


def isunion(t, unions):
    return t in unions or t[0] in ("slice", "ptr") and isunion(t[1], unions) or t[0] == "map" and isunion(t[2], unions)


def bad_arg(t):
    return t[0] in ("anon", "array")


def plist(pkg, m, f, g, names=True):
    base, params, res, sess, hasid = m
    parts = []
    if sess:
        f.setdefault("net/http", g.r.choice(["http", "http", "nethttp"]) if g else "http")
        parts.append("%s%s.ResponseWriter, %s*%s.Request" % ("" if hasid is None else "w ", f["net/http"], "" if hasid is None else "r ", f["net/http"]))
    if hasid is None:
        return "(" + ", ".join(parts + [rt(pkg, t, f) for _, t in [("id", ("prim", "string"))] + params]) + ")"
    items = ([("id", ("prim", "string"))] if hasid else []) + params
    i = 0
    while i < len(items):
        j = i
        while g is not None and j + 1 < len(items) and items[j + 1][1] == items[i][1] and g.p(60):
            j += 1
        parts.append(", ".join(n for n, _ in items[i:j + 1]) + " " + rt(pkg, items[i][1], f))
        i = j + 1
    return "(" + ", ".join(parts) + ")"


def rt(pkg, t, f):
    return "error" if t[0] == "error" else pkg.ref(t, f)


def rlist(pkg, m, f, g=None):
    res = m[2]
    if not res:
        return ""
    if res[0][0]:
        if g and g.p(50):  # a, b string
            rows, i = [], 0
            while i < len(res):
                j = i
                while j + 1 < len(res) and res[j + 1][1] == res[i][1]:
                    j += 1
                rows.append(", ".join(n for n, _ in res[i:j + 1]) + " " + rt(pkg, res[i][1], f))
                i = j + 1
            return "(" + ", ".join(rows) + ")"
        return "(" + ", ".join(n + " " + rt(pkg, t, f) for n, t in res) + ")"
    if len(res) == 1:
        return rt(pkg, res[0][1], f)
    return "(" + ", ".join(rt(pkg, t, f) for _, t in res) + ")"


def body(recv, pkg, m, f, run, as_, g=None):
    """an implementation which asks the simulator what to return"""
    base, params, res, sess, hasid = m
    call = run(base, "w, r" if sess else "nil, nil", "id" if hasid else '""', (["id"] if hasid else []) + [n for n, _ in params])
    m2 = (base, params, [("", t) for _, t in res], sess, hasid)
    src = "func %s %s%s %s {\n" % (recv, base, plist(pkg, m2, f, None), rlist(pkg, m if g else m2, f, g))
    if not res:
        return src + "\t%s\n}\n" % call
    src += "\to := %s\n\treturn %s\n}\n" % (call, ", ".join("%s[%s](o[%d])" % (as_, rt(pkg, t, f), i) for i, (_, t) in enumerate(res)))
    return src


def defs(worker, s, wf, ctx):
    """the methods a client has to have"""
    rows = []
    for base, params, res, sess, hasid in s.sigs:
        ins = (["context.Context"] if ctx else []) + (["string"] if hasid else []) + [rt(worker, t, wf) for _, t in params]
        outs = [rt(worker, t, wf) for _, t in res] + ["error"]
        rows.append("\t\t\t%s: reflect.TypeFor[func(%s) (%s)](),\n" % (q5(base), ", ".join(ins), ", ".join(outs)))
    return "map[string]reflect.Type{\n%s\t\t}" % "".join(rows)


def keys(g, path):
    pkg = Pkg(g, path, path.split("/")[-1])
    out = []
    for i in range(g.r.randrange(1, 4)):
        n = pkg.ident(g.word(True))
        k = g.r.choice(["string", "string", "int"])
        out.append("type %s %s\n" % (n, k))
        if g.p(60):
            out.append("const (\n%s)\n" % "".join("\t%s%s %s = %s\n" % (n, w.capitalize(), n, '"%s"' % w if k == "string" else j) for j, w in enumerate(g.r.sample([w for w in g.words if w.isascii()], 2))))
        pkg.keys.append(n)
    pkg.write("codes.go", {}, out)
    return pkg


def main():
    seed, root = int(sys.argv[1]), sys.argv[2]
    base = os.path.join(root, "svc", "rnd")
    for d in (base, os.path.join(root, "mods"), os.path.join(root, "gopath")):
        if os.path.isdir(d):
            shutil.rmtree(d)
    g = Gen(seed, root)
    modules(g, root)

    def home(gi, rest):
        """where a package of types is: here, or in another module"""
        m = g.r.choice(MODULES)[0] if g.p(40) else ROOT
        again = (m.split("/svc/")[0] + "/") if g.p(10) else ""  # the module's path may be part of the package's
        return "%s/g%d/%s%s" % (m, gi, again, rest)
    dirs = {}
    rtp = Pkg(g, ROOT + "/rt", "rt")
    rtp.write("rt.go", {}, ["// As is x, or nothing.\nfunc As[T any](x any) (t T) {\n\tif x == nil {\n\t\treturn\n\t}\n\treturn x.(T)\n}\n"])
    worker = Pkg(g, "gotsrpcsim/worker", "main")
    wf = {"net/http": "http", "reflect": "reflect", "github.com/foomo/gotsrpc/v2": "gotsrpc", "github.com/valyala/gorpc": "gorpc"}
    wparts, regs = [], []
    targets, mappings = [], []
    older = []
    for gi in range(int(sys.argv[3]) if len(sys.argv) > 3 else 3):
        name = g.r.choice(["model", "types", "vo", "data", "api"])
        g.words = g.r.sample(WORDS, g.r.choice([40, 60, len(WORDS)]))  # packages share names
        a = Pkg(g, home(gi, "left/%s" % g.r.choice([name, name, name, "go-" + name, name + "/v2", name + ".x"])), name)
        b = home(gi, "right/%s" % g.r.choice([name, name, name, "go-" + name, name + "/v2"]))
        if g.p(20):  # paths which differ in characters that no name may have
            b = a.path.replace("/left/", "/left%s" % g.r.choice("-_."))
        b = Pkg(g, b, name)
        gb = Pkg(g, "%s/g%d/wire" % (ROOT, gi), "wire")
        api = Pkg(g, "%s/g%d/%s" % (ROOT, gi, "api"), g.r.choice(["api", "api", "service"]))
        codes = [keys(g, home(gi, "codes"))] if g.p(50) else []  # these are keys of maps and nothing else
        a.fill(older + (codes if g.p(60) else []), False)
        b.fill([a] if g.p(60) else [], False)
        gm = Pkg(g, home(gi, g.r.choice(["shared/model", "left/wire", "common"])), "")
        gm.name = gm.path.split("/")[-1]
        gm.fill([], True)
        gb.fill([gm] if g.p(60) else [], True)
        ifile, cfile, parts, cparts = {}, {}, [], []
        deps = [a, b] + older + (codes if g.p(50) else [])
        api.fill(deps, False)
        un = api.unions(ifile, parts)
        for q in (a, b):
            if g.p(60):
                ufile, uparts = {}, []
                more = q.unions(ufile, uparts, [u for u in un if not u[2].endswith("Holder")])
                if more:
                    q.write("unions.go", ufile, uparts)
                    un = un + more
        sa = service(g, api, "rnd%da" % gi, "struct" if g.p(35) else "iface", deps, parts, ifile, un)
        bkind = "iface" if g.p(45) else "struct"
        if bkind == sa.kind == "iface" and g.p(75):  # side by side
            sb = service(g, api, "rnd%db" % gi, bkind, deps, parts, ifile, un)
            if g.p(60):
                parts[-2:] = api.group(parts[-2:])
        else:
            sb = service(g, api, "rnd%db" % gi, bkind, deps, cparts, cfile, un)
        # what GoRPC carries lives in a package of its own
        gdeps = [gm]
        wfile, gparts = {}, []
        sc = service(g, gb, "rnd%dc" % gi, "both", gdeps, gparts, wfile)
        api.write("service.go", ifile, parts)
        gb.write("service.go", wfile, gparts)
        cfile[ROOT + "/rt"] = "rt"
        cparts.append("var _ = rt.As[int]\n")
        # the methods of a struct may be anywhere in the package
        mfile, mparts = {ROOT + "/rt": "rt"}, ["var _ = rt.As[bool]\n"]
        for s in (sa, sb):
            if s.kind != "struct":
                continue
            cparts.append("func (s *%s) hidden(a chan int, b ...string) {}\n" % s.name)
            mparts.append("type %sShadow struct{}\n\nfunc (s *%sShadow) %s(ch chan int) {}\n\nfunc %s() {}\n" % (s.name, s.name, s.sigs[0][0], "New" + s.name))
            for m in s.sigs:
                l, lf = (mparts, mfile) if g.p(30) else (cparts, cfile)
                l.append(body("(s *%s)" % s.name, api, m, lf, lambda n, wr, i, l: "s.Run(%s, %s)" % (wr, ", ".join(['"' + n + '"', i] + l)), "rt.As", g))
        if g.p(40):
            head, tail = cparts[:1], cparts[1:]
            g.r.shuffle(tail)
            cparts = head + tail
        api.write("concrete.go", cfile, cparts)
        if len(mparts) > 1:
            api.write(g.r.choice(["aa.go", "more.go", "zz.go"]), mfile, mparts)
        all5 = [a, b, api, gm, gb] + codes
        if g.p(50):  # no service has these, the configuration lists them
            more = Pkg(g, home(gi, "listed"), "listed")
            more.fill([a] if g.p(40) else [], False)
            all5.append(more)
        for q in all5:
            dirs[q.path] = os.path.join(root, dirof(q.path))
            mappings.append("  %s:\n    out: %s/ts/rnd-%s-vo.ts\n" % (q.path, root, q.path.replace(ROOT + "/", "").replace("/", "--")))
            for what, l in (("structs", q.structs + q.lists), ("scalars", q.scalars)):
                l = sorted(set(l))
                if l and g.p(70 if q.name == "listed" else 30):
                    l = g.r.sample(l, g.r.randrange(1, min(4, len(l) + 1)))
                    mappings.append("    %s: [%s]\n" % (what, ", ".join(q.path + "." + n for n in l)))
        targets.append("  rnd%d:\n    services:\n      /rpc/%s: %s\n      /rpc/%s: %s\n    package: %s\n    out: %s/ts/rnd%d-client.ts\n    tsrpc:\n      - %s\n      - %s\n" % (
            gi, sa.key, sa.name, sb.key, sb.name, api.path, root, gi, *(sorted([sa.name, sb.name]) if g.p(50) else [sb.name, sa.name])))
        targets.append("  rnd%dwire:\n    services:\n      /rpc/%s: %s\n    package: %s\n    out: %s/ts/rnd%dw-client.ts\n    gorpc:\n      - %s\n    tsrpc:\n      - %s\n" % (
            gi, sc.key, sc.name, gb.path, root, gi, sc.name, sc.name))
        for s, q in ((sa, api), (sb, api), (sc, gb)):
            al = worker.alias(q, wf)
            impl = "%sImpl" % s.key
            if s.kind != "struct":
                wparts.append("type %s struct{ s *server }\n\nvar _ %s.%s = (*%s)(nil)\n" % (impl, al, s.name, impl))
                for m in s.sigs:
                    wparts.append(body("(c *%s)" % impl, worker, m, wf, lambda n, wr, i, l: "c.s.exec(%s, %s)" % (wr, ", ".join(['"' + s.key + '"', '"' + n + '"', i] + l)), "as"))
                new = "&%s{s}" % impl
            else:
                new = ("&%s.%s{Run: func(w http.ResponseWriter, r *http.Request, method, id string, args ...any) []any {\n\t\t\treturn s.exec(w, r, \"%s\", method, id, args...)\n\t\t}}" % (al, s.name, s.key))
            if "context" not in wf:
                wf["context"] = "context"
            N = s.name
            T = "%s.HTTP%sGoTSRPCClient" % (al, N)
            h = "\t\tproxy: func(s *server, ep string) http.HandlerFunc {\n\t\t\timpl := %s\n\t\t\tif ep == \"\" {\n\t\t\t\treturn %s.NewDefault%sGoTSRPCProxy(impl).ServeHTTP\n\t\t\t}\n\t\t\treturn %s.New%sGoTSRPCProxy(impl, ep).ServeHTTP\n\t\t},\n" % (new, al, N, al, N)
            h += ("\t\tclient: func(url, ep string, h *http.Client) (reflect.Value, gotsrpc.Client) {\n\t\t\tvar x *%s\n\t\t\tswitch {\n\t\t\tcase ep == \"\" && h == nil:\n\t\t\t\tx = %s.NewDefault%sGoTSRPCClient(url)\n"
                  "\t\t\tcase ep == \"\":\n\t\t\t\tx = %s.New%sGoTSRPCClientWithClient(url, \"/rpc/%s\", h)\n\t\t\tcase h == nil:\n\t\t\t\tx = %s.New%sGoTSRPCClient(url, ep)\n\t\t\tdefault:\n\t\t\t\tx = %s.New%sGoTSRPCClientWithClient(url, ep, h)\n\t\t\t}\n"
                  "\t\t\treturn reflect.ValueOf(x), x.Client\n\t\t},\n") % (T, al, N, al, N, s.key, al, N, al, N)
            common = "\t\tsvc: %s, pkg: %s, title: %s,\n\t\tcalls: %s, errs: %s,\n\t\tunions: %s, unionArgs: %s,\n\t\tdefs: %s,\n" % (q5(s.key), q5(q.path), q5(N), qs(s.calls), qs(s.errs), qs(s.unions), qs(s.uargs), defs(worker, s, wf, True))
            regs.append("\taddRnd(&rndSvc{\n\t\tkey: %s, typ: reflect.TypeOf(&%s{}),\n%s%s\t})\n" % (q5(s.key), T, common, h))
            if s.kind == "both":
                gobs = ", ".join("%s.%s%sRequest{}, %s.%s%sResponse{}" % (al, N, m[0], al, N, m[0]) for m in s.sigs)
                common = "\t\tsvc: %s, pkg: %s, title: %s,\n\t\tcalls: %s,\n\t\tdefs: %s,\n" % (q5(s.key), q5(q.path), q5(N), qs(s.calls), defs(worker, s, wf, False))
                regs.append(("\taddRnd(&rndSvc{\n\t\tkey: %s, typ: reflect.TypeOf(&%s.%sGoRPCClient{}),\n%s\t\tserve: func(s *server) (rndServer, func(gotsrpc.GoRPCCallStatsHandlerFun)) {\n\t\t\tp := %s.New%sGoRPCProxy(s.cfg.Addr, &%s{s}, nil)\n\t\t\treturn p, p.SetCallStatsHandler\n\t\t},\n"
                             "\t\tdial: func(addr string) (reflect.Value, *gorpc.Client) {\n\t\t\tx := %s.New%sGoRPCClient(addr, nil)\n\t\t\treturn reflect.ValueOf(x), x.Client\n\t\t},\n\t\tgob: []any{%s},\n\t})\n") % (
                    q5("grpc-" + s.key), al, N, common, al, N, impl, al, N, gobs))
        older = [a] if g.p(50) else []
    if g.p(50):  # a target without TypeScript
        first = Pkg(g, ROOT + "/first", "first")
        first.write("service.go", {}, ["type First struct{}\n\nfunc (f *First) Ping(a string) (b string) { return a }\n"])
        targets.insert(0, "  %s:\n    services:\n      /first: First\n    package: %s\n    tsrpc:\n      - First\n" % (g.r.choice(["aa", "aa", "m"]), first.path))
    worker.write("rnd_gen.go", wf, ["func init() {\n%s}\n" % "".join(regs)] + wparts)
    p = os.path.join(root, "gotsrpc.yml")
    y = open(p).read()
    if y.count("\nmappings:\n") != 1:
        sys.exit("mappings anchor")
    y = y.replace("\nmappings:\n", "".join(targets) + "\nmappings:\n") + "".join(mappings)
    with open(p, "w") as o:
        o.write(y)
    with open(os.path.join(root, "pkgdirs.json"), "w") as o:
        json.dump(dirs, o)


def q5(s):
    return '"' + s + '"'


def qs(l):
    return "[]string{" + ", ".join(q5(x) for x in l) + "}"


main()
