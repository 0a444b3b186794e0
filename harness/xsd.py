"""A small XML Schema engine for the SICD and SIDD standards: validates documents, samples random valid ones and gives leaf values their
schema type so that two documents can be compared by value.  Covers the constructs those schemas use."""
import dataclasses
import decimal
import enum
import math
import os
import re
import xml.etree.ElementTree as ET

XS = "{http://www.w3.org/2001/XMLSchema}"
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "schemas")
FILES = {"sicd121": ("sicd/SICD_schema_V1.2.1_2018_12_13.xsd", "urn:SICD:1.2.1", "SICD"),
         "sicd130": ("sicd/SICD_schema_V1.3.0_2021_11_30_FINAL.xsd", "urn:SICD:1.3.0", "SICD"),
         "sidd100": ("sidd/SIDD_schema_V1.0.0_2011_08_31.xsd", "urn:SIDD:1.0.0", "SIDD"),
         "sidd200": ("sidd/SIDD_schema_V2.0.0_2019_05_31.xsd", "urn:SIDD:2.0.0", "SIDD"),
         "sidd300": ("sidd/SIDD_schema_V3.0.0.xsd", "urn:SIDD:3.0.0", "SIDD")}
INTS = {"int", "integer", "positiveInteger", "nonNegativeInteger", "long", "unsignedInt", "short"}
FLOATS = {"double", "float", "decimal"}


class Simple:
    """kind: base builtin name; enum: allowed texts; pattern; lo/hi; item (list); members (union)"""

    def __init__(self, kind, enum=None, patterns=None, lo=None, hi=None, item=None, members=None, xlo=False, xhi=False):
        self.kind, self.enum, self.patterns, self.lo, self.hi, self.item, self.members = kind, enum, patterns or [], lo, hi, item, members
        self.xlo, self.xhi = xlo, xhi

    def unknown(self):
        return self.kind == "unknown" or self.item is not None and self.item.unknown() or self.members is not None and any(m.unknown() for m in self.members)

    def canon(self, text):
        t = text or ""
        if self.item is not None:
            return ["list"] + [self.item.canon(x) for x in t.split()]
        if self.members is not None:
            return " ".join(t.split())
        k = self.kind
        if k not in ("string", "normalizedString"):
            t = " ".join(t.split())
        try:
            if k in FLOATS:
                v = float(t.replace("INF", "inf"))
                return "nan" if math.isnan(v) else repr(v + 0.0)
            if k in INTS:
                return str(int(t))
            if k == "boolean":
                return {"true": "1", "1": "1", "false": "0", "0": "0"}[t]
            if k == "dateTime":
                m = re.fullmatch(r"(-?\d+-\d\d-\d\dT\d\d:\d\d:\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d)?", t)
                z = m.group(3) or ""
                return m.group(1) + "." + (m.group(2) or "").rstrip("0") + ("Z" if z in ("+00:00", "-00:00") else z)
        except (ValueError, KeyError, AttributeError):
            return "!" + t
        return t

    def ok(self, text):
        t = text or ""
        if self.item is not None:
            return all(self.item.ok(x) for x in t.split())
        if self.members is not None:
            return any(m.ok(t) for m in self.members)
        if self.kind not in ("string", "normalizedString"):
            t = " ".join(t.split())
        c = self.canon(t)
        if isinstance(c, str) and c.startswith("!") and self.kind not in ("string", "normalizedString"):
            return False
        if self.kind == "date" and not re.fullmatch(r"-?\d{4,}-\d\d-\d\d(Z|[+-]\d\d:\d\d)?", t):
            return False
        if self.kind in ("NMTOKEN", "NCName", "ID", "Name") and not re.fullmatch(r"[\w.:\-]+", t):
            return False
        if self.enum is not None and t not in self.enum:
            return False
        if self.patterns and not any(re.fullmatch(p, t) for p in self.patterns):
            return False
        if self.kind in FLOATS or self.kind in INTS:
            v = float(t)
            if self.kind == "positiveInteger" and v < 1 or self.kind in ("nonNegativeInteger", "unsignedInt") and v < 0:
                return False
            if self.lo is not None and (v < self.lo or self.xlo and v == self.lo) or self.hi is not None and (v > self.hi or self.xhi and v == self.hi):
                return False
        return True

    def sample(self, rng):
        for _ in range(20):
            t = self._sample(rng)
            if self.ok(t):
                return t
        raise KeyError("no sample of " + self.kind)

    def _sample(self, rng):
        if self.item is not None:
            t = " ".join(dict.fromkeys(self.item.sample(rng) for _ in range(int(rng.integers(1, 3)))))
            return t if t.split() else "x1"      # a list has items
        if self.members is not None:
            return self.members[int(rng.integers(0, len(self.members)))].sample(rng)
        if self.enum is not None:
            return self.enum[int(rng.integers(0, len(self.enum)))]
        if self.patterns:
            for c in rng.permutation(["V", "H", "RHC", "OTHER", "OTHER x", "UNKNOWN", "V:H", "OTHER1:OTHER2", "1,2,3", "17,0,255", "NATO/a", "KDK-BLFH-A1", "RSV-ABC", "SI-ABC", "RD-SG-14", "ACCM-X1",
                                    "NNPI", "SI-G-ABCD", "SI-ECI-ABC", "SAR-ABC", "BUR-AB", "BUR-ABC", "HCS-X", "TK-ABCD", "2021-03-04", "2021-03-04T05:06:07Z", "FVEY", "USA", "A", "2020", "abc123", "1.0"]):
                if self.ok(str(c)):
                    return str(c)
            raise KeyError("no sample for %r" % self.patterns)
        k = self.kind
        if k in FLOATS:
            lo = self.lo if self.lo is not None else -1e6
            hi = self.hi if self.hi is not None else 1e6
            r = int(rng.integers(0, 8))
            if r == 0 and not (self.xlo or self.xhi):
                return repr(float([lo, hi][int(rng.integers(0, 2))]))
            if r == 1 and self.lo is None:
                return ["1e-300", "-2.2250738585072014E-308", "1.7976931348623157e308", "0.1", "-0.0", "123456789012345678", "3", "+7.50"][int(rng.integers(0, 8))]
            return "%.*g" % (int(rng.integers(1, 18)), float(lo + (hi - lo) * rng.random() * 0.999 + (hi - lo) * 0.0005))
        if k in INTS:
            lo = int(self.lo if self.lo is not None else {"positiveInteger": 1, "nonNegativeInteger": 0, "unsignedInt": 0}.get(k, -1000))
            hi = int(self.hi if self.hi is not None else 100000)
            return str(int(rng.integers(lo, hi + 1)))
        if k == "boolean":
            return ["true", "false", "1", "0"][int(rng.integers(0, 4))]
        if k == "dateTime":
            return "20%02d-%02d-%02dT%02d:%02d:%02d%s%s" % (*(int(rng.integers(a, b)) for a, b in ((0, 99), (1, 13), (1, 29), (0, 24), (0, 60), (0, 60))),
                                                           ["", ".5", ".123456", ".000000", ".120"][int(rng.integers(0, 5))], ["Z", "", "+01:00"][int(rng.integers(0, 3))])
        if k == "date":
            return "2021-%02d-%02d" % (int(rng.integers(1, 13)), int(rng.integers(1, 29)))
        if k in ("NMTOKEN", "NCName", "ID", "Name", "anyURI"):
            return "tok%d" % int(rng.integers(0, 999))
        words = ["alpha", "SICD", "<SIDD>", "a & b", "\"q\" 'r'", "back\\slash", "h\u00e9llo", "\u4e2d\u6587", "x:y", "0012", "1.50", "1E5", "true", "]]>", "  ", "\n\t", "\u00a0", "\U0001f6f0", "'"]
        if int(rng.integers(0, 20)) == 0:
            return ""
        return " ".join(words[int(rng.integers(0, len(words)))] for _ in range(int(rng.integers(1, 4))))


class Complex:
    def __init__(self):
        self.attrs, self.particle, self.simple, self.abstract = {}, None, None, False

    def elements(self):
        out = {}

        def walk(p):
            if p is None:
                return
            if p[0] == "el":
                out[p[3]] = p[4]
            else:
                for c in p[3]:
                    walk(c)
        walk(self.particle)
        return out


class Schema:
    def __init__(self, name):
        path, self.ns, self.root = FILES[name]
        self.name, self.docs, self.comp, self.cache, self.forms = name, {}, {}, {}, {}
        self._load(os.path.join(ROOT, path))
        self.root_type = self.element_type(self.comp[("element", "{%s}%s" % (self.ns, self.root))])

    # -- loading
    def _load(self, path, chameleon=""):
        path = os.path.normpath(path)
        if path in self.docs:
            return
        nsmap = {}
        for ev, x in ET.iterparse(path, events=("start-ns", "start")):
            if ev == "start":
                break
            nsmap[x[0]] = x[1]
        root = ET.parse(path).getroot()
        tns = root.get("targetNamespace", chameleon)
        if not root.get("targetNamespace"):
            nsmap.setdefault("", tns)
        self.docs[path] = (root, nsmap, tns)
        self.forms[tns] = root.get("attributeFormDefault", "unqualified")
        for c in root:
            if c.tag in (XS + "import", XS + "include"):
                loc = c.get("schemaLocation")
                if loc and os.path.exists(os.path.join(os.path.dirname(path), loc)):
                    self._load(os.path.join(os.path.dirname(path), loc), tns if c.tag == XS + "include" else "")
            elif c.get("name"):
                kind = c.tag[len(XS):]
                if kind in ("complexType", "simpleType"):
                    kind = "type"
                self.comp[(kind, "{%s}%s" % (tns, c.get("name")))] = (c, nsmap, tns)

    def qn(self, name, ctx):
        if ":" in name:
            p, n = name.split(":", 1)
            return "{%s}%s" % (ctx[1][p], n)
        return "{%s}%s" % (ctx[1].get("", ""), name)

    # -- types
    def type_named(self, qname):
        if qname.startswith(XS):
            return Simple(qname[len(XS):])
        if qname not in self.cache:
            ctx = self.comp.get(("type", qname))
            if ctx is None:            # declared in a part of the standards that does not come with the repository
                return Simple("unknown")
            if ctx[0].tag == XS + "simpleType":
                self.cache[qname] = self.simple(ctx)
            else:
                t = self.cache[qname] = Complex()
                self.fill(t, ctx)
        return self.cache[qname]

    def element_type(self, ctx):
        e = ctx[0]
        if e.get("type"):
            return self.type_named(self.qn(e.get("type"), ctx))
        for c in e:
            if c.tag == XS + "complexType":
                key = ("anon", id(c))
                if key not in self.cache:
                    t = self.cache[key] = Complex()
                    self.fill(t, (c, ctx[1], ctx[2]))
                return self.cache[key]
            if c.tag == XS + "simpleType":
                return self.simple((c, ctx[1], ctx[2]))
        return Simple("string")

    def simple(self, ctx):
        for c in ctx[0]:
            sub = (c, ctx[1], ctx[2])
            if c.tag == XS + "restriction":
                return self.restrict(sub)
            if c.tag == XS + "list":
                it = c.get("itemType")
                return Simple("list", item=self.type_named(self.qn(it, ctx)) if it else self.simple((c.find(XS + "simpleType"), ctx[1], ctx[2])))
            if c.tag == XS + "union":
                ms = [self.type_named(self.qn(m, ctx)) for m in (c.get("memberTypes") or "").split()]
                ms += [self.simple((m, ctx[1], ctx[2])) for m in c.findall(XS + "simpleType")]
                return Simple("union", members=ms)
        raise KeyError("simple type")

    def restrict(self, ctx):
        e = ctx[0]
        base = self.type_named(self.qn(e.get("base"), ctx)) if e.get("base") else self.simple((e.find(XS + "simpleType"), ctx[1], ctx[2]))
        if isinstance(base, Complex):
            base = base.simple
        s = Simple(base.kind, base.enum, list(base.patterns), base.lo, base.hi, base.item, base.members, base.xlo, base.xhi)
        en = [c.get("value") for c in e.findall(XS + "enumeration")]
        if en:
            s.enum = en
        pt = [c.get("value") for c in e.findall(XS + "pattern")]
        if pt:
            s.patterns = pt
        for tag, f, x, ex in (("minInclusive", "lo", "xlo", False), ("maxInclusive", "hi", "xhi", False), ("minExclusive", "lo", "xlo", True), ("maxExclusive", "hi", "xhi", True)):
            for c in e.findall(XS + tag):
                setattr(s, f, float(c.get("value")))
                setattr(s, x, ex)
        return s

    def attributes(self, t, ctx):
        for c in ctx[0]:
            sub = (c, ctx[1], ctx[2])
            if c.tag == XS + "attribute":
                if c.get("ref"):
                    name = self.qn(c.get("ref"), ctx)
                    d = self.comp[("attribute", name)]
                else:
                    form = c.get("form", self.forms.get(ctx[2], "unqualified"))
                    name, d = ("{%s}%s" % (ctx[2], c.get("name")) if form == "qualified" else c.get("name")), sub
                typ = self.element_type(d)
                t.attrs[name] = (typ, c.get("use") == "required", c.get("fixed") or d[0].get("fixed"), c.get("default") or d[0].get("default"))
                if c.get("use") == "prohibited":
                    t.attrs.pop(name)
            elif c.tag == XS + "attributeGroup":
                self.attributes(t, self.comp[("attributeGroup", self.qn(c.get("ref"), ctx))])

    def fill(self, t, ctx):
        t.abstract = ctx[0].get("abstract") == "true"
        for c in ctx[0]:
            sub = (c, ctx[1], ctx[2])
            if c.tag in (XS + "sequence", XS + "choice", XS + "all"):
                t.particle = self.particle(sub)
            elif c.tag == XS + "simpleContent":
                d = (c[0] if c[0].tag != XS + "annotation" else c[1], ctx[1], ctx[2])
                if d[0].tag == XS + "restriction":
                    base = self.type_named(self.qn(d[0].get("base"), d))
                    t.simple = self.restrict(d)
                    if isinstance(base, Complex):
                        t.attrs.update(base.attrs)
                else:
                    base = self.type_named(self.qn(d[0].get("base"), d))
                    t.simple = base.simple if isinstance(base, Complex) else base
                    if isinstance(base, Complex):
                        t.attrs.update(base.attrs)
                self.attributes(t, d)
            elif c.tag == XS + "complexContent":
                d = (c[0] if c[0].tag != XS + "annotation" else c[1], ctx[1], ctx[2])
                base = self.type_named(self.qn(d[0].get("base"), d))
                t.attrs.update(base.attrs)
                own = None
                for x in d[0]:
                    if x.tag in (XS + "sequence", XS + "choice", XS + "all"):
                        own = self.particle((x, ctx[1], ctx[2]))
                if d[0].tag == XS + "extension":
                    ps = [p for p in (base.particle, own) if p is not None]
                    t.particle = ("sequence", 1, 1, ps) if ps else None
                else:
                    t.particle = own
                self.attributes(t, d)
        self.attributes(t, ctx)

    def particle(self, ctx):
        e = ctx[0]
        mn, mx = int(e.get("minOccurs", "1")), e.get("maxOccurs", "1")
        mx = 10 ** 6 if mx == "unbounded" else int(mx)
        if e.tag == XS + "element":
            if e.get("ref"):
                name = self.qn(e.get("ref"), ctx)
                return ("el", mn, mx, name, ("ref", self.comp[("element", name)]))
            return ("el", mn, mx, "{%s}%s" % (ctx[2], e.get("name")), ("ref", ctx))
        return (e.tag[len(XS):], mn, mx, [self.particle((c, ctx[1], ctx[2])) for c in e if c.tag in (XS + "element", XS + "sequence", XS + "choice", XS + "all")])

    # -- validation
    def match(self, p, tags, i):
        """Positions reachable after matching particle p from i."""
        def once(j):
            if p[0] == "el":
                return {j + 1} if j < len(tags) and tags[j] == p[3] else set()
            if p[0] == "choice":
                out = set()
                for c in p[3]:
                    out |= self.match(c, tags, j)
                return out
            if p[0] == "all":
                names = [c[3] for c in p[3]]
                k, seen = j, set()
                while k < len(tags) and tags[k] in names and tags[k] not in seen:
                    seen.add(tags[k])
                    k += 1
                return {k} if all(c[3] in seen for c in p[3] if c[1] > 0) else set()
            cur = {j}
            for c in p[3]:
                cur = set().union(*[self.match(c, tags, k) for k in cur]) if cur else set()
            return cur
        cur, done = {i}, ({i} if p[1] == 0 else set())
        n = 0
        while cur and n < p[2]:
            nxt = set()
            for k in cur:
                nxt |= once(k)
            n += 1
            nxt -= done if n > p[1] else set()
            if n >= p[1]:
                done |= nxt
            if nxt <= cur and n > p[1]:
                break
            cur = nxt
        return done

    def errors(self, text):
        out = []
        root = ET.fromstring(text)
        if root.tag != "{%s}%s" % (self.ns, self.root):
            return ["root " + root.tag]
        self._errors(root, self.root_type, "", out)
        return out

    def _errors(self, e, t, path, out):
        here = path + "/" + e.tag.split("}")[-1]
        if isinstance(t, Simple):
            if len(e):
                out.append(here + ": children")
            elif not t.ok(e.text):
                out.append(here + ": value")
            return
        for a, v in e.attrib.items():
            if a.startswith("{http://www.w3.org/2001/XMLSchema-instance}"):
                continue
            if a not in t.attrs:
                out.append(here + ": attribute " + a)
            elif not t.attrs[a][0].ok(v) or t.attrs[a][2] is not None and t.attrs[a][0].canon(v) != t.attrs[a][0].canon(t.attrs[a][2]):
                out.append(here + ": value of attribute " + a)
        for a, d in t.attrs.items():
            if d[1] and a not in e.attrib:
                out.append(here + ": missing attribute " + a)
        if t.simple is not None:
            if not t.simple.ok(e.text):
                out.append(here + ": value")
            return
        tags = [c.tag for c in e]
        if t.particle is None:
            if tags:
                out.append(here + ": children")
        elif len(tags) not in self.match(t.particle, tags, 0):
            out.append(here + ": content " + " ".join(x.split("}")[-1] for x in tags)[:120])
        els = t.elements()
        for c in e:
            if c.tag in els:
                self._errors(c, self.element_type(els[c.tag][1]), here, out)

    # -- comparison
    def leaves(self, text):
        """[(path, canonical content)] of every element, in document order."""
        out = []
        root = ET.fromstring(text)
        self._leaves(root, self.root_type, (), out)
        return out

    def _leaves(self, e, t, path, out):
        at = {}
        if isinstance(t, Complex):
            for a, d in t.attrs.items():
                v = e.attrib.get(a, d[2] if d[2] is not None else d[3])
                if v is not None:
                    at[a] = d[0].canon(v)
        for a, v in e.attrib.items():
            at.setdefault(a, v)
        s = t if isinstance(t, Simple) else t.simple if isinstance(t, Complex) else None
        out.append((path, (e.tag, s.canon(e.text) if s is not None and not len(e) else (e.text or "").strip(), tuple(sorted((k, str(v)) for k, v in at.items())))))
        els = t.elements() if isinstance(t, Complex) else {}
        n = {}
        for c in e:
            n[c.tag] = n.get(c.tag, 0) + 1
            ct = self.element_type(els[c.tag][1]) if c.tag in els else Simple("string")
            self._leaves(c, ct, path + ("%s[%d]" % (c.tag.split("}")[-1], n[c.tag]),), out)

    # -- values as read by someone else
    def misread(self, text, obj):
        """Numbers, truth values and enumerated values of the document that the object read from it (dataclasses with the names of
        elements and attributes in the metadata of their fields) does not have as such."""
        out = []
        self._misread(ET.fromstring(text), self.root_type, obj, "", out)
        return out

    @staticmethod
    def _same(s, text, v):
        if s is None or s.item is not None or s.members is not None or s.unknown():
            return True
        t = " ".join((text or "").split())
        if s.enum is not None and not isinstance(v, enum.Enum) and len(s.enum) > 1:
            return False
        v = v.value if isinstance(v, enum.Enum) else v
        if s.kind in FLOATS:
            return isinstance(v, (float, decimal.Decimal)) and s.canon(repr(float(v)).replace("inf", "INF")) == s.canon(t)
        if s.kind in INTS:
            return isinstance(v, int) and not isinstance(v, bool) and v == int(t)
        if s.kind == "boolean":
            return v is (t in ("true", "1"))
        if s.enum is not None:
            return v == t
        return True

    def _misread(self, e, t, obj, path, out):
        here = path + "/" + e.tag.split("}")[-1]
        if not dataclasses.is_dataclass(obj):
            s = t if isinstance(t, Simple) else t.simple
            if not self._same(s, e.text, obj):
                out.append(here)
            return
        fields = {}
        for f in dataclasses.fields(obj):
            fields.setdefault((f.metadata.get("type", "Text"), f.metadata.get("name", f.name)), f.name)
        s = t if isinstance(t, Simple) else t.simple
        if s is not None:
            k = fields.get(("Text", "value"))
            if k is None or not self._same(s, e.text, getattr(obj, k)):
                out.append(here)
        if isinstance(t, Simple):
            return
        for a, v in e.attrib.items():
            k = fields.get(("Attribute", a.split("}")[-1]))
            if k is not None and a in t.attrs and not self._same(t.attrs[a][0], v, getattr(obj, k)):
                out.append(here + "@" + a.split("}")[-1])
        els, n = t.elements(), {}
        for c in e:
            name = c.tag.split("}")[-1]
            k = fields.get(("Element", name))
            if k is None or c.tag not in els:
                continue
            n[name] = n.get(name, 0) + 1
            v = getattr(obj, k)
            if isinstance(v, list):
                if len(v) < n[name]:
                    out.append(here + "/" + name)
                    continue
                v = v[n[name] - 1]
            if isinstance(v, type(None)):
                out.append(here + "/" + name)
            else:
                self._misread(c, self.element_type(els[c.tag][1]), v, here, out)

    # -- sampling
    def sample(self, rng, p=0.6, many=3, force=()):
        root = ET.Element("{%s}%s" % (self.ns, self.root))
        self._sample(root, self.root_type, rng, p, many, 0, force, ())
        return root

    def _sample(self, e, t, rng, p, many, depth, force, path):
        if isinstance(t, Simple):
            e.text = t.sample(rng)
            return
        for a, (typ, req, fixed, default) in t.attrs.items():
            if isinstance(typ, Simple) and typ.unknown():
                continue
            if req or rng.random() < p * 0.5:
                e.set(a, fixed if fixed is not None else typ.sample(rng))
        if t.simple is not None:
            e.text = t.simple.sample(rng)
        elif t.particle is not None:
            self._particle(e, t.particle, rng, p, many, depth, force, path)

    def _particle(self, e, pt, rng, p, many, depth, force, path):
        lo, hi = pt[1], pt[2]
        name = pt[3].split("}")[-1] if pt[0] == "el" else None
        forced = name is not None and path + (name,) in force
        if pt[0] == "el" and self._abstract(pt):
            if lo == 0:
                return
            raise KeyError("abstract " + pt[3])
        n = lo
        if n == 0 and (forced or rng.random() < (p if depth < 9 else 0)):
            n = 1
        if forced and force[path + (name,)] == 0:
            n = lo
        if n and hi > n and rng.random() < 0.5:
            n = min(hi, n + int(rng.integers(0, many)))
        for _ in range(n):
            if pt[0] == "el":
                c = ET.SubElement(e, pt[3])
                self._sample(c, self.element_type(pt[4][1]), rng, p, many, depth + 1, force, path + (name,))
            elif pt[0] == "choice":
                cs = [c for c in pt[3] if not (c[0] == "el" and self._abstract(c))]
                want = [c for c in cs if c[0] == "el" and path + (c[3].split("}")[-1],) in force]
                c = want[0] if want else cs[int(rng.integers(0, len(cs)))]
                self._particle(e, c, rng, p, many, depth, force, path)
            else:
                for c in pt[3]:
                    self._particle(e, c, rng, p, many, depth, force, path)

    def _abstract(self, pt):
        t = self.element_type(pt[4][1])
        return isinstance(t, Complex) and t.abstract
