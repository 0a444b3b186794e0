"""C25: NITF data extension segments."""
import base64
import hashlib
import xml.etree.ElementTree as ET

FIELDS = [("DESVER", 2), ("DECLAS", 1), ("DESCLSY", 2), ("DESCODE", 11), ("DESCTLH", 2), ("DESREL", 20), ("DESDCTP", 2), ("DESDCDT", 8),
          ("DESDCXM", 4), ("DESDG", 1), ("DESDGDT", 8), ("DESCLTX", 43), ("DESCATP", 1), ("DESCAUT", 40), ("DESCRSN", 1), ("DESSRDT", 8), ("DESCTLN", 15)]
ALPH = "ABCXYZabcxyz0189 .-_/:&<>'\"\\ "


def text(rng, w):
    r = int(rng.integers(0, 4))
    if r == 0:
        return ""
    n = w if r == 1 else int(rng.integers(1, w + 1))
    return "".join(ALPH[int(i)] for i in rng.integers(0, len(ALPH), n)).rstrip()


class Seg:
    def __init__(self, rng, kind, tag, k):
        self.id, self.tag = kind["id"], tag
        self.v = [text(rng, w) for _, w in FIELDS]
        self.v[0] = "%02d" % int(rng.integers(1, 100))
        self.v[1] = "URCST"[int(rng.integers(0, 5))]
        shl = {"none": 0, "padded": int(rng.integers(12, 300)), "full": 773}[kind["sub"]]
        if kind["sub"] == "padded" and k % 5 == 4:
            shl = int(rng.integers(774, 3000))
        if kind["payload"] == "empty":
            shl = max(shl, 12)   # GDAL does not read files that end earlier than that, nor the data after subheaders shorter than 9
        if kind["sub"] == "full":
            parts = [("%05d" % int(rng.integers(0, 99999)), 5), ("XML", 8), ("2020-01-01T00:00:00Z", 20), (text(rng, 40), 40), ("SICD Volume 1 Design", 60),
                     ("1.2.1", 10), ("2018-12-13T00:00:00Z", 20), ("urn:SICD:1.2.1", 120), (text(rng, 125), 125), (text(rng, 25), 25), (text(rng, 20), 20),
                     (text(rng, 120), 120), (text(rng, 200) if k % 2 else "", 200)]
            self.sub = "".join(a.ljust(n) for a, n in parts)
        else:
            self.sub = text(rng, shl).ljust(shl) if shl else ""
        self.shl = shl
        p = kind["payload"]
        self.kind = p
        body = '<SICD xmlns="urn:SICD:1.2.1" id="%s"><A x="1 &amp; 2">h&#233;llo \u00e9\u4e2d &lt; \\ "q"</A>\n <B><des name="OTHER"/></B><!-- c --></SICD>' % tag
        self.payload = {"xml": body, "prolog": '<?xml version="1.0" encoding="UTF-8"?>\n' + body, "text": "not xml \\ \"x\" & < " + "line\n" * int(rng.integers(1, 2000)),
                        "binary": "", "empty": ""}[p].encode()
        if p == "binary":
            self.payload = bytes([int(b) for b in rng.integers(0, 256, int(rng.integers(1, 400)))]) + b"\xff\xfe\x00"
        if p in ("text", "binary"):
            self.payload = ("%s;" % tag).encode() + self.payload
        # empty payloads carry the tag in the header
        self.v[16] = tag

    def header(self):
        return "".join(v.ljust(w) for v, (_, w) in zip(self.v, FIELDS)) + "%04d" % self.shl + self.sub

    def model(self):
        dig = digest(self.payload.decode() if self.kind not in ("binary", "empty") else None)
        return {"id": self.id, "tag": self.tag, "header": [list(v) for v in self.v], "sub": list(self.sub.rstrip()), "shl": self.shl, "hashdr": True,
                "payload": dig, "payload2": digest("") if self.kind == "empty" else dig}


def digest(s):
    return "none" if s is None else hashlib.sha1(s.encode("utf-8", "surrogateescape")).hexdigest()


def canon(s):
    return ET.canonicalize(s, strip_text=False, with_comments=False, rewrite_prefixes=True)


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"').replace("\0", "\\0")


def write(path, segs):
    """A NITF file with these segments; binary payloads are patched in afterwards."""
    from osgeo import gdal
    src = gdal.GetDriverByName("MEM").Create("", 4, 4, 1)
    opts, patch = [], []
    for i, s in enumerate(segs):
        p = s.payload
        if s.kind == "binary":
            mark = (b"@%03d" % i) * (len(p) // 4 + 1)
            mark = mark[:len(p)] if len(p) >= 4 else b"@" * len(p)
            patch.append((mark, p))
            p = mark
        opts.append("DES=%s=%s" % (s.id, esc(s.header() + p.decode())))
    ds = gdal.Translate(path, src, format="NITF", creationOptions=opts)
    del ds
    if patch:
        b = bytearray(open(path, "rb").read())
        for mark, p in patch:
            i = b.rfind(mark)
            assert i > 0
            b[i:i + len(mark)] = p
        open(path, "wb").write(bytes(b))


def lookup(ctx, acc, ids, info, canonical=False):
    from aws.osml.gdal import NITFDESAccessor
    for i in ids:
        try:
            segs = acc.get_segments_by_name(i)
            before = [ET.tostring(s) for s in segs]
            got = []
            for s in segs:
                tag = NITFDESAccessor.parse_field_value(s, "DESCTLN", str)
                h = NITFDESAccessor.extract_des_header(s)
                d = NITFDESAccessor.extract_desdata_xml(s)
                vals = True
                if tag in info:
                    vals = [NITFDESAccessor.parse_field_value(s, n, str) for n, _ in FIELDS] == info[tag].v and \
                        NITFDESAccessor.parse_field_value(s, "DESSHL", int) == info[tag].shl
                got.append({"tag": tag, "header": list(h), "payload": digest(canon(d) if canonical and d else d), "fields": vals})
            ctx.add("lookup", st="ok", id=i, got=got, same=before == [ET.tostring(s) for s in segs] and [ET.tostring(s) for s in acc.get_segments_by_name(i)] == before)
        except Exception as e:
            ctx.add("lookup", st=repr(e)[:300], id=i)


IDS = ["XML_DATA_CONTENT", "OTHER", "ABSENT", "XML_DATA", "xml_data_content"]


def drive(ctx):
    """Files written by GDAL, read by GDAL."""
    import os
    from osgeo import gdal
    from aws.osml.gdal import NITFDESAccessor
    gdal.UseExceptions()
    rng = ctx.rng(2500)
    path = os.path.join(ctx.work, "t.ntf")
    for k, b in enumerate(ctx.gen[::9] if ctx.thorough else ctx.gen):
        segs = [Seg(rng, s, "t%d-%d" % (k % 1000, i), k + i) for i, s in enumerate(b["file"])]
        write(path, segs)
        ds = gdal.Open(path)
        md = ds.GetMetadata("xml:DES")
        ctx.add("file", file=[s.model() for s in segs])
        info = {s.tag: s for s in segs}
        try:
            acc = NITFDESAccessor(md)
        except Exception as e:
            ctx.add("lookup", st=repr(e)[:300], id="")
            continue
        lookup(ctx, acc, IDS[: 3 if k % 7 else 5], info)
        ds = None
        # the encoded header, used for a new file with new data, gives the same header again
        if k % 3 == 0 and segs:
            try:
                el = [e for i in ("XML_DATA_CONTENT", "OTHER") for e in acc.get_segments_by_name(i)]
                copies = []
                for e in el:
                    s = next(x for x in segs if x.tag == NITFDESAccessor.parse_field_value(e, "DESCTLN", str))
                    c = Seg(rng, {"id": s.id, "sub": "none", "payload": "xml"}, s.tag, 0)
                    c.v, c.sub, c.shl = s.v, s.sub, s.shl
                    h = NITFDESAccessor.extract_des_header(e)
                    c.header = lambda h=h: h
                    copies.append(c)
                write(path, copies)
                ds = gdal.Open(path)
                ctx.add("file", file=[c.model() for c in copies])
                lookup(ctx, NITFDESAccessor(ds.GetMetadata("xml:DES")), IDS[:2], info)
                ds = None
            except Exception as e:
                ctx.add("lookup", st=repr(e)[:300], id="copy")
    os.remove(path)
    ev = ctx.rec.events
    i = next(i for i, e in enumerate(ev) if e["op"] == "lookup" and e["st"] == "ok" and len(e["got"]) == 1)
    j = max(x for x in range(i) if ev[x]["op"] == "file")
    g = ev[i]["got"][0]
    ctx.corrupt = [ev[j], dict(ev[i], got=[]), dict(ev[i], got=[dict(g, payload="x")]), dict(ev[i], got=[dict(g, header=[" "] + g["header"][:-1])])]
    ctx.corrupt_idx = [1, 2, 3]


def element(s, form):
    d = ET.Element("des", name=s.id)
    for v, (n, _) in zip(s.v, FIELDS):
        ET.SubElement(d, "field", name=n, value=v)
    ET.SubElement(d, "field", name="DESSHL", value="%04d" % s.shl)
    if s.shl:
        f = ET.SubElement(d, "field", name="DESSHF", value=s.sub.rstrip())
        if len(s.v[3]) % 2:
            u = ET.SubElement(f, "user_defined_fields")
            ET.SubElement(u, "field", name="DESVER", value="99")
            ET.SubElement(u, "field", name="DESDATA", value="bm8=")
    f = ET.SubElement(d, "field", name="DESDATA")
    body = None
    if form == "value":
        f.set("value", base64.b64encode(s.payload).decode())
    elif s.kind in ("xml", "prolog"):
        body = s.payload.decode()   # GDAL 3.9 and later expand the document in place
    elif s.kind != "empty":
        f.set("value", base64.b64encode(s.payload).decode())
    t = ET.tostring(d, "unicode")
    if body is not None:
        a, _, z = t.rpartition('<field name="DESDATA" />')
        t = a + '<field name="DESDATA"><xml_content>' + body + "</xml_content></field>" + z
    return t


def drive_xml(ctx):
    """Metadata documents in the forms of older and newer GDAL versions, several documents, damaged ones in between."""
    from aws.osml.gdal import NITFDESAccessor
    rng = ctx.rng(2501)
    bad = ["", "   ", "<des_list><des", "not xml", "<des_list/>", "<?xml version='1.0'?><des_list></des_list>"]
    for md in (None, [], {}, [""], ["<x/>"], bad):
        ctx.add("file", file=[])
        try:
            acc = NITFDESAccessor(md)
            lookup(ctx, acc, IDS[:3], {})
        except Exception as e:
            ctx.add("lookup", st=repr(e)[:300], id="")
    for k in range(ctx.n(150, 2500)):
        form = ["value", "expanded"][k % 2]
        n = int(rng.integers(0, 7))
        segs = [Seg(rng, {"id": ["XML_DATA_CONTENT", "OTHER", "CSATTA DES"][int(rng.integers(0, 3))], "sub": ["none", "padded", "full"][int(rng.integers(0, 3))],
                          "payload": ["xml", "prolog", "text", "binary", "empty"][int(rng.integers(0, 5))]}, "s%d" % i, k + i) for i in range(n)]
        eol = "\n"
        if k % 3 != 2 and k // 6 % 2:
            # everything in one line
            eol = ""
            for s in segs:
                if s.kind in ("xml", "prolog"):
                    s.payload = s.payload.replace(b"\n", b" ")
        docs, i = [], 0
        while i < n or not docs:
            c = int(rng.integers(1, 4))
            docs.append(["", '<?xml version="1.0" encoding="UTF-8"?>' + eol, "\n  "][k % 3] + "<des_list>" + eol + eol.join(element(s, form) for s in segs[i:i + c]) + eol + "</des_list>\n")
            i += c
            if not int(rng.integers(0, 3)):
                docs.append(bad[int(rng.integers(0, len(bad)))])
        ms = []
        for s in segs:
            m = s.model()
            if form == "expanded" and s.kind in ("xml", "prolog"):
                m["payload"] = m["payload2"] = digest(canon(s.payload.decode()))
            elif s.kind == "text":
                m["payload"], m["payload2"] = digest(s.payload.decode()), digest("text")
            ms.append(m)
        ctx.add("file", file=ms)
        try:
            acc = NITFDESAccessor(docs)
        except Exception as e:
            ctx.add("lookup", st=repr(e)[:300], id="")
            continue
        lookup2(ctx, acc, IDS[:3] + ["CSATTA DES"], {s.tag: s for s in segs}, form)


def lookup2(ctx, acc, ids, info, form):
    from aws.osml.gdal import NITFDESAccessor
    for i in ids:
        try:
            got = []
            for s in acc.get_segments_by_name(i):
                tag = NITFDESAccessor.parse_field_value(s, "DESCTLN", str)
                d = NITFDESAccessor.extract_desdata_xml(s)
                if form == "expanded" and d and tag in info and info[tag].kind in ("xml", "prolog"):
                    d = canon(d)
                got.append({"tag": tag, "header": list(NITFDESAccessor.extract_des_header(s)), "payload": digest(d),
                            "fields": [NITFDESAccessor.parse_field_value(s, n, str) for n, _ in FIELDS] == info[tag].v})
            ctx.add("lookup", st="ok", id=i, got=got, same=True)
        except Exception as e:
            ctx.add("lookup", st=repr(e)[:300], id=i)


MODELS = [{"module": "MC_Des", "cfg": "MC_Des.cfg", "cfg_thorough": "MC_Des_T.cfg", "min_states": 900}]
EXP = ["EverySegmentOfTheType", "NoOtherSegment", "InFileOrder", "HeaderFields", "Payload", "FieldValues"]
PARTS = [{"name": "files", "drive": drive, "trace": "Tr_Des",
          "gen": {"module": "MC_Des", "cfg": "Gen_Des.cfg", "cfg_thorough": "Gen_Des_T.cfg", "behaviours": True}, "expect": EXP},
         {"name": "documents", "drive": drive_xml, "trace": "Tr_Des", "expect": EXP}]
ASSUMPTIONS = ["GDAL reads and writes the segments; the oracle is what was written",
               "headers of TRE_OVERFLOW segments (two extra fields) are outside the claim: the code documents that it does not encode them",
               "an empty payload may be reported as none or as an empty string; a payload that is not text has no XML"]
