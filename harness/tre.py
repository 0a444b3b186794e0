"""Synthetic TRE XML, in the form GDAL's xml:TRE domain uses."""
import xml.etree.ElementTree as ET


def _field(parent, name, value):
    ET.SubElement(parent, "field", name=name, value=str(value))


def _repeated(parent, name, fname, values, order=None):
    rep = ET.SubElement(parent, "repeated", name=name, number=str(len(values)))
    idx = list(range(len(values))) if order is None else order
    for i in idx:
        g = ET.SubElement(rep, "group", index=str(i))
        _field(g, fname, values[i])


def root():
    return ET.Element("tres")


def rpc00b(parent, p, success="1"):
    t = ET.SubElement(parent, "tre", name="RPC00B", location="image")
    _field(t, "SUCCESS", success)
    _field(t, "ERR_BIAS", p.get("err_bias", "0001.00"))
    _field(t, "ERR_RAND", p.get("err_rand", "0000.50"))
    for k in ("LINE_OFF", "SAMP_OFF", "LAT_OFF", "LONG_OFF", "HEIGHT_OFF",
              "LINE_SCALE", "SAMP_SCALE", "LAT_SCALE", "LONG_SCALE", "HEIGHT_SCALE"):
        _field(t, k, p[k])
    for k in ("LINE_NUM_COEFF", "LINE_DEN_COEFF", "SAMP_NUM_COEFF", "SAMP_DEN_COEFF"):
        _repeated(t, k, k, p[k], p.get("order"))
    return t


def rsmida(parent, p):
    t = ET.SubElement(parent, "tre", name="RSMIDA", location="image")
    _field(t, "GRNDD", p["GRNDD"])
    if "rect" in p:
        o, u = p["rect"]
        for k, v in zip(("XUOR", "YUOR", "ZUOR"), o):
            _field(t, k, repr(float(v)))
        for r, rn in enumerate(("XR", "YR", "ZR")):
            for c, cn in enumerate(("X", "Y", "Z")):
                _field(t, f"{cn}U{rn}", repr(float(u[r][c])))
    for i, v in enumerate(p["vertices"], 1):
        for k, x in zip("XYZ", v):
            _field(t, f"V{i}{k}", repr(float(x)))
    g = p.get("grp")
    for k, i in zip("XYZ", range(3)):
        _field(t, f"GRP{k}", "          " if g is None else repr(float(g[i])))
    for k in ("MINR", "MAXR", "MINC", "MAXC"):
        _field(t, k, p[k])
    return t


def rsmpca(parent, p):
    t = ET.SubElement(parent, "tre", name="RSMPCA", location="image")
    for k in ("RSN", "CSN", "RNRMO", "CNRMO", "XNRMO", "YNRMO", "ZNRMO", "RNRMSF", "CNRMSF", "XNRMSF", "YNRMSF", "ZNRMSF"):
        v = p[k]
        _field(t, k, v if isinstance(v, int) else repr(float(v)))
    for pre in ("RN", "RD", "CN", "CD"):
        px, py, pz, co = p[pre]
        _field(t, pre + "PWRX", px)
        _field(t, pre + "PWRY", py)
        _field(t, pre + "PWRZ", pz)
        _field(t, pre + "TRMS", len(co))
        _repeated(t, pre + "PCF", pre + "PCF", co)
    return t


def rsmpia(parent, p):
    t = ET.SubElement(parent, "tre", name="RSMPIA", location="image")
    for pre in ("R", "C"):
        for k, v in zip(("0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ"), p[pre]):
            _field(t, pre + k, repr(float(v)))
    for k in ("RNIS", "CNIS"):
        _field(t, k, p[k])
    _field(t, "TNIS", p["RNIS"] * p["CNIS"])
    _field(t, "RSSIZ", repr(float(p["RSSIZ"])))
    _field(t, "CSSIZ", repr(float(p["CSSIZ"])))
    return t


def ichipb(parent, op, fi, fi_w, fi_h, skip=()):
    t = ET.SubElement(parent, "tre", name="ICHIPB", location="image")
    for n, (oc, orr), (fc, fr) in zip(("11", "12", "21", "22"), op, fi):
        for k, v in ((f"OP_ROW_{n}", orr), (f"OP_COL_{n}", oc), (f"FI_ROW_{n}", fr), (f"FI_COL_{n}", fc)):
            if k not in skip:
                _field(t, k, repr(float(v)))
    _field(t, "FI_ROW", int(fi_h))
    _field(t, "FI_COL", int(fi_w))
    return t


def cscrna(parent, ul, ur, lr, ll, skip=()):
    t = ET.SubElement(parent, "tre", name="CSCRNA", location="image")
    _field(t, "PREDICT_CORNERS", "Y")
    for n, c in (("UL", ul), ("UR", ur), ("LR", lr), ("LL", ll)):
        for k, v in (("LAT", c[1]), ("LONG", c[0]), ("HT", c[2] if len(c) > 2 else 0)):
            if f"{n}CNR_{k}" not in skip:
                _field(t, f"{n}CNR_{k}", repr(float(v)))
    return t
