#!/usr/bin/env python3
"""Monitor for the metadata generator (tools/java): runs the real tool, built from /repo's sources with a stand-in for the
protobuf runtime, on shipped, recombined and hostile plan documents, and judges every run against plan.py.
usage: genmon.py C28|C29 --tier T --seed N --out DIR --build DIR [--replay FILE]"""
import argparse, glob, hashlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time, threading, queue
import copy
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import plan
REPO = "/repo"
US = "\x1f"
SHIPPED = [("PhoneNumberMetadata.xml", "metadata"), ("PhoneNumberMetadataForTesting.xml", "metadata"), ("ShortNumberMetadata.xml", "short_numbers"), ("PhoneNumberAlternateFormats.xml", "alternate_format")]

def build(out):
    """compiles the tool; returns the class directory"""
    srcs = sorted(glob.glob(REPO + "/tools/java/*/src/**/*.java", recursive=True))
    proto = REPO + "/resources/phonemetadata.proto"
    h = hashlib.sha256()
    for f in srcs + [proto, here + "/stubgen.py", here + "/VerifDriver.java"]: h.update(f.encode() + b"\0" + open(f, "rb").read())
    cls = os.path.join(out, "cls-" + h.hexdigest()[:16])
    if os.path.isdir(cls): return cls
    for old in glob.glob(os.path.join(out, "cls-*")): shutil.rmtree(old, ignore_errors=True)
    tmp = os.path.join(out, "tmp-%d" % os.getpid())
    os.makedirs(tmp + "/cls")
    try:
        subprocess.run([sys.executable, here + "/stubgen.py", proto, tmp + "/gen"], check=True)
        stub = glob.glob(tmp + "/gen/**/*.java", recursive=True)
        p = subprocess.run(["javac", "-nowarn", "-encoding", "UTF-8", "-d", tmp + "/cls"] + stub + srcs + [here + "/VerifDriver.java"], capture_output=True, text=True)
        if p.returncode: sys.stderr.write(p.stderr[-3000:] + "\ncheck: the metadata generator does not compile\n"); sys.exit(2)
        os.rename(tmp + "/cls", cls)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return cls

class Tool:
    """one JVM that runs the tool's main once per request"""
    def __init__(self, cls): self.cls, self.p = cls, None
    def start(self):
        self.p = subprocess.Popen(["java", "-Xss4m", "-Xmx1g", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Djava.security.manager=allow", "-Dfile.encoding=UTF-8", "-cp", self.cls, "VerifDriver"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.q = queue.Queue()
        def pump(p, q):
            for l in p.stdout: q.put(l.decode("utf-8", "replace"))
            q.put(None)
        threading.Thread(target=pump, args=(self.p, self.q), daemon=True).start()
    def stop(self):
        if self.p: self.p.kill(); self.p.wait(); self.p = None
    def run(self, args, limit=60):
        """(exit status, exception or '-')"""
        if self.p is None: self.start()
        self.p.stdin.write((US.join(args) + "\n").encode()); self.p.stdin.flush()
        end = time.time() + limit
        while True:
            try: l = self.q.get(timeout=max(0.1, end - time.time()))
            except queue.Empty: self.stop(); return ("hang", "-")
            if l is None: self.stop(); return ("died", "-")
            if l.startswith("R "): _, rc, ex = l.split(); return (int(rc), ex)

# ---- documents ------------------------------------------------------------------------------------------------------
class Corpus:
    def __init__(self):
        self.terr = {}
        for f, ty in SHIPPED:
            self.terr.setdefault(ty, []).extend(ET.parse(REPO + "/resources/" + f).getroot().iter("territory"))
        self.formats = [f for t in self.terr["metadata"] + self.terr["alternate_format"] for f in t.iter("numberFormat")]
        self.patterns = [p.text for l in self.terr.values() for t in l for p in t.iter("nationalNumberPattern")]

def text_ws(r, s):
    """the same text with white space that the tool is documented to remove"""
    if r.random() < .6: return s
    out = []
    for i, c in enumerate(s):
        out.append(c)
        # not inside {m,n}, a class or an escape: white space there is removed too, but keep the document readable
        if c in "|(" and r.random() < .3: out.append(r.choice(["\n          ", " ", "\t", "\n"]))
    return r.choice(["", "\n      "]) + "".join(out) + r.choice(["", "\n    "])
def sub(e, tag, text=None, **a):
    x = ET.SubElement(e, tag, a)
    x.text = text
    return x
PAT = ["(\\d{3})(\\d{4})", "(\\d)(\\d{3})(\\d{4})", "(\\d{2})(\\d{5,9})", "(\\d{4})", "(\\d{2})(\\d{2})(\\d{2})(\\d{2})"]
FORM = ["$1 $2", "$1-$2", "$1 $2 $3", "($1) $2", "$2 $1", "$1/$2", "$1 № $2", "$1", "$1 $2 $3 $4"]
LEAD = ["[2-9]", "1", "0|[2-4]", "(?:3|4)5", "8[0-2]|9", "12|3[45]"]
RULE = ["$NP$FG", "($NP$FG)", "$FG", "$NP $FG", "$NP-$FG", "($FG)", "$NP($FG)", "$NP$FG$NP", "$FG/$FG"]
CRULE = ["$NP$CC $FG", "$NP $CC ($FG)", "$CC $FG", "$FG $CC", "$NP$CC-$FG", "$NP $CC-$NP $FG"]
def rand_lengths(r, lo=2, hi=17, n=None):
    k = n or r.choice([1, 1, 1, 2, 2, 3, 4, 5])
    return sorted(r.sample(range(lo, hi), k))
def spell(r, s):
    """a length list in the documented syntax: elements in any order, ranges for runs of three or more"""
    s, parts, i = sorted(s), [], 0
    while i < len(s):
        j = i
        while j + 1 < len(s) and s[j + 1] == s[j] + 1: j += 1
        if j - i >= 2 and r.random() < .7: parts.append("[%d-%d]" % (s[i], s[j]))
        else: parts += [str(x) for x in s[i:j + 1]]
        i = j + 1
    if r.random() < .3: r.shuffle(parts)
    return ",".join(parts)
def put_lengths(r, e, full, local=()):
    x = ET.Element("possibleLengths", {"national": spell(r, full)})
    if local: x.set("localOnly", spell(r, local))
    e.insert(0, x)
def make_desc(r, c, tag, full, local=()):
    e = ET.Element(tag)
    put_lengths(r, e, full, local)
    if r.random() < .9 and tag != "noInternationalDialling": sub(e, "exampleNumber", "".join(r.choice("0123456789") for _ in range(r.choice(full))))
    if r.random() < .95: sub(e, "nationalNumberPattern", text_ws(r, plan.nows(r.choice(c.patterns)) if r.random() < .6 else r.choice(LEAD) + "\\d{%d}" % r.choice(full)))
    return e
def make_format(r, c):
    if r.random() < .4:
        f = copy.deepcopy(r.choice(c.formats))
    else:
        f = ET.Element("numberFormat", {"pattern": r.choice(PAT)})
        for _ in range(r.choice([0, 1, 1, 2, 3])): sub(f, "leadingDigits", text_ws(r, r.choice(LEAD)))
        sub(f, "format", r.choice(FORM))
    if r.random() < .3: f.set("nationalPrefixFormattingRule", r.choice(RULE))
    if r.random() < .2: f.set("nationalPrefixOptionalWhenFormatting", "true")
    if r.random() < .25: f.set("carrierCodeFormattingRule", r.choice(CRULE))
    if r.random() < .3 and f.find("intlFormat") is None: sub(f, "intlFormat", r.choice(["NA", "NA"] + FORM))
    return f
def all_lengths(t, skip="noInternationalDialling"):
    full, local = set(), set()
    for d in t:
        if d.tag == skip: continue
        for p in d.iter("possibleLengths"):
            full |= plan.lengths(p.get("national", "")); local |= plan.lengths(p.get("localOnly")) if "localOnly" in p.attrib else set()
    return full, local
def territory(r, c, kind):
    """a well-formed territory: shipped and edited, or made up"""
    if r.random() < .45:
        t = copy.deepcopy(r.choice(c.terr[kind]))
        if r.random() < .35: return t
    else:
        t = ET.Element("territory")
        if kind != "alternate_format": t.set("id", r.choice(["001", "XA", "XB", "QZ", "US", "GB"]) if r.random() < .9 else "")
        if kind != "short_numbers": t.set("countryCode", str(r.choice([1, 7, 44, 979, 888, 39, 2, 998])))
        if kind == "short_numbers":
            sub(sub(t, "generalDesc"), "nationalNumberPattern", text_ws(r, "1\\d{2,5}"))
            full = rand_lengths(r, 2, 8)
            t.append(make_desc(r, c, "shortCode", full))
            for tag in plan.SHORT:
                if tag != "shortCode" and r.random() < .4: t.append(make_desc(r, c, tag, full if r.random() < .4 else r.sample(full, r.randint(1, len(full)))))
            if r.random() < .2: t.append(make_desc(r, c, "expandedEmergency", full))
        elif kind == "metadata":
            g = sub(t, "generalDesc")
            sub(g, "nationalNumberPattern", text_ws(r, plan.nows(r.choice(c.patterns))))
            tags = [x for x in plan.TYPES if x != "noInternationalDialling" and r.random() < .4]
            shared = rand_lengths(r)
            same = r.random() < .15
            for tag in tags:
                full = shared if r.random() < .3 else rand_lengths(r)
                local = [x for x in rand_lengths(r, 2, 10) if x not in full] if r.random() < .35 else []
                t.append(make_desc(r, c, tag, full, local))
            if same and t.find("mobile") is not None and t.find("fixedLine") is not None:
                a, b = t.find("mobile/nationalNumberPattern"), t.find("fixedLine/nationalNumberPattern")
                if a is not None and b is not None: a.text = text_ws(r, plan.nows(b.text))
            full, local = all_lengths(t)
            if full and r.random() < .3:
                f2 = r.sample(sorted(full), r.randint(1, len(full)))
                l2 = [x for x in r.sample(sorted(full | local), r.randint(1, len(full | local))) if x not in f2] if r.random() < .4 else []
                t.insert(1, make_desc(r, c, "noInternationalDialling", f2, l2))
    if kind == "short_numbers": return t
    # attributes
    def maybe(p, k, v):
        if r.random() < p: t.set(k, v)
        elif r.random() < .15 and k in t.attrib: del t.attrib[k]
    maybe(.5, "nationalPrefix", r.choice(["0", "1", "8", "06", "0", ""]))
    maybe(.3, "nationalPrefixFormattingRule", r.choice(RULE))
    if kind == "metadata":
        maybe(.2, "nationalPrefixOptionalWhenFormatting", "true")
        maybe(.2, "carrierCodeFormattingRule", r.choice(CRULE))
        maybe(.3, "nationalPrefixForParsing", r.choice(["0|1", "0(?:([1-3])5)?", "(1[02-9])|0", "0 |\n 1", "1?(2)"]))
        maybe(.25, "nationalPrefixTransformRule", r.choice(["$1", "9$1", "$15", "4$1"]))
        maybe(.5, "internationalPrefix", r.choice(["00", "0(?:0|11)", "01[12]", "810"]))
        maybe(.2, "preferredInternationalPrefix", r.choice(["00", "0011", "8~10"]))
        maybe(.15, "leadingDigits", r.choice(["[2-9]", "7[1-6]", "1|2 ", "8(?:[0-9] |3)"]))
        maybe(.15, "preferredExtnPrefix", r.choice([" ext. ", ";ext=", "#", " доб. "]))
        maybe(.15, "mainCountryForCode", "true")
        maybe(.15, "mobileNumberPortableRegion", "true")
        if r.random() < .08:  # a type the plan does not have
            x = r.choice([d for d in t if d.tag in plan.TYPES] or [None])
            if x is not None and x.tag != "noInternationalDialling" and t.find("noInternationalDialling") is None: t.remove(x)
    if r.random() < .6:
        a = t.find("availableFormats")
        if a is None: a = ET.Element("availableFormats"); t.insert(0, a)
        if r.random() < .3:
            for f in list(a): a.remove(f)
        for _ in range(r.randint(1, 5)): a.insert(r.randint(0, len(a)), make_format(r, c))
    return t
def render(r, terrs):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<phoneNumberMetadata>\n <territories>\n']
    def rec(e, ind):
        a = "".join(" %s=%s" % (k, quoteattr(v)) for k, v in e.attrib.items())
        kids = list(e)
        if r.random() < .05: out.append(ind + "<!-- <territory id=\"ZZ\" countryCode=\"0\"/> a comment -->\n")
        if not kids and e.text is None: out.append("%s<%s%s/>\n" % (ind, e.tag, a)); return
        if not kids: out.append("%s<%s%s>%s</%s>\n" % (ind, e.tag, a, escape(e.text or ""), e.tag)); return
        out.append("%s<%s%s>\n" % (ind, e.tag, a))
        for k in kids: rec(k, ind + " ")
        out.append("%s</%s>\n" % (ind, e.tag))
    for t in terrs: rec(t, "  ")
    out.append(" </territories>\n</phoneNumberMetadata>\n")
    return "".join(out)

# defects for C29; each returns None or the name of what it tried (the oracle decides whether the result must be refused)
def spoil(r, t, kind):
    descs = [d for d in t.iter() if d.find("possibleLengths") is not None and d.tag != "generalDesc"]
    fmts = list(t.iter("numberFormat"))
    def plen():
        return r.choice(descs).find("possibleLengths") if descs else None
    def lens(bad):
        p = plen()
        if p is None: return None
        k = "localOnly" if "localOnly" in p.attrib and r.random() < .4 else "national"
        p.set(k, bad(p.get(k))); return True
    def pick_num(s): return r.choice(re.findall(r"\d+", s) or ["5"])
    def dup(s):
        n = int(pick_num(s))
        # the repeat may sit in another element or inside a range
        return r.choice(["%s,%d" % (s, n), "%d,%s" % (n, s), "%s,[%d-%d]" % (s, n - 2, n + 1), "[%d-%d],%s" % (n - 1, n + 1, s)])
    def regex(s):
        empty = ["(1|)", "(?:2|3|)4", "(5| )", "(6|\n)"]
        if r.random() < .5: return s + r.choice(empty + ["(\\d{3}", "[2-", "1)2", "(?:12", "[9-1]", "(?<x"])
        return r.choice(empty + ["*5", "?1", "1)2", "[9-1]", ")("]) + s
    def setre(e, k=None):
        if e is None: return None
        if k: e.set(k, regex(e.get(k, "")))
        else: e.text = regex(e.text or "")
        return True
    menu = {
     "duplicate length": lambda: lens(dup),
     "empty list": lambda: lens(lambda s: ""),
     "stray comma": lambda: lens(lambda s: r.choice([s + ",", "," + s, s + ",," + "19", s + ",,"])),
     "open range": lambda: lens(lambda s: r.choice([s + ",[18-21", "[18-21," + s, s + ",[18-", "[" + s])),
     "range hyphens": lambda: lens(lambda s: s + r.choice([",[18-]", ",[18]", ",[18-20-22]", ",[-18]", ",[18-20-]", ",[18--20]", ",[]", ",[18:20]", ",[-]"])),
     "short range": lambda: lens(lambda s: s + r.choice([",[18-19]", ",[18-18]", ",[21-18]"])),
     "not a number": lambda: lens(lambda s: s + r.choice([",x", ",1.5", ", ", ",[18-2x]", ",4d"])),
     "length is local and full": lambda: (lambda p: p is not None and (p.set("localOnly", r.choice([pick_num(p.get("national", "5")), p.get("national", "5")])) or True))(plen()),
     "child outside": lambda: (lambda d: d is not None and (put_lengths(r, d, [18]) or d.remove(d.findall("possibleLengths")[1]) or True))(next((d for d in descs if d.tag in (("noInternationalDialling",) if kind == "metadata" else ("tollFree", "premiumRate", "standardRate", "emergency", "carrierSpecific", "smsServices"))), None)),
     "child local outside": lambda: (lambda p: p is not None and (p.set("localOnly", r.choice(["1", "18", "20"])) or True))(next((d.find("possibleLengths") for d in descs if d.tag == "noInternationalDialling" or kind == "short_numbers"), None)),
     "lengths on general": lambda: (lambda g: g is not None and (put_lengths(r, g, [r.randint(4, 9)], [2] if r.random() < .3 else ()) or True))(t.find("generalDesc")),
     "type twice": lambda: (lambda d: d is not None and (t.append(copy.deepcopy(d)) or True))(r.choice([d for d in t if d.tag != "availableFormats" and d.tag != "references"] or [None])),
     "no format": lambda: (lambda f: f is not None and (f.remove(f.find("format")) or True))(r.choice(fmts or [None])),
     "format twice": lambda: (lambda f: f is not None and (f.append(copy.deepcopy(f.find("format"))) or True))(r.choice(fmts or [None])),
     "intl twice": lambda: (lambda f: f is not None and ([sub(f, "intlFormat", r.choice(["NA", "$1"])) for _ in range(2)] and True))(r.choice(fmts or [None])),
     "number pattern": lambda: setre(r.choice(list(t.iter("nationalNumberPattern")) or [None])),
     "format pattern": lambda: setre(r.choice(fmts or [None]), "pattern"),
     "format leading digits": lambda: setre(r.choice(list(t.iter("leadingDigits")) or [None])),
     "territory pattern": lambda: kind != "short_numbers" and setre(t, r.choice(["leadingDigits", "internationalPrefix", "nationalPrefixForParsing"])),
     "transform rule": lambda: kind != "short_numbers" and (t.set("nationalPrefixForParsing", "0(\\d)"), setre(t, "nationalPrefixTransformRule"))[1],
     "carrier rule": lambda: kind != "short_numbers" and setre(r.choice(fmts + [t]), "carrierCodeFormattingRule"),
     "country code": lambda: kind != "short_numbers" and (t.set("countryCode", r.choice(["", "x", "4 4", "4a", "99999999999"])) or True),
     "unparsable": lambda: "unparsable",
     # near misses: to be accepted
     "fine: long range": lambda: lens(lambda s: s + ",[18-20]") and False or "fine",
     "fine: pattern": lambda: (lambda e: e is not None and (setattr(e, "text", (e.text or "") + r.choice(["|\n9(?:8|7)?", "| 9", "|(?:1 |2)", "|[)|]"])) or "fine"))(r.choice(list(t.iter("nationalNumberPattern")) or [None])),
    }
    name = r.choice(list(menu))
    got = menu[name]()
    return (name, got)

# ---- one worker -----------------------------------------------------------------------------------------------------
KIND = {"metadata": "m.xml", "short_numbers": "ShortNumberMetadata-m.xml", "alternate_format": "PhoneNumberAlternateFormats-m.xml"}
def judge(obs, tool, args, out, before, want, ctx, const):
    """runs the tool once and compares; want is a list of territories or a Refuse"""
    rc, ex = tool.run(args)
    if rc == "hang":
        rc, ex = tool.run(args, 180)
        if rc == "hang": return "the tool does not come to an end"
    if rc == "died": return "the JVM ended"
    obs["runs"] = obs.get("runs", 0) + 1
    now = open(out, encoding="utf-8").read() if os.path.isfile(out) else None
    if isinstance(want, plan.Refuse):
        if rc == 0: return "accepted, though it must be refused: %s" % want
        if now != before: return "refused (%s), but the output file changed" % want
        obs["refused"] = obs.get("refused", 0) + 1
        obs["refused: " + re.sub(r":.*|\d+", "", str(want)).strip()] = obs.get("refused: " + re.sub(r":.*|\d+", "", str(want)).strip(), 0) + 1
        return None
    if rc != 0: return "exit status %s (%s) on a well-formed document" % (rc, ex)
    if now is None: return "success, but no output"
    try:
        b = plan.rust_bytes(now, const)
        got = plan.collection(b)
    except (plan.Broken, UnicodeDecodeError, ValueError) as e: return "output is not readable: %s" % e
    obs["accepted"] = obs.get("accepted", 0) + 1
    obs["bytes"] = obs.get("bytes", 0) + len(b)
    obs["territories"] = obs.get("territories", 0) + len(got)
    # C29 asks whether the whole document was written; what the fields hold is C28's business
    if ctx == "C29": return None if len(got) == len(want) else "%d territories in the document, %d in the output" % (len(want), len(got))
    return plan.diff(want, got)
def worker(a):
    prop, seed, w, n, cls, work, flag = a
    sys.setrecursionlimit(10000)
    obs, bad, shapes = {}, [], set()
    c, tool = Corpus(), Tool(cls)
    d = os.path.join(work, "w%d" % w)
    os.makedirs(d, exist_ok=True)
    try:
        for i in range(n):
            if flag.is_set(): break
            r = random.Random("%s/%d/%d/%d" % (prop, seed, w, i))
            kind = r.choice(["metadata"] * 4 + ["short_numbers", "alternate_format"])
            terrs = [territory(r, c, kind) for _ in range(r.choice([1, 1, 2, 3, 6]))]
            raw, tried = None, "none"
            if prop == "C29":
                tried, got = spoil(r, r.choice(terrs), kind)
                if got == "unparsable":
                    x = render(r, terrs)
                    raw = r.choice([x[:r.randint(0, len(x) - 3)], x.replace("</territory>", "", 1), x.replace("<territories>", "<territories", 1), "", x.replace("=\"", "=", 1), x + "<x>"])
                elif not got: tried = "none"
            text = raw if raw is not None else render(r, terrs)
            xml, out = os.path.join(d, KIND[kind]), os.path.join(d, "out.rs")
            open(xml, "w", encoding="utf-8").write(text)
            lite = r.random() < .25
            variant = "lite_" if lite else r.choice(["", "", "test_"])
            const = r.choice([None, "METADATA", "TEST_METADATA", "x", "AbC_d"])
            args = ["BuildMetadataRustFromXml", xml, out, variant + kind]
            if const: args.insert(r.randint(1, 4) if r.random() < .3 else 4, "--const-name%s%s" % (r.choice("= "), const))
            try: want = plan.derive(xml, lite)
            except plan.Refuse as e: want = e
            except ET.ParseError as e: want = plan.Refuse("not well-formed XML")
            if prop == "C28" and isinstance(want, plan.Refuse): obs["not well-formed, left out"] = obs.get("not well-formed, left out", 0) + 1; continue
            before = None
            if r.random() < .7: before = "// earlier output %d\n" % i; open(out, "w").write(before)
            elif os.path.exists(out): os.remove(out)
            obs["tried: " + tried] = obs.get("tried: " + tried, 0) + 1
            m = judge(obs, tool, args, out, before, want, prop, const or "METADATA")
            if not isinstance(want, plan.Refuse):
                shapes |= {"%s.%s" % (k, ",".join(sorted(v)) if isinstance(v, dict) else type(v).__name__) for t in want for k, v in t.items()}
            if m:
                bad.append((m, args, text)); flag.set(); break
            if len(obs.get("samples", ())) < 3 and i % 7 == 3: obs.setdefault("samples", []).append("%s %s: %s" % (kind, tried, text[:260]))
    finally: tool.stop()
    return obs, bad, shapes

# ---- fixed scenarios ------------------------------------------------------------------------------------------------
def shipped(cls, work, obs):
    """the tool on the shipped documents, against the oracle and against the committed tables"""
    tool = Tool(cls)
    out = os.path.join(work, "shipped.rs")
    tables = {"PhoneNumberMetadata.xml": "metadata.rs", "PhoneNumberMetadataForTesting.xml": "test_metadata.rs"}
    try:
        for f, ty in SHIPPED:
            x = REPO + "/resources/" + f
            for v in ("", "lite_", "test_"):
                const = "METADATA" if v == "" else "X_" + v.upper() + "Y"
                args = ["BuildMetadataRustFromXml", x, out, v + ty, "--const-name=" + const]
                m = judge(obs, tool, args, out, None, plan.derive(x, v == "lite_"), f, const)
                if m: return m, args, ""
                obs["shipped documents"] = obs.get("shipped documents", 0) + 1
                if v == "" and f in tables:
                    t = open(REPO + "/src/generated/metadata/" + tables[f], encoding="utf-8").read()
                    name = re.search(r"const\s+(\w+)", t)[1]
                    old, new = plan.rust_bytes(t, name), plan.rust_bytes(open(out, encoding="utf-8").read(), const)
                    obs["tables reproduced byte for byte"] = obs.get("tables reproduced byte for byte", 0) + (old == new)
                    m = diff2(old, new)
                    if m: return "the committed %s is not what the tool makes of %s: %s" % (tables[f], f, m), args, ""
            if not rustc(out, work, obs): return "the Rust compiler refuses the output for " + f, args, ""
    finally: tool.stop()
def diff2(old, new):
    try: return plan.diff(plan.collection(new), plan.collection(old))
    except (plan.Broken, UnicodeDecodeError) as e: return str(e)
def rustc(f, work, obs):
    p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-A", "warnings", "--out-dir", work, f], capture_output=True, text=True)
    obs["outputs compiled by rustc"] = obs.get("outputs compiled by rustc", 0) + 1
    if p.returncode and "error" not in p.stderr: sys.stderr.write(p.stderr); sys.exit(2)
    return p.returncode == 0
def script(cls, work, obs):
    """the regeneration script, in a copy of the directories it touches, with mvn replaced by a stand-in that installs our jar"""
    s = os.path.join(work, "script")
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s + "/resources"); os.makedirs(s + "/bin"); os.makedirs(s + "/src/generated/metadata")
    shutil.copytree(REPO + "/tools", s + "/tools", ignore=shutil.ignore_patterns("target"))
    for f, _ in SHIPPED: shutil.copy(REPO + "/resources/" + f, s + "/resources/" + f)
    jar = os.path.join(s, "gen.jar")
    subprocess.run(["jar", "cfe", jar, "com.google.i18n.phonenumbers.EntryPoint", "-C", cls, "."], check=True)
    open(s + "/bin/mvn", "w").write("#!/bin/bash\nt=%s/tools/java/rust-build/target; mkdir -p $t && cp %s $t/rust-build-1.0-SNAPSHOT-jar-with-dependencies.jar\n" % (s, jar))
    os.chmod(s + "/bin/mvn", 0o755)
    env = dict(os.environ, PATH=s + "/bin:" + os.environ["PATH"])
    for cwd, cmd in ((s, ["bash", "tools/scripts/generate_metadata.sh"]), (s + "/tools/scripts", ["bash", "generate_metadata.sh", "--skip-install"])):
        g = s + "/src/generated/metadata"
        shutil.rmtree(g); os.makedirs(g)
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
        if p.returncode: return "the regeneration script fails: " + p.stderr[-400:], cmd, ""
        want = {f for f in os.listdir(REPO + "/src/generated/metadata")}
        if set(os.listdir(g)) != want: return "the regeneration script makes %s, the tree has %s" % (sorted(os.listdir(g)), sorted(want)), cmd, ""
        for f in sorted(want):
            a, b = (open(x + "/" + f, encoding="utf-8").read() for x in (REPO + "/src/generated/metadata", g))
            if f == "mod.rs":
                norm = lambda t: re.sub(r"\s+", " ", re.sub(r"//[^\n]*", "", t)).strip()
                if norm(a) != norm(b): return "the regeneration script writes another mod.rs", cmd, ""
            else:
                na, nb = (re.search(r"const\s+(\w+)", t)[1] for t in (a, b))
                if na != nb: return "%s: constant %s became %s" % (f, na, nb), cmd, ""
                try: x = plan.rust_bytes(a, na), plan.rust_bytes(b, nb)
                except plan.Broken as e: return "%s: %s" % (f, e), cmd, ""
                m = diff2(*x)
                if m: return "the regeneration script does not reproduce %s: %s" % (f, m), cmd, ""
        obs["script runs"] = obs.get("script runs", 0) + 1
def commands(cls, work, obs):
    """malformed command lines and output faults"""
    tool = Tool(cls)
    x, out = os.path.join(work, "ok.xml"), os.path.join(work, "cmd.rs")
    r = random.Random(5)
    open(x, "w", encoding="utf-8").write(render(r, [territory(r, Corpus(), "metadata")]))
    B = "BuildMetadataRustFromXml"
    bad = [[], ["help"], [B], [B, x], [B, x, out], [B.lower(), x, out, "metadata"], ["", x, out, "metadata"], [B, x, out, "nonsense"], [B, x, out, "full_metadata"], [B, x, out, "lite_"], [B, x, out, ""],
           [B, x, out, "lite_test_metadata"], [B, x, out, "metadata2"], [B, x, out, "metadata", "extra"], [B, x, out, "metadata", "--const-name="], [B, x, out, "metadata", "--const-name=A-B"], [B, x, out, "metadata", "--const-name=A", "more"],
           [B, x, out, "short_number"], [B, x, out, "metadata", "--constname=A"], [B, x, "metadata", "--const-name=A"], [B, x + ".missing", out, "metadata"], [B, os.path.dirname(x), out, "metadata"],
           [B, x, work + "/no/such/dir/o.rs", "metadata"], [B, x, work, "metadata"], [B, x, "/dev/full", "metadata"], [B, x, "", "metadata"]]
    try:
        for args in bad:
            open(out, "w").write("earlier")
            rc, ex = tool.run(args)
            if rc == "hang" or rc == "died": return "the tool %s" % rc, args, ""
            obs["bad commands refused"] = obs.get("bad commands refused", 0) + 1
            if rc == 0: return "exit status 0 for a command that did nothing, or whose output was not written", args, ""
            if open(out).read() != "earlier": return "a refused command changed the output file", args, ""
        # the process's own status, without our driver
        for args, want in ((bad[3], 1), ([B, x, out, "metadata", "--const-name=OK"], 0), (bad[-2], 1), ([B, x, out, "METADATA"], 1)):
            p = subprocess.run(["java", "-cp", cls, "com.google.i18n.phonenumbers.EntryPoint"] + args, capture_output=True)
            obs["whole processes"] = obs.get("whole processes", 0) + 1
            if (p.returncode == 0) != (want == 0): return "exit status %d" % p.returncode, args, ""
    finally: tool.stop()

def main():
    global REPO
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", default="/verif/evidence"); ap.add_argument("--build", default="/verif/.build/java"); ap.add_argument("--cases", type=int); ap.add_argument("--repo", default=REPO)
    a = ap.parse_args()
    REPO = a.repo
    t0 = time.time()
    os.makedirs(a.build, exist_ok=True)
    cls = build(a.build)
    work = os.path.join(a.build, "work-%s-%d" % (a.prop, os.getpid()))
    os.makedirs(work)
    obs, bad, shapes = {}, [], set()
    try:
        fixed = [shipped, script] if a.prop == "C28" else [commands]
        for f in fixed:
            v = f(cls, work, obs)
            if v: bad.append(v); break
        n = a.cases or (40000 if a.tier == "thorough" else 1500)
        W = 8
        if not bad:
            with mp.Manager() as man, mp.Pool(W) as pool:
                flag = man.Event()
                for o, b, s in pool.map(worker, [(a.prop, a.seed, w, n, cls, work, flag) for w in range(W)], 1):
                    bad += b; shapes |= s
                    for k, v in o.items(): obs[k] = obs[k] + v if k in obs else v
    finally: shutil.rmtree(work, ignore_errors=True)
    samples = obs.pop("samples", [])[:8] or ["none"]
    os.makedirs(a.out + "/replay", exist_ok=True)
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": {"evaluations": obs.get("runs", 0), "distinct_nontrivial": len(shapes) + len(obs),
          "rule": "distinct (field, sub-fields present) shapes in accepted documents plus distinct kinds of event observed", "observed": obs, "samples": samples},
          "assumptions": ["a stand-in for the protobuf runtime (standard wire format, generated from the repository's .proto) replaces protobuf-java, which is not available offline", "held on the executions counted here, nothing more"],
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    json.dump(ev, open("%s/%s.json" % (a.out, a.prop), "w"), indent=1, ensure_ascii=False)
    print("%s: %d tool runs, %d accepted, %d refused, %d territories compared, %.1f s" % (a.prop, obs.get("runs", 0), obs.get("accepted", 0), obs.get("refused", 0), obs.get("territories", 0), time.time() - t0))
    if bad:
        m, args, text = bad[0]
        path = "%s/replay/%s-0.txt" % (a.out, a.prop)
        open(path, "w", encoding="utf-8").write("property=%s\nseed=%d\n%s\narguments=%r\n\n%s" % (a.prop, a.seed, m, args, text))
        print("  " + m[:1500]); print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    need = {"C28": {"accepted": 2000, "script runs": 2, "shipped documents": 12}, "C29": {"refused": 2000, "accepted": 500, "bad commands refused": 20}}[a.prop]
    if not a.cases:
        for k, v in need.items():
            if obs.get(k, 0) < v: sys.stderr.write("observed too little: %s=%d\n" % (k, obs.get(k, 0))); return 2
    return 0
if __name__ == "__main__": sys.exit(main())
