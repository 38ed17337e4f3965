"""Oracle: what the published build rules make of a plan document, and a reader for what the tool wrote."""
import re
import xml.etree.ElementTree as ET

class Refuse(Exception): pass

TYPES = ["fixedLine", "mobile", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "pager", "uan", "voicemail", "noInternationalDialling"]
SHORT = ["standardRate", "shortCode", "carrierSpecific", "emergency", "tollFree", "premiumRate", "smsServices"]
snake = lambda s: re.sub(r"[A-Z]", lambda m: "_" + m[0].lower(), s)

def nows(s): return re.sub(r"[ \t\n\x0b\f\r]", "", s)
def regex(s, strip=False):
    s = nows(s) if strip else s
    # the generators keep to patterns on which this compiler and the tool's agree
    try: re.compile(s)
    except re.error: raise Refuse("pattern does not compile")
    if "|)" in s: raise Refuse("empty alternative at the end of a group")
    return s
def one(s): return s.replace("$FG", "$1", 1)
def number(s):
    if not re.fullmatch(r"[0-9]{1,9}", s): raise Refuse("not a number: %r" % s)
    return int(s)
def lengths(s):
    if s == "": raise Refuse("empty length list")
    out = set()
    for p in s.split(","):
        if p == "": raise Refuse("stray comma")
        if p[0] == "[":
            if p[-1] != "]": raise Refuse("range not closed")
            ab = p[1:-1].split("-")
            if len(ab) != 2: raise Refuse("range needs one hyphen")
            a, b = number(ab[0]), number(ab[1])
            if b - a < 2: raise Refuse("range too short")
            r = range(a, b + 1)
        else: r = [number(p)]
        for x in r:
            if x in out: raise Refuse("duplicate length")
            out.add(x)
    return out
def descend(e, tag): return [x for x in e.iter(tag) if x is not e]
def length_sets(elems):
    full, local = set(), set()
    for e in elems:
        a = lengths(e.get("national", ""))
        if "localOnly" in e.attrib:
            b = lengths(e.get("localOnly"))
            if a & b: raise Refuse("length both full and local-only")
            local |= b
        full |= a
    return full, local
def desc(t, tag, general):
    es = descend(t, tag)
    if not es: return {"possible_length": [-1]}
    if len(es) > 1: raise Refuse("description given twice")
    e, d = es[0], {}
    if general is not None:
        full, local = length_sets(descend(e, "possibleLengths"))
        g, gl = general.get("possible_length", []), general.get("possible_length_local_only", [])
        if sorted(full) != g:
            if not full <= set(g): raise Refuse("length outside the general description")
            if full: d["possible_length"] = sorted(full)
        local -= full
        if not local <= set(g) | set(gl): raise Refuse("local-only length outside the general description")
        if local: d["possible_length_local_only"] = sorted(local)
    p = descend(e, "nationalNumberPattern")
    if p: d["national_number_pattern"] = regex(p[0].text, True)
    x = descend(e, "exampleNumber")
    if x: d["example_number"] = x[0].text
    return d
def territory(t, short, alt):
    a, m = t.attrib, {}
    np = a.get("nationalPrefix", "")
    m["id"] = a.get("id", "")
    if "countryCode" in a: m["country_code"] = number(a["countryCode"])
    if "leadingDigits" in a: m["leading_digits"] = regex(a["leadingDigits"])
    if "internationalPrefix" in a: m["international_prefix"] = regex(a["internationalPrefix"])
    if "preferredInternationalPrefix" in a: m["preferred_international_prefix"] = a["preferredInternationalPrefix"]
    if "nationalPrefixForParsing" in a:
        m["national_prefix_for_parsing"] = regex(a["nationalPrefixForParsing"], True)
        if "nationalPrefixTransformRule" in a: m["national_prefix_transform_rule"] = regex(a["nationalPrefixTransformRule"])
    if np:
        m["national_prefix"] = np
        m.setdefault("national_prefix_for_parsing", np)
    if "preferredExtnPrefix" in a: m["preferred_extn_prefix"] = a["preferredExtnPrefix"]
    if "mainCountryForCode" in a: m["main_country_for_code"] = 1
    if "mobileNumberPortableRegion" in a: m["mobile_number_portable_region"] = 1
    rule_np = lambda s: one(s.replace("$NP", np, 1))
    rule_cc = lambda s: regex(one(s).replace("$NP", np, 1))
    t_np = rule_np(a.get("nationalPrefixFormattingRule", ""))
    t_cc = rule_cc(a["carrierCodeFormattingRule"]) if "carrierCodeFormattingRule" in a else ""
    nat, intl, explicit = [], [], False
    for f in descend(t, "numberFormat"):
        b, n = f.attrib, {}
        r = rule_np(b["nationalPrefixFormattingRule"]) if "nationalPrefixFormattingRule" in b else t_np or None
        if r is not None: n["national_prefix_formatting_rule"] = r
        if "nationalPrefixOptionalWhenFormatting" in b: opt = b["nationalPrefixOptionalWhenFormatting"] == "true"
        else: opt = "nationalPrefixOptionalWhenFormatting" in a
        if opt: n["national_prefix_optional_when_formatting"] = 1
        r = rule_cc(b["carrierCodeFormattingRule"]) if "carrierCodeFormattingRule" in b else t_cc or None
        if r is not None: n["domestic_carrier_code_formatting_rule"] = r
        lead = [regex(x.text, True) for x in descend(f, "leadingDigits")]
        if lead: n["leading_digits_pattern"] = lead
        n["pattern"] = regex(b.get("pattern", ""))
        fs = descend(f, "format")
        if len(fs) != 1: raise Refuse("%d formats" % len(fs))
        n["format"] = fs[0].text
        nat.append(n)
        xs = descend(f, "intlFormat")
        if len(xs) > 1: raise Refuse("international format given twice")
        if not xs: intl.append(dict(n)); continue
        explicit = True
        if xs[0].text == "NA": continue
        i = {"pattern": n["pattern"], "format": xs[0].text}
        if lead: i["leading_digits_pattern"] = lead
        intl.append(i)
    if nat: m["number_format"] = nat
    if explicit and intl: m["intl_number_format"] = intl
    if alt: return m
    g = {}
    es = descend(t, "generalDesc")
    if len(es) > 1: raise Refuse("description given twice")
    if es:
        p = descend(es[0], "nationalNumberPattern")
        if p: g["national_number_pattern"] = regex(p[0].text, True)
        x = descend(es[0], "exampleNumber")
        if x: g["example_number"] = x[0].text
        if descend(es[0], "possibleLengths"):
            raise Refuse("lengths on the general description")
    if short:
        sc = descend(t, "shortCode")
        full, local = length_sets(descend(sc[0], "possibleLengths")) if sc else (set(), set())
        if local: raise Refuse("local-only length of a short number")
    else:
        skip = {id(x) for e in descend(t, "noInternationalDialling") for x in e.iter("possibleLengths")}
        full, local = length_sets([x for x in descend(t, "possibleLengths") if id(x) not in skip])
    if full: g["possible_length"] = sorted(full)
    if local - full: g["possible_length_local_only"] = sorted(local - full)
    m["general_desc"] = g
    for ty in SHORT if short else TYPES: m[snake(ty)] = desc(t, ty, g)
    if not short:
        if m["mobile"].get("national_number_pattern", "") == m["fixed_line"].get("national_number_pattern", ""): m["same_mobile_and_fixed_line_pattern"] = 1
    return m
def derive(path, lite):
    root = ET.parse(path).getroot()
    short, alt = "ShortNumberMetadata" in path, "PhoneNumberAlternateFormats" in path
    ms = [territory(t, short, alt) for t in root.iter("territory")]
    if lite:
        for m in ms:
            for k, v in m.items():
                if isinstance(v, dict) and k != "general_desc": v.pop("example_number", None)
    return ms

# ---- reading the tool's output -------------------------------------------------------------------------------------
FMT = {1: ("pattern", "s"), 2: ("format", "s"), 3: ("leading_digits_pattern", "S"), 4: ("national_prefix_formatting_rule", "s"), 5: ("domestic_carrier_code_formatting_rule", "s"), 6: ("national_prefix_optional_when_formatting", "b")}
DESC = {2: ("national_number_pattern", "s"), 6: ("example_number", "s"), 9: ("possible_length", "I"), 10: ("possible_length_local_only", "I")}
META = {1: "general_desc", 2: "fixed_line", 3: "mobile", 4: "toll_free", 5: "premium_rate", 6: "shared_cost", 7: "personal_number", 8: "voip", 21: "pager", 24: "no_international_dialling", 25: "uan", 27: "emergency", 28: "voicemail", 29: "short_code", 30: "standard_rate", 31: "carrier_specific", 33: "sms_services"}
META = {k: (v, DESC) for k, v in META.items()}
META.update({9: ("id", "s"), 10: ("country_code", "i"), 11: ("international_prefix", "s"), 12: ("national_prefix", "s"), 13: ("preferred_extn_prefix", "s"), 15: ("national_prefix_for_parsing", "s"), 16: ("national_prefix_transform_rule", "s"), 17: ("preferred_international_prefix", "s"), 18: ("same_mobile_and_fixed_line_pattern", "b"), 19: ("number_format", [FMT]), 20: ("intl_number_format", [FMT]), 22: ("main_country_for_code", "b"), 23: ("leading_digits", "s"), 32: ("mobile_number_portable_region", "b")})

class Broken(Exception): pass
def varint(b, i):
    v = s = 0
    while True:
        if i >= len(b): raise Broken("truncated number")
        c = b[i]; i += 1
        v |= (c & 127) << s; s += 7
        if c < 128: return v, i
        if s > 63: raise Broken("number too long")
def signed(v): return v - (1 << 64) if v >> 63 else v
def message(b, schema):
    m, i = {}, 0
    while i < len(b):
        k, i = varint(b, i)
        n, w = k >> 3, k & 7
        if n not in schema: raise Broken("unknown field %d" % n)
        name, ty = schema[n]
        if w == 0: v, i = varint(b, i)
        elif w == 2:
            l, i = varint(b, i)
            v = b[i:i + l]; i += l
            if len(v) != l: raise Broken("truncated field %s" % name)
        else: raise Broken("wire type %d" % w)
        if (w == 0) != (ty in ("b", "i", "I")): raise Broken("wire type of %s" % name)
        if ty == "s": m[name] = v.decode("utf-8")
        elif ty == "S": m.setdefault(name, []).append(v.decode("utf-8"))
        elif ty == "i": m[name] = signed(v)
        elif ty == "I": m.setdefault(name, []).append(signed(v))
        elif ty == "b":
            m.pop(name, None)
            if v: m[name] = 1
        elif isinstance(ty, list): m.setdefault(name, []).append(message(v, ty[0]))
        else:
            if name in m: raise Broken("field %s twice" % name)
            m[name] = message(v, ty)
    return m
def collection(b):
    return message(b, {1: ("metadata", [META])}).get("metadata", [])
def rust_bytes(text, const):
    """the byte array of `pub const NAME: [u8; N] = [..];`, the only item of the file"""
    code = re.sub(r"/\*.*?\*/", "", re.sub(r"//[^\n]*", "", text), flags=re.S)
    m = re.fullmatch(r"\s*pub\s+const\s+(\w+)\s*:\s*\[\s*u8\s*;\s*(\d+)\s*\]\s*=\s*\[([^\]]*)\]\s*;\s*", code)
    if not m: raise Broken("not one byte-array constant")
    if m[1] != const: raise Broken("constant is called %s, not %s" % (m[1], const))
    items = [x.strip() for x in m[3].split(",")]
    if items and items[-1] == "": items.pop()
    if any(not re.fullmatch(r"0x[0-9A-Fa-f]{1,2}|\d{1,3}", x) for x in items): raise Broken("not a byte literal")
    b = bytes(int(x, 0) for x in items)
    if len(b) != int(m[2]): raise Broken("declared %s bytes, %d given" % (m[2], len(b)))
    return b
def diff(want, got, path=""):
    if isinstance(want, dict) and isinstance(got, dict):
        for k in sorted(set(want) | set(got)):
            if k not in got: return "%s.%s missing (should be %r)" % (path, k, want[k])
            if k not in want: return "%s.%s is %r, should be absent" % (path, k, got[k])
            d = diff(want[k], got[k], path + "." + k)
            if d: return d
        return None
    if isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got): return "%s has %d entries, should have %d" % (path, len(got), len(want))
        for i, (x, y) in enumerate(zip(want, got)):
            name = x.get("id") or str(x.get("country_code", "")) if isinstance(x, dict) else ""
            d = diff(x, y, "%s[%d%s]" % (path, i, ":" + name if name else ""))
            if d: return d
        return None
    return None if want == got else "%s is %r, should be %r" % (path, got, want)
