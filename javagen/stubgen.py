#!/usr/bin/env python3
"""Writes Phonemetadata.java, a stand-in for what protoc + protobuf-java (not available offline) would give, from the
repository's phonemetadata.proto: immutable messages with builders, and the standard wire format (fields in number
order, repeated scalars unpacked as proto2 has it). usage: stubgen.py PROTO OUTDIR"""
import re, sys, os

def parse(src):
    src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
    src = re.sub(r"//[^\n]*", "", src)
    pkg = re.search(r'option\s+java_package\s*=\s*"([^"]+)"', src)
    msgs = []
    for m in re.finditer(r"message\s+(\w+)\s*\{(.*?)\}", src, re.S):
        fields = []
        for f in re.finditer(r"(required|optional|repeated)\s+(\w+)\s+(\w+)\s*=\s*(\d+)\s*(\[[^\]]*\])?\s*;", m[2]):
            fields.append((f[1], f[2], f[3], int(f[4])))
        msgs.append((m[1], fields))
    return pkg[1], msgs

SCALAR = {"string": ("String", '""'), "bool": ("boolean", "false"), "int32": ("int", "0")}
BOX = {"String": "String", "boolean": "Boolean", "int": "Integer"}
def camel(n):
    p = n.split("_")
    return "".join(x[:1].upper() + x[1:] for x in p)

def gen(pkg, msgs):
    names = {m for m, _ in msgs}
    o = ["package %s;" % pkg, "import java.io.*;", "import java.util.*;", "public final class Phonemetadata {", " private Phonemetadata() {}", """
 static void varint(ByteArrayOutputStream o, long v) { while ((v & ~0x7fL) != 0) { o.write((int) (v & 0x7f) | 0x80); v >>>= 7; } o.write((int) v); }
 static void tag(ByteArrayOutputStream o, int n, int w) { varint(o, ((long) n << 3) | w); }
 static void str(ByteArrayOutputStream o, int n, String s) { tag(o, n, 2); byte[] b; try { b = s.getBytes("UTF-8"); } catch (UnsupportedEncodingException e) { throw new RuntimeException(e); } varint(o, b.length); o.write(b, 0, b.length); }
 static void num(ByteArrayOutputStream o, int n, int v) { tag(o, n, 0); varint(o, (long) v); }
 static void bool(ByteArrayOutputStream o, int n, boolean v) { tag(o, n, 0); o.write(v ? 1 : 0); }
 static void sub(ByteArrayOutputStream o, int n, byte[] b) { tag(o, n, 2); varint(o, b.length); o.write(b, 0, b.length); }
 static <T> T nn(T t) { if (t == null) throw new NullPointerException(); return t; }
 static final class UninitializedMessageException extends RuntimeException { UninitializedMessageException(String m) { super("Message missing required fields: " + m); } }
"""]
    for name, fields in msgs:
        fs = []
        for lab, ty, fn, num in sorted(fields, key=lambda f: f[3]):
            jt = SCALAR[ty][0] if ty in SCALAR else ty
            dflt = SCALAR[ty][1] if ty in SCALAR else ty + ".getDefaultInstance()"
            fs.append((lab, ty, camel(fn), num, jt, BOX.get(jt, jt), dflt, fn))
        o.append(f" public interface {name}OrBuilder {{")
        for lab, ty, C, num, jt, bx, d, fn in fs:
            if lab == "repeated": o.append(f"  List<{bx}> get{C}List(); int get{C}Count(); {jt} get{C}(int i);")
            else: o.append(f"  boolean has{C}(); {jt} get{C}();")
        o.append(" }")
        def decl(own):
            r = []
            y = "sync(); " if own else ""
            for lab, ty, C, num, jt, bx, d, fn in fs:
                r.append(f"  private List<{bx}> f{C} = {'new ArrayList<>()' if own else 'Collections.emptyList()'};" if lab == "repeated" else f"  private {bx} f{C};")
                if lab == "repeated":
                    r.append(f"  public List<{bx}> get{C}List() {{ {y}return Collections.unmodifiableList({'new ArrayList<>(f%s)' % C if own else 'f' + C}); }} public int get{C}Count() {{ return f{C}.size(); }} public {jt} get{C}(int i) {{ {y}return f{C}.get(i); }}")
                else:
                    r.append(f"  public boolean has{C}() {{ {y}return f{C} != null; }} public {jt} get{C}() {{ {y}return f{C} != null ? f{C} : {d}; }}")
            r.append("  public boolean isInitialized() { " + y + "return true" + "".join(f" && f{C} != null" for lab, ty, C, *_ in fs if lab == "required") + "; }")
            return r
        o.append(f" public static final class {name} implements {name}OrBuilder {{")
        o += decl(False)
        o.append(f"  private static final {name} DEFAULT = new {name}();")
        o.append(f"  private {name}() {{}}")
        o.append(f"  public static {name} getDefaultInstance() {{ return DEFAULT; }} public {name} getDefaultInstanceForType() {{ return DEFAULT; }}")
        o.append(f"  public static Builder newBuilder() {{ return new Builder(); }} public static Builder newBuilder({name} p) {{ return new Builder().mergeFrom(p); }} public Builder toBuilder() {{ return newBuilder(this); }} public Builder newBuilderForType() {{ return new Builder(); }}")
        o.append("  public byte[] toByteArray() { ByteArrayOutputStream o = new ByteArrayOutputStream();")
        for lab, ty, C, num, jt, bx, d, fn in fs:
            k = {"string": "str(o, %d, %s);", "bool": "bool(o, %d, %s);", "int32": "num(o, %d, %s);"}.get(ty, "sub(o, %d, %s.toByteArray());")
            o.append(f"   for ({bx} x : f{C}) " + k % (num, "x") if lab == "repeated" else f"   if (f{C} != null) " + k % (num, f"f{C}"))
        o.append("   return o.toByteArray(); }")
        o.append("  public void writeTo(OutputStream s) throws IOException { s.write(toByteArray()); } public int getSerializedSize() { return toByteArray().length; }")
        o.append(f"  @Override public boolean equals(Object x) {{ return x instanceof {name} && Arrays.equals(toByteArray(), (({name}) x).toByteArray()); }} @Override public int hashCode() {{ return Arrays.hashCode(toByteArray()); }} @Override public String toString() {{ return \"{name}\" + Arrays.toString(toByteArray()); }}")
        o.append(f"  public static final class Builder implements {name}OrBuilder, Cloneable {{")
        o += ["  " + l for l in decl(True)]
        o.append("   private Builder() {}")
        # nested builders stay live, as in protobuf-java; sync() brings their state into the fields
        ms = [(lab, ty, C) for lab, ty, C, *_ in fs if ty in names]
        for lab, ty, C in ms: o.append(f"   private final Map<Integer, {ty}.Builder> b{C} = new TreeMap<>();" if lab == "repeated" else f"   private {ty}.Builder b{C};")
        o.append("   private void sync() {" + " ".join(f"for (Map.Entry<Integer, {ty}.Builder> e : b{C}.entrySet()) f{C}.set(e.getKey(), e.getValue().buildPartial());" if lab == "repeated" else f"if (b{C} != null) f{C} = b{C}.buildPartial();" for lab, ty, C in ms) + " }")
        for lab, ty, C in ms:
            if lab == "repeated": o.append(f"   public {ty}.Builder get{C}Builder(int i) {{ return b{C}.computeIfAbsent(i, k -> f{C}.get(k).toBuilder()); }} public {ty}.Builder add{C}Builder() {{ f{C}.add({ty}.newBuilder().buildPartial()); return get{C}Builder(f{C}.size() - 1); }} public List<{ty}.Builder> get{C}BuilderList() {{ List<{ty}.Builder> l = new ArrayList<>(); for (int i = 0; i < f{C}.size(); i++) l.add(get{C}Builder(i)); return l; }}")
            else: o.append(f"   public {ty}.Builder get{C}Builder() {{ if (b{C} == null) b{C} = f{C} == null ? {ty}.newBuilder() : f{C}.toBuilder(); return b{C}; }}")
        for lab, ty, C, num, jt, bx, d, fn in fs:
            msg = ty in names
            if lab == "repeated":
                z = f"sync(); b{C}.clear(); " if msg else ""
                o.append(f"   public Builder add{C}({jt} v) {{ f{C}.add(nn(({bx}) v)); return this; }} public Builder addAll{C}(Iterable<? extends {bx}> v) {{ for ({bx} x : v) f{C}.add(nn(x)); return this; }} public Builder set{C}(int i, {jt} v) {{ {z}f{C}.set(i, nn(({bx}) v)); return this; }} public Builder clear{C}() {{ {z}f{C} = new ArrayList<>(); return this; }}")
                if msg: o.append(f"   public Builder add{C}({ty}.Builder v) {{ return add{C}(v.build()); }} public Builder add{C}(int i, {ty} v) {{ {z}f{C}.add(i, nn(v)); return this; }} public Builder add{C}(int i, {ty}.Builder v) {{ {z}f{C}.add(i, v.build()); return this; }} public Builder set{C}(int i, {ty}.Builder v) {{ f{C}.set(i, v.build()); return this; }} public Builder remove{C}(int i) {{ {z}f{C}.remove(i); return this; }}")
            else:
                z = f"b{C} = null; " if msg else ""
                o.append(f"   public Builder set{C}({jt} v) {{ {z}f{C} = nn(({bx}) v); return this; }} public Builder clear{C}() {{ {z}f{C} = null; return this; }}")
                if msg: o.append(f"   public Builder set{C}({ty}.Builder v) {{ return set{C}(v.build()); }} public Builder merge{C}({ty} v) {{ sync(); {z}f{C} = f{C} == null ? v : {ty}.newBuilder(f{C}).mergeFrom(v).build(); return this; }}")
        o.append(f"   public Builder mergeFrom({name} p) {{ if (p == {name}.getDefaultInstance()) return this; sync();")
        for lab, ty, C, num, jt, bx, d, fn in fs:
            if lab == "repeated": o.append(f"    f{C}.addAll(p.f{C});")
            elif ty in names: o.append(f"    if (p.f{C} != null) merge{C}(p.f{C});")
            else: o.append(f"    if (p.f{C} != null) f{C} = p.f{C};")
        o.append("    return this; }")
        o.append(f"   public {name} buildPartial() {{ sync(); {name} p = new {name}();")
        for lab, ty, C, *_ in fs:
            o.append(f"    p.f{C} = new ArrayList<>(f{C});" if lab == "repeated" else f"    p.f{C} = f{C};")
        o.append("    return p; }")
        o.append(f"   public {name} build() {{ if (!isInitialized()) throw new UninitializedMessageException(\"{name}\"); return buildPartial(); }}")
        o.append(f"   public Builder clear() {{ " + " ".join(f"clear{C}();" for lab, ty, C, *_ in fs) + f" return this; }} @Override public Builder clone() {{ return new Builder().mergeFrom(buildPartial()); }} public {name} getDefaultInstanceForType() {{ return {name}.getDefaultInstance(); }}")
        o.append("  }\n }")
    o.append("}")
    return "\n".join(o)

if __name__ == "__main__":
    pkg, msgs = parse(open(sys.argv[1], encoding="utf-8").read())
    d = os.path.join(sys.argv[2], *pkg.split("."))
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "Phonemetadata.java"), "w").write(gen(pkg, msgs))
