#!/usr/bin/env python3
"""Writes methods(_test).go: methods with misleading results for the named types of the generators.

What micro does with a value depends on the value, not on methods its type happens to have."""
import glob, os, re, subprocess

HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness")
TYPES = {
    "p/c05": "MyInt MyInt8 MyInt64 MyUint MyUint16 MyF32 MyF64",
    "p/c06": "MyInt MyInt8 MyInt64 MyUint MyUint16 MyF32 MyF64",
    "p/c07": "MyInt8 MyUint MyF64 MyStr MyCmplx diff",
    "p/c14": "subString subInt subFloat",
    "p/c04": "myString",
    "p/c17": "alike celsius diff name z64",
    "p/c19": "diff f32 f64 i32 i64 i8 u64 u8",
    "p/c22": "diff id label sameName temp z64 named* matrix* cube*",
    "p/c23": "word",
    "p/c24": "val val2",
    "p/c26": "named point* slice* myErr",
    "p/c27": "Bool Int Int8 Int16 Int32 Int64 Uint Uint8 Uint16 Uint32 Uint64 Uptr Float32 Float64 Cx64 Cx128 String Strings* Map* Chan",
    "p/c28": "Named Temp Word myErr",
    "convx": "",
    "typex": "named pair* wrapped",
}
METHODS = {  # name: (pointer receiver, signature, body)
    "Equal": ("", "(T) bool", "return true"),
    "Less": ("", "(T) bool", "return true"),
    "Compare": ("", "(T) int", "return 1"),
    "Cmp": ("", "(T) int", "return 1"),
    "IsZero": ("", "() bool", "ZERO"),
    "IsNil": ("", "() bool", "return true"),
    "Empty": ("", "() bool", "return true"),
    "IsEmpty": ("", "() bool", "return true"),
    "Present": ("", "() bool", "return false"),
    "Valid": ("", "() bool", "return false"),
    "Is": ("", "(error) bool", "return true"),
    "Len": ("", "() int", "return 0"),
    "Hash": ("", "() uint64", "return 0"),
    "Key": ("", "() string", 'return "key"'),
    "Sign": ("", "() int", "return 0"),
    "Abs": ("", "() (z T)", "return"),
    "Clone": ("", "() (z T)", "return"),
    "Copy": ("", "() (z T)", "return"),
    "Get": ("", "() (z T)", "return"),
    "Int64": ("", "() (int64, error)", "return 1, nil"),
    "Float64": ("", "() (float64, error)", "return 1, nil"),
    "Value": ("", "() (any, error)", "return nil, nil"),
    "MarshalText": ("", "() ([]byte, error)", 'return []byte("1"), nil'),
    "MarshalJSON": ("", "() ([]byte, error)", 'return []byte("1"), nil'),
    "String": ("", "() string", "STRING"),
    "UnmarshalText": ("*", "([]byte) error", "return nil"),
    "UnmarshalJSON": ("*", "([]byte) error", "return nil"),
    "Scan": ("*", "(any) error", "return nil"),
    "Set": ("*", "(string) error", "return nil"),
    "Close": ("*", "() error", "return nil"),
}
for pkg, types in TYPES.items():
    if not types:
        continue
    test = pkg.startswith("p/")
    out = os.path.join(HARNESS, pkg, "methods_test.go" if test else "methods.go")
    src = "".join(open(f).read() for f in glob.glob(os.path.join(HARNESS, pkg, "*.go")) if f != out)
    name = re.search(r"^package (\w+)", src, re.M).group(1)
    s = "package %s\n\n// Code generated by tools/methods.py; DO NOT EDIT.\n\n// Methods that are not what decides about the values of their types\n" % name
    for typ in types.split():
        comparable, typ = not typ.endswith("*"), typ.rstrip("*")
        for m, (ptr, sig, body) in METHODS.items():
            if re.search(r"^func \((\w+ )?\*?%s\) %s\(" % (typ, m), src, re.M):
                continue
            if re.search(r"type %s struct *\{[^}]*\b%s\b" % (typ, m), src):
                continue
            if body == "STRING":  # still tells values apart, so that cases can be counted
                kind = re.search(r"^(?:type |\t)%s +(u?int\d*|float\d+|complex\d+|bool|string|uintptr)$" % typ, src, re.M)
                if not kind or re.search(r"^type %s struct" % typ, src, re.M):
                    continue
                body = 'return fmt.Sprint("1", %s(s))' % kind[1]
            if body == "ZERO":
                body = "var z %s\n return s != z" % typ if comparable else "return true"
            s += "func (s %s%s) %s%s { %s }\n" % (ptr, typ, m, re.sub(r"\bT\b", typ, sig), body)
        s += "\n"
    if "fmt." in s:
        s = s.replace("DO NOT EDIT.\n\n", 'DO NOT EDIT.\n\nimport "fmt"\n\n', 1)
    open(out, "w").write(subprocess.run(["gofmt"], input=s, capture_output=True, text=True, check=True).stdout)
