# Writes harness/hidden_types.go: structs with every pattern of encoded,
# json:"-" and unexported fields.
import itertools
kinds = [("int8", "7"), ("string", '"s"'), ("[]string", '[]string{"x", ""}'), ("*int", "newInt(5)")]
odd = ["chan int", "func()", "float64", "map[int]int", "complex128", "error", "[][]string", "struct{ F float32 }"]
out = ["package main", "", "// Code generated by tools/gen_hidden.py. DO NOT EDIT.", "", "func newInt(n int) *int { return &n }", "", "type ("]
names = []
n = 0
for pat in itertools.product("EDU", repeat=4):
    if set(pat) == {"E"}:
        pass
    f = []
    for i, (p, (k, _)) in enumerate(zip(pat, kinds)):
        # what isn't encoded may be of any kind
        t = k if p == "E" else odd[(n + i) % len(odd)] if n % 2 else k
        f.append("%s%d %s%s" % ("f" if p == "U" else "F", i, t, ' `json:"-"`' if p == "D" else ""))
    name = "Hid" + "".join(pat)
    names.append(name)
    out.append("\t%s struct {\n%s\n\t}" % (name, "\n".join("\t\t" + x for x in f)))
    n += 1
out.append(")")
out.append("")
out.append("var hiddenTypes = []interface{}{" + ", ".join(x + "{}" for x in names) + "}")
open("harness/hidden_types.go", "w").write("\n".join(out) + "\n")
