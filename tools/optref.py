"""Set the options of reference definitions: optref.edit(path, {name: (rule, "options")}, drop=[names], default_rule=None)."""
import re


def edit(path, opts, drop=()):
    out, cls, block = [], None, None
    lines = open(path).read().split("\n")
    i = 0
    blocks, cur = [], []
    for ln in lines:
        if re.match(r"\s{0,4}@ref|class |import |from ", ln):
            blocks.append(cur)
            cur = []
        cur.append(ln)
    blocks.append(cur)
    for b in blocks:
        t = "\n".join(b)
        m = re.match(r"class (\w+):", t)
        if m:
            cls = m.group(1)
        m = re.match(r"(\s*)@(ref[.\w]*)\('([^']*)'.*\)\n\s*def (\w+)", t)
        if m:
            if not m.group(1):
                cls = None
            name = f"{cls}.{m.group(4)}" if cls else m.group(4)
            if m.group(2).endswith("setter"):
                name += ".setter"
            if name in drop or opts.get(name, 0) is None:
                continue
            if name in opts:
                rule, o = opts[name]
                b[0] = f"{m.group(1)}@{m.group(2)}({rule!r}{', ' + o if o else ''})"
        out += b
    open(path, "w").write("\n".join(out))
