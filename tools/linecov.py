"""lines of /repo/enterprise that no instance executes symbolically; branches taken one way only.
usage: VERIF_LINES=DIR run all checks, then python3 tools/linecov.py DIR"""
import ast, dis, glob, json, os, sys

R = os.environ.get("VERIF_REPO", "/repo")
lines, br = set(), {}
for f in glob.glob(sys.argv[1] + "/*.json"):
    a, b = json.load(open(f))
    lines |= {tuple(x) for x in a}
    for p, q, fl, off, dest in b:
        br.setdefault((p, q, fl, off), set()).add(dest)


def codes(c):
    yield c
    for k in c.co_consts:
        if hasattr(k, "co_code"):
            yield from codes(k)


for path in sorted({p for p, _ in lines}):
    full = os.path.join(R, path)
    src = open(full).read()
    text = src.split("\n")
    have = {l for p, l in lines if p == path}
    print("=====", path)
    top = compile(src, full, "exec")
    for c in codes(top):
        if c is top:
            continue
        ls = sorted({l for _, _, l in c.co_lines() if l})
        miss = [l for l in ls if l not in have and l != c.co_firstlineno]
        if miss and len(miss) >= len(ls) - 1:
            print("  NOT RUN %s (%d lines)" % (c.co_qualname, len(ls)))
        elif miss:
            for l in miss:
                print("  %d %s: %s" % (l, c.co_qualname.split(".")[-1], text[l - 1].strip()[:110]))
        off2line = {}
        for s, e, l in c.co_lines():
            for o in range(s, e, 2):
                off2line[o] = l
        for (p, q, fl, off), dests in sorted(br.items()):
            if p == path and q == c.co_qualname and fl == c.co_firstlineno and len(dests) == 1:
                l = off2line.get(off)
                op = [i for i in dis.get_instructions(c) if i.offset == off]
                if op and "FOR_ITER" not in op[0].opname and l:
                    d = next(iter(dests))
                    print("  %d %s: one way (%s -> line %s): %s" % (l, c.co_qualname.split(".")[-1], op[0].opname, off2line.get(d), text[l - 1].strip()[:100]))
