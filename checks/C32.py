"""Command-line parameters: generated argument lists passed on the command line or as text, queried through the parameter library."""
from vlib import Result, compare_output

PROPERTY = "C32"
LEVEL = "exploration"
CASES = {"quick": 7500, "thorough": 40000}
RULE = ("case = argument list of 0 to 8 arguments (keys with no, one, two or three dashes, values, empty keys and values, blanks, quotes, escapes, equal signs in values, repeated keys) that is either given to the "
        "program on its command line or as quoted text, and 3 to 12 queries by position, key, iteration, removal; non-trivial if at least two arguments are given and one has a value; "
        "distinct counts programs and argument lists")

KEYS = ["a", "b", "key", "long-key", "false", "0", "x.y", "", "K", "true"]
VALUES = ["", "1", "v", "true", "false", "a=b", "=", "-1", "--x", "/p/q.os", "k=v=w"]
BLANKS = ["two words", " lead", "a  b"]


def quoted(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


def gen(t):
    real = t.bool(2, 3)
    args, model = [], []
    for _ in range(t.int(0, 8)):
        key = t.choice(KEYS)
        dashes = t.choice(["", "-", "--", "--", "---"])
        has = t.bool()
        value = t.choice(VALUES if t.bool(3, 4) else BLANKS) if has else ""
        if not dashes and t.bool(1, 6):
            key = t.choice(BLANKS)
        if t.bool(1, 8) and has:
            value = t.choice(['q"q', "back\\slash", '"', "\\\\"])
        full = dashes + key
        if not real and full == "" and not has:
            full = key = "e"
        # quotes group, a backslash takes away the meaning of a quote or backslash
        k, v = quoted(full), quoted(value)
        if (" " in full and (not real)) or t.bool(1, 10):
            k = '"%s"' % k
        if (" " in value and not real) or t.bool(1, 10):
            v = '"%s"' % v
        args.append(k + ("=" + v if has else ""))
        name = full[2:] if full.startswith("--") else full[1:] if full.startswith("-") else full
        model.append([name, value])
    prog = "main.os" if real else t.choice(["p.os", "./p.os", "/x/y/p.os", "d/p.os"])
    withdir = t.bool()
    if real:
        text, argc = "args", "argc"
    else:
        sep = t.choice([" ", "  "])
        text, argc = '"%s"' % quoted(sep.join([prog] + args)), str(len(args) + 1)
    lines, out = ["ParameterHandler p = new ParameterHandler(%s, %s%s);" % (argc, text, "" if withdir and t.bool() else ", true" if withdir else ", false")], []
    lines.append("print(p.size());")
    out.append(len(model))
    now = [list(m) for m in model]
    keys = [m[0] for m in model] + ["missing", "a", ""]
    held = []
    for n in range(t.int(3, 12)):
        k = t.weighted([(3, "at"), (3, "key"), (2, "contains"), (2, "all"), (2, "remove"), (1, "hold"), (1, "removeref"), (1, "state"), (1, "name")])
        if k == "at":
            i = t.int(0, len(now))
            lines.append('try { print("[" + p[%d].Key + "|" + p[%d].Value + "]"); } catch { print("none"); }' % (i, i))
            out.append("[%s|%s]" % tuple(now[i]) if i < len(now) else "none")
        elif k == "key":
            key = t.choice(keys)
            m = next((m for m in now if m[0] == key), None)
            lines.append('try { print("[" + p["%s"].Key + "|" + cast<string>(p["%s"]) + "]"); } catch { print("none"); }' % (quoted(key), quoted(key)))
            out.append("[%s|%s]" % tuple(m) if m else "none")
        elif k == "contains":
            key = t.choice(keys)
            lines.append('print(p.contains("%s"));' % quoted(key))
            out.append(int(any(m[0] == key for m in now)))
        elif k == "all":
            lines.append("foreach ( Parameter x : p ) { print(x.toString()); }")
            out += ["Parameter { Key: '%s', Value: '%s' }" % tuple(m) for m in now]
        elif k == "remove":
            key = t.choice(keys)
            i = next((i for i, m in enumerate(now) if m[0] == key), None)
            lines.append('print(p.remove("%s"));' % quoted(key))
            out.append(int(i is not None))
            if i is not None:
                del now[i]
        elif k == "hold" and now:
            i = t.below(len(now))
            lines.append("Parameter h%d = p[%d];" % (n, i))
            held.append((n, now[i]))
        elif k == "removeref" and held:
            n, m = t.choice(held)
            i = next((i for i, x in enumerate(now) if x is m), None)
            lines.append("print(p.remove(h%d)); print(h%d.Key);" % (n, n))
            out += [int(i is not None), m[0]]
            if i is not None:
                del now[i]
        elif k == "name" and not real:
            lines.append("print(p.programName()); print(p.directoryName());")
            out += [prog, "" if withdir else prog[:prog.rfind("/") + 1]]
        else:
            lines.append("print(p.size()); print(p.empty());")
            out += [len(now), int(not now)]
    src = "import libParam.All;\n\npublic int Main(int argc, string args) modify throws {\n\t%s\n\treturn 0;\n}\n" % "\n\t".join(lines)
    return {"source": src, "args": args if real else [], "expected": [str(o) for o in out], "nontrivial": len(model) > 1 and any(m[1] for m in model), "labels": {"command line" if real else "text": 1}}


def render(case):
    return case["source"] + "\n// arguments: %r\n// expected\n%s\n" % (case["args"], "\n".join(case["expected"]))


def run(case, env):
    got = env.slang(case["source"], args=case["args"])
    return Result(compare_output("\n".join(case["expected"]) + "\n", 0, got), case["nontrivial"], repr((case["source"], case["args"])), case["labels"])
