"""Layout, names and order: programs of the other generators and the same programs with other white space, comments, names and declaration order have to behave the same."""
import importlib
import re

from vlib import Result

PROPERTY = "C20"
LEVEL = "exploration"
CASES = {"quick": 7500, "thorough": 25000}
RULE = ("case = a program of one of the generators for expressions, conversions, control flow, exceptions, scopes, objects, calls, overloads, dispatch, generics, operators or enums, "
        "run as generated and after a sequence of meaning preserving edits (other separators between its tokens, renamed identifiers, reordered declarations); non-trivial if the program "
        "prints at least 3 lines and at least one edit changed its text; distinct counts edited program texts")

SOURCES = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"]

TOKEN = re.compile(r"""
    (?P<space>[ \t\r\n]+ | //[^\n]* | /\*.*?\*/)
  | (?P<string>"(?:\\.|[^"\\])*")
  | (?P<number>[0-9]+(?:\.[0-9]+)?[a-z]?)
  | (?P<word>[A-Za-z_@][A-Za-z0-9_]*)
  | (?P<op>===|!==|==|!=|<=|>=|&&|\|\||\+\+|--|\+=|-=|\*=|/=|%=|&=|\|=|<<|>>|\.\.|!&|!\||\[\]|.)
""", re.X | re.S)

# words with a meaning of their own: everything else in a generated program has been declared by it
FIXED = set("""abstract assert atomic base bool break case catch const continue copy default delete deprecated double else enum exit extends false final finally float for foreach from
    if implements import int interface is modify namespace new not null nullptr notimplemented Object object operator override print private prototype protected public replicates return short
    stable static string super switch this throw throws true try typeid unstable use using value var virtual void volatile while yield
    Constructor Destructor Copy Main argc args cast int16 int32 int64 Int16 Int32 Int64 number char i d f
    String Integer Double Float Boolean Number Void List Map Set Vector Stack Queue Pair Exception System Collections getIterator hasNext next current begin end size at push_back
    strlen substr toUpper toLower writeline write ltrim rtrim find replace_one isNull
    constraint ensure require from to where in null stack trace memory rethrow unlock lock library extension unsafe
    """.split())

STEMS = ["a", "x", "n", "q_", "_", "tmp", "Value", "ifx", "forx", "newx", "thisx", "basex", "intx", "nullx", "returning", "isx", "asx", "trueish", "voidx", "objectx", "E", "publicx", "constant", "printx", "Mainx",
         "operatorx", "veryLongNameWithManyLettersInItSoThatNobodyWantsToTypeItAgain", "x0", "x00", "lX", "O0", "stringx", "elsex", "d", "f", "i"]

SPACES = [" ", "\t", "\n", "\r\n", "  ", "\n\n\t"]
CHARS = ["*", "*", "/", "/", "\"", "\"", "'", " ", "a", "0", "\\", "\n", "{", "}", ";", "#", "*\"", "\"*", "\\\"", "//", "/*", "print(1);", "(", ")", "<", ":", "\t", "\r", "@", "."]
COMMENTS = ["/* c */", "// c\n", "/**/", "/***/", "/* // */", "// /*\n", "/* \" */", "// \"\n", "//\n", "/*\n*/", "/* } ; { */", "// } ; {\n", "/* a *//* b */", "/* a *///b\n", "/*/ x */",
            "/* x /*/", "// \\\n", "/* \\*/", "# c\n", "/* 'x' */", "////\n", "//*\n", "/*//*/", "/* ** */", "// */\n", "/* + */"]


def lex(src):
    r = []
    for m in TOKEN.finditer(src):
        if m.lastgroup != "space":
            r.append((m.lastgroup, m.group()))
    return r


def rename(t, tokens):
    names = []
    for kind, text in tokens:
        if kind == "word" and text not in FIXED and text not in names:
            names.append(text)
    taken = set(names) | FIXED
    table = {}
    if any(x == "Destructor" for _, x in tokens):
        # the variables of a scope are destroyed in the order of their names, which is kept
        fresh = []
        for _ in names:
            new = t.choice(STEMS) + str(t.below(99))
            while new in taken:
                new += t.choice(["1", "a", "_", "Z"])
            taken.add(new)
            fresh.append(new)
        table = dict(zip(sorted(names), sorted(fresh)))
        return [(k, table.get(x, x) if k == "word" else x) for k, x in tokens], bool(table)
    share = t.choice([1, 2, 4])
    for n in names:
        if t.below(share) == 0:
            new = t.choice(STEMS) + t.choice(["", str(t.below(30)), "_%d" % t.below(9), "x" * t.below(4)])
            while new in taken:
                new += t.choice(["1", "a", "_", "Z"])
            taken.add(new)
            table[n] = new
    return [(k, table.get(x, x) if k == "word" else x) for k, x in tokens], bool(table)


def split(tokens):
    """declarations on the outermost level"""
    items, item, depth = [], [], 0
    for tok in tokens:
        item.append(tok)
        if tok[1] in ("{", "(", "["):
            depth += 1
        elif tok[1] in ("}", ")", "]"):
            depth -= 1
        if depth == 0 and tok[1] in (";", "}"):
            items.append(item)
            item = []
    if item:
        items.append(item)
    return items


def kind_of(item):
    head = []
    for k, x in item:
        if x in ("{", "(", ";", "="):
            break
        head.append(x)
    for w in ("namespace", "interface", "enum", "object", "import", "using"):
        if w in head:
            return w, head
    return "other", head


def reorder(t, tokens):
    items = split(tokens)
    kinds = [kind_of(i) for i in items]
    if any(k in ("namespace", "using") for k, _ in kinds):
        return tokens
    # a base has to be known first
    names = {}
    for i, (k, head) in enumerate(kinds):
        if k in ("object", "interface", "enum"):
            names[head[head.index(k) + 1]] = i
    after = {}
    for i, (k, head) in enumerate(kinds):
        after[i] = set()
        if k in ("object", "interface"):
            for w in ("extends", "implements"):
                if w in head:
                    after[i] |= {names[x] for x in head[head.index(w) + 1:] if x in names}
        if k not in ("enum", "import"):
            after[i] |= {j for j, (kk, _) in enumerate(kinds) if kk in ("enum", "import")}
    left = list(range(len(items)))
    if t.bool():
        left = t.shuffle(left)
    order = []
    while left:
        i = next(i for i in left if not (after[i] - {i} - set(order)))
        order.append(i)
        left.remove(i)
    out = []
    for i in order:
        item = items[i]
        if kinds[i][0] == "object" and ("{" in [x for _, x in item]) and t.bool():
            b = [x for _, x in item].index("{")
            members = split(item[b + 1:-1])
            members = t.shuffle(members)
            item = item[:b + 1] + [tok for m in members for tok in m] + item[-1:]
        out += item
    return out


def comment(t):
    """A comment of arbitrary characters."""
    s = "".join(t.choice(CHARS) for _ in range(t.int(0, 9)))
    if t.bool(1, 2):
        return "//" + s.replace("\n", "").rstrip("\\") + "\n"
    return "/*" + s.replace("*/", "* /") + t.choice([" */", "*/", "**/"])


def layout(t, tokens):
    dense = t.choice([0, 1, 2, 3])          # 0: as little as possible
    many = t.choice([3, 10, 60])            # one comment per so many tokens
    fixed = t.choice(SPACES + [None] * 3)
    out = [t.choice(["", "", "\n", "#!/usr/bin/env slang\n", "// head\n", "/* head */"])]
    prev = ""
    for kind, text in tokens:
        sep = ""
        if prev and (dense == 3 or (dense and t.below(3) < dense)):
            sep = fixed or t.choice(SPACES)
        if prev and t.below(many) == many - 1:
            c = t.choice(COMMENTS) if t.bool(1, 2) else comment(t)
            if c[0] == "#" or (prev[-1] == "/" and not sep):
                c = "\n" + c
            sep += c
        if prev and not sep:
            if (re.match(r"[A-Za-z0-9_@]", prev[-1]) and re.match(r"[A-Za-z0-9_@]", text[0])) or (prev[-1] == "/" and text[0] in "/*") or (prev[-1].isdigit() and text[0] == "."):
                sep = fixed or " "
        out += [sep, text]
        prev = text
    out.append(t.choice(["", "\n", " ", "// end", "/* end */", "\n\n"]))
    return "".join(out)


def gen(t):
    name = t.choice(SOURCES)
    case = importlib.import_module(name).gen(t)
    src = case.get("src") or case["generic"]
    tokens = lex(src)
    edits = []
    if t.bool(2, 3):
        tokens2 = reorder(t, tokens)
        if tokens2 != tokens:
            edits.append("order")
        tokens = tokens2
    if t.bool(2, 3):
        tokens, done = rename(t, tokens)
        if done:
            edits.append("names")
    new = layout(t, tokens) if t.bool(3, 4) or not edits else None
    if new is None:
        new = " ".join(x for _, x in tokens)
    else:
        edits.append("layout")
    return {"source": name, "old": src, "new": new, "edits": edits}


def outcome(got):
    out = got.out
    i = out.find(b"Stack trace:\n")
    return (out if i < 0 else out[:i], got.rc)


def run(case, env):
    a = env.slang(case["old"])
    if a.timeout:
        return Result(None, False, case["new"], {"timeout": 1})
    b = env.slang(case["new"])
    if b.timeout:
        return Result("does not end after changing %s (%s): %s" % (", ".join(case["edits"]), case["source"], b.describe()), True, case["new"])
    labels = {"source=" + case["source"]: 1}
    for e in case["edits"]:
        labels["edit=" + e] = 1
    x, y = outcome(a), outcome(b)
    failure = None
    if x != y:
        failure = "different behaviour after changing %s (%s)\nbefore %s\nafter  %s" % (", ".join(case["edits"]), case["source"], a.describe(), b.describe())
    return Result(failure, x[0].count(b"\n") >= 3 and case["old"] != case["new"], case["new"], labels)


def render(case):
    return "// before (%s)\n%s\n// after changing %s\n%s" % (case["source"], case["old"], ", ".join(case["edits"]), case["new"])
