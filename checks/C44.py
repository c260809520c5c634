"""JSON builders: documents assembled step by step by several builders at the same time are well-formed and contain exactly what was added."""
import json
import re

import nat
import strs
from vlib import Result

PROPERTY = "C44"
LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 60000}
RULE = ("case = 1 to 4 builders of the three kinds used alternately; each gets up to 25 members, values, arrays and objects nested up to 5 deep, with values of all types and texts with quotes, backslashes and blanks, "
        "and is asked for its text in between and at the end; an independent JSON parser must read exactly the added members in their order, styled texts are indented by depth; non-trivial if something is nested or a text needs escaping; distinct counts programs")

TYPES = {"Structured": ["bool", "int", "double", "float", "string"], "Styled": ["bool", "int", "double", "float", "string"], "Plain": ["bool", "int", "string"]}
VALUES = {"Structured": ["bool", "int", "double", "float", "string"], "Styled": ["bool", "int", "string"], "Plain": ["bool", "int", "string"]}


class Builder:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.root = ["{", []]
        self.stack = [self.root]

    def call(self, f, args):
        if self.kind == "Structured":
            f = f[0].upper() + f[1:]
        return "%s.%s(%s);" % (self.name, f, ", ".join(args))


def value(t, types):
    ty = t.choice(types)
    if ty == "string":
        s = strs.gen_text(t).replace("\n", " ").replace("\t", " ")
        return strs.lit(s), s
    if ty == "int":
        v = nat.gen_int(t, "int")
        return (str(v) if v > -2147483648 else "-2147483647 - 1"), v
    v = nat.gen_value(t, ty)
    return nat.literal(v, ty), (float(nat.text(v, ty)) if ty != "bool" else int(v))


def step(t, b, lines, labels):
    where, items = b.stack[-1]
    key = []
    if where == "{":
        s = strs.gen_text(t).replace("\n", " ").replace("\t", " ") if t.bool() else t.choice(["a", "b", "key", "name"])
        key = [s]
    k = t.weighted([(8, "add"), (3, "begin"), (3, "end"), (1, "raw")])
    if k == "end" and len(b.stack) > 1:
        b.stack.pop()
        lines.append(b.call("endObject" if where == "{" else "endArray", []))
        return
    args = [strs.lit(x) for x in key]
    if k == "begin" and len(b.stack) < 6:
        kind = t.choice(["{", "["])
        node = [kind, []]
        items.append((key[0], node) if key else node)
        b.stack.append(node)
        labels["nested"] = 1
        lines.append(b.call("beginObject" if kind == "{" else "beginArray", args))
        return
    if k == "raw" and b.kind == "Structured":
        text, v = t.choice([("{\\\"x\\\": [1]}", ["{", [("x", ["[", [1]])]]), ("[]", ["[", []]), ("12", 12)])
        items.append((key[0], v) if key else v)
        lines.append(b.call("addObject", args + ["\"%s\"" % text]))
        return
    text, v = value(t, TYPES[b.kind] if key else VALUES[b.kind])
    if isinstance(v, str) and ("\"" in v or "\\" in v):
        labels["escaped"] = 1
    items.append((key[0], v) if key else v)
    lines.append(b.call("addElement" if key else "addValue", args + [text]))


def ask(b, lines, docs, styled, end="----"):
    lines.append("print(%s.%s());" % (b.name, "GetString" if b.kind == "Structured" else "getString"))
    lines.append("print(\"%s\");" % end)
    docs.append(json.dumps(b.root))
    styled.append(b.kind == "Styled")


def gen(t):
    builders, lines, docs, styled, labels = [], [], [], [], {}
    for i in range(t.int(1, 4)):
        kind = t.choice(["Structured", "Styled", "Plain"])
        if kind == "Structured":
            if any(b.kind == kind for b in builders):
                kind = "Styled"
            else:
                builders.append(Builder(kind, "Json"))
                continue
        builders.append(Builder(kind, "b%d" % i))
        lines.append("var b%d = new Json.%s();" % (i, "Builder" if kind == "Plain" else "StyledBuilder"))
    for _ in range(t.int(1, 25 * len(builders))):
        b = t.choice(builders)
        step(t, b, lines, labels)
        if len(b.stack) == 1 and t.bool(1, 12):
            ask(b, lines, docs, styled)
    for b in builders:
        while len(b.stack) > 1:
            w = b.stack.pop()[0]
            lines.append(b.call("endObject" if w == "{" else "endArray", []))
        ask(b, lines, docs, styled)
    src = ("import libJsonBuilder.Builder;\nimport libJsonBuilder.StructuredBuilder;\nimport libJsonBuilder.StyledBuilder;\n\n"
           "public int Main(int argc, string args) modify throws {\n\t%s\n\treturn 0;\n}\n" % "\n\t".join(lines))
    return {"source": src, "docs": docs, "styled": styled, "rich": bool(labels), "labels": labels}


def plain(d):
    """The document in the form the parser below delivers."""
    if isinstance(d, list):
        if d[0] == "{":
            return ("{", [(k, plain(v)) for k, v in d[1]])
        return ("[", [plain(v) for v in d[1]])
    return d


def parsed(d):
    if isinstance(d, tuple):
        return ("{", [(k, parsed(v)) for k, v in d[1]])
    if isinstance(d, list):
        return ("[", [parsed(v) for v in d])
    return d


def indentation(s):
    """None or the first line of a well-formed text that is not indented by a multiple of its depth."""
    unit, depth = None, 0
    for line in s.split("\n"):
        body = line.lstrip(" ")
        rest = re.sub(r'"(\\.|[^"\\])*"', "", body)
        at = depth - (rest[:1] in "]}" if rest else 0)
        if rest[:1] in "[{]}:" and rest:        # plain values of arrays are not indented
            width = len(line) - len(body)
            if unit is None and at == 1:
                unit = width
            if width != at * (unit or 0):
                return line
        depth += len(re.findall(r"[\[{]", rest)) - len(re.findall(r"[\]}]", rest))
    return None


def run(case, env):
    got = env.slang(case["source"])
    texts = got.out.decode("latin-1").split("\n----\n")
    failure = None
    if got.rc or texts[-1] or len(texts) != len(case["docs"]) + 1:
        failure = {"what": "exit status %d or incomplete output" % got.rc, "got": got.describe()}
    for s, want, styled in zip(texts, case["docs"], case["styled"]):
        if failure:
            break
        want = plain(json.loads(want))
        try:
            have = parsed(json.loads(s, object_pairs_hook=lambda p: ("{", p)))
        except ValueError as e:
            failure = {"what": "the text is not JSON: %s" % e, "text": s}
            break
        if have != want:
            failure = {"what": "the document differs", "text": s, "expected": repr(want), "got": repr(have)}
        elif styled and indentation(s) is not None:
            failure = {"what": "a line is not indented by its depth", "line": indentation(s), "text": s}
    return Result(failure, case["rich"], case["source"], labels=case["labels"])


def render(case):
    return case["source"] + "\n// documents\n" + "\n".join(case["docs"]) + "\n"
