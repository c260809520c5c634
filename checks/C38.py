"""Delimited text files: generated tables written as text and read back with the CSV library."""
from vlib import Result, compare_output

PROPERTY = "C38"
LEVEL = "exploration"
CASES = {"quick": 4500, "thorough": 20000}
RULE = ("case = one or two tables of 0 to 12 rows of 1 to 6 cells (empty, numbers, words, blanks, `false`, long cells; rows of different lengths, last line terminated or not) and a program "
        "querying row and column counts, single cells, rows, header, column indices, iteration and indices outside the table; non-trivial if a table has two rows with several cells; "
        "distinct counts tables and programs")

CELLS = ["", "a", "b", "0", "12", "-3.5", "two words", " ", "false", "true", "{x}", "\"q\"", ";", "\t", "ü", "x" * 300, "a.b"]


def table(t):
    width = t.int(1, 6)
    rows = []
    for _ in range(t.int(0, 12)):
        n = width if t.bool(5, 6) else t.int(1, 6)
        rows.append([t.choice(CELLS) for _ in range(n)])
    return rows


def rowtext(row):
    """Text of a row: cells joined by a bar, which is left out as long as there is no text yet."""
    s = ""
    for c in row:
        if s.strip(" ").lower() not in ("", "false"):
            s += " | "
        s += c
    return s


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


def queries(t, r, rows, lines, out):
    for _ in range(t.int(2, 10)):
        k = t.weighted([(2, "size"), (5, "cell"), (2, "row"), (2, "foreach"), (2, "cells"), (1, "header"), (2, "index"), (2, "outside"), (1, "columns")])
        if k == "size":
            lines.append("print(%s.size());" % r)
            out.append(str(len(rows)))
        elif k == "outside":
            i = t.choice([len(rows), len(rows) + 1, -1])
            lines.append('try { print(cast<string>(%s)); } catch { print("outside"); }' % t.choice(["%s.at(%d)" % (r, i), "%s[%d]" % (r, i)]))
            out.append("outside")
        elif not rows:
            continue
        elif k == "cell":
            i = t.below(len(rows))
            j = t.below(len(rows[i]))
            lines.append('print("[" + %s.at(%d) + "]");' % (t.choice(["%s.at(%d)" % (r, i), "%s[%d]" % (r, i)]), j))
            out.append("[" + rows[i][j] + "]")
        elif k == "row":
            i = t.below(len(rows))
            lines.append("print(cast<string>(%s[%d]));" % (r, i))
            out.append(rowtext(rows[i]))
        elif k == "foreach":
            lines.append("foreach ( Row row : %s ) { print(row.size()); print(cast<string>(row)); }" % r)
            for row in rows:
                out += [str(len(row)), rowtext(row)]
        elif k == "cells":
            lines.append('for ( int i = 0; i < %s.size(); i++ ) { Row row = %s.at(i); for ( int j = 0; j < row.size(); j++ ) { print("" + i + "," + j + "=" + row.at(j)); } }' % (r, r))
            for i, row in enumerate(rows):
                for j, c in enumerate(row):
                    out.append("%d,%d=%s" % (i, j, c))
        elif k == "header":
            lines.append("print(cast<string>(%s.header()));" % r)
            out.append(rowtext(rows[0]))
        elif k == "columns":
            lines.append('try { print(%s.header().at(%d)); } catch { print("outside"); }' % (r, len(rows[0])))
            out.append("outside")
        else:
            c = t.choice(CELLS)
            i = t.below(len(rows))
            lines.append('print(%s.at(%d).getIdx("%s"));' % (r, i, esc(c)))
            out.append(str(rows[i].index(c) if c in rows[i] else -1))


def content(t, rows):
    s = "\n".join(",".join(r) for r in rows)
    if rows and (t.bool() or rows[-1] == [""]):
        s += "\n"
    return s


def gen(t):
    a, b = table(t), table(t)
    files = {"a.csv": content(t, a), "b.csv": content(t, b)}
    lines, out = [], []
    how = t.below(4)
    rows = list(a)
    if how == 0:
        lines.append('CSVReader r = new CSVReader("a.csv");')
    elif how == 1:
        lines.append('CSVReader r = new CSVReader("a.csv", true);')
        rows = rows[:1]
    else:
        lines.append("CSVReader r = new CSVReader();")
        lines.append('print(r.open("a.csv"));')
        out.append("1")
    queries(t, "r", rows, lines, out)
    k = t.below(4)
    if k == 0:
        lines.append('r.open("b.csv");')
        rows += b
    elif k == 1:
        lines.append('CSVReader s = new CSVReader("b.csv");')
        queries(t, "s", b, lines, out)
    elif k == 2:
        lines.append('try { CSVReader m = new CSVReader("missing.csv"); print("opened"); } catch { print("missing"); }')
        out.append("missing")
    queries(t, "r", rows, lines, out)
    src = "import libCSVReader.All;\n\npublic int Main(int argc, string args) modify throws {\n\t%s\n\treturn 0;\n}\n" % "\n\t".join(lines)
    return {"source": src, "files": files, "expected": out, "nontrivial": any(sum(len(r) > 1 for r in x) > 1 for x in (a, b))}


def render(case):
    return case["source"] + "".join("\n// %s: %r" % f for f in sorted(case["files"].items())) + "\n// expected\n" + "\n".join(case["expected"]) + "\n"


def run(case, env):
    got = env.slang(case["source"], files=case["files"])
    return Result(compare_output("".join(x + "\n" for x in case["expected"]), 0, got), case["nontrivial"], repr((case["source"], case["files"])))
