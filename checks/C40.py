"""Time, environment and character functions: round trips and histories against the C library's calendar and a map of variables."""
import calendar
import datetime

from strs import raw
from vlib import Result

EPOCH = datetime.datetime(1970, 1, 1)

PROPERTY = "C40"
LEVEL = "exploration"
CASES = {"quick": 12000, "thorough": 60000}
RULE = ("case = program of 4 to 16 operations in a generated time zone (some with daylight saving time): formatting times of the whole 32 bit range with generated formats, parsing the text "
        "back, parsing malformed text, putting, setting (with and without overwriting), removing and reading environment variables, characters from codes; non-trivial if it has a round trip of a time "
        "or reads back a variable; distinct counts program texts")

#: time zones: description for the C library, offset in seconds, offset in summer, start and end of summer as (month, week, hour of the local clock)
ZONES = [("UTC", 0, None), ("UTC", 0, None), ("CET-1CEST,M3.5.0,M10.5.0/3", 3600, (7200, (3, 5, 2), (10, 5, 3))), ("EST5EDT,M3.2.0,M11.1.0", -18000, (-14400, (3, 2, 2), (11, 1, 2))),
         ("IST-5:30", 19800, None), ("XYZ+11", -39600, None), ("AAA-12BBB,M10.1.0,M4.1.0/3", 43200, (46800, (10, 1, 2), (4, 1, 3)))]
#: sets of formats that together determine the second
DATES = [["%Y-%m-%d"], ["%d.%m.%Y"], ["%F"], ["%Y", "%m", "%d"], ["%m", "%Y", "%e"], ["%d", "%b", "%Y"], ["%B", "%d", "%Y"], ["%a", "%Y/%m/%d"]]
TIMES = [["%H:%M:%S"], ["%T"], ["%R", "%S"], ["%M", "%H", "%S"], ["%I:%M:%S %p"]]
NAMES = ["VP_A", "VP_B", "vp_c", "VP_LONG_NAME_1"]
VALUES = ["", "x", "bar", "a=b", "two words", "ü", "0", "v" * 40, "w" * 300, "=", "${HOME}", "line\nbreak"]


def sunday(year, month, week, hour):
    """Seconds of the local clock at the given hour of a Sunday."""
    days = [d for d in calendar.Calendar().itermonthdates(year, month) if d.month == month and d.weekday() == 6]
    d = days[min(week - 1, len(days) - 1)]
    return calendar.timegm((d.year, d.month, d.day, hour, 0, 0))


def offset(zone, v):
    _, std, dst = zone
    if not dst:
        return std
    summer, start, end = dst
    year = (EPOCH + datetime.timedelta(seconds=v + std)).year
    a, b = sunday(year, *start) - std, sunday(year, *end) - summer
    return summer if (a <= v < b if a < b else not b <= v < a) else std


def clock(zone, v):
    return EPOCH + datetime.timedelta(seconds=v + offset(zone, v))


def unique(zone, v):
    """Is this the only time with this text?"""
    w = v + offset(zone, v)
    return not zone[2] or sum(offset(zone, w - o) == o for o in (zone[1], zone[2][0])) == 1


def stamp(t, zone):
    k = t.below(5)
    if k == 0:
        v = t.int(-2**31 + 1, 2**31 - 1)
    elif k == 1:
        v = t.int(1, 2**31 - 1)
    elif k == 2:
        v = t.choice([951782399, 951782400, 951868800, 1709164800, 1, 86399, 86400, 946684799, 946684800, 2**31 - 1, -1, 1767225599])
    else:
        # around the changes of the clocks
        v = t.choice([1711846800, 1729990800, 1710054000, 1730613600, 1775404800, 1759622400]) + t.int(-7300, 7300)
    if zone[2] and v < 200000:
        v = abs(v) + 200000         # the rules hold from 1970 on
    return min(v, 2**31 - 1) or 1


def gen(t):
    zone = t.choice(ZONES)
    env, lines, out = {}, ['print(setenv("TZ", "%s", 1));' % zone[0]], ["0"]
    good = 0
    n = 0
    for _ in range(t.int(4, 16)):
        n += 1
        k = t.weighted([(3, "round"), (1, "format"), (1, "bad"), (3, "put"), (2, "set"), (4, "get"), (2, "ascii"), (1, "noise"), (1, "invalid")])
        if k in ("round", "format"):
            v = stamp(t, zone)
            parts = t.shuffle(list(t.choice(DATES)) + list(t.choice(TIMES)))
            if k == "format":
                parts = t.shuffle(parts + t.sample(["%j", "%y", "%C", "%u", "%w", "%%", "%A", "%D"], t.int(1, 3)))[:t.int(1, 4)]
            fmt = t.choice([" ", "_", "; "]).join(parts)
            s = clock(zone, v).strftime(fmt)
            lines.append('print(strftime("%s", %d));' % (fmt, v))
            out.append(s)
            if k == "round" and clock(zone, v).year > 1902:
                good += 1
                if unique(zone, v):
                    lines.append('print(strptime("%s", strftime("%s", %d)));' % (fmt, fmt, v))
                    out.append(str(v))
                else:
                    # the hour the clocks are set back: any of the two times of this text
                    lines.append('print(strftime("%s", strptime("%s", "%s")));' % (fmt, fmt, s))
                    out.append(s)
        elif k == "bad":
            fmt, s = t.choice([("%Y-%m-%d", "2020-xx-01"), ("%H:%M", "25:00"), ("%d.%m.%Y", ""), ("%m", "13"), ("%Y-%m-%d", "today"), ("%T", "12-30-10")])
            lines.append('print(strptime("%s", "%s"));' % (fmt, s))
            out.append("0")
        elif k == "put":
            a, v = t.choice(NAMES), t.choice(VALUES)
            env[a] = v
            lines.append('print(putenv("%s=%s"));' % (a, v))
            out.append("0")
        elif k == "set":
            a, v, o = t.choice(NAMES), t.choice(VALUES), t.bool(2, 3)
            if o or a not in env:
                env[a] = v
            lines.append('print(setenv("%s", "%s", %d));' % (a, v, o))
            out.append("0")
        elif k == "get":
            a = t.choice(NAMES)
            good += a in env
            lines.append('print("[" + getenv("%s") + "]");' % a)
            out.append("[" + env.get(a, "") + "]")
        elif k == "invalid":
            lines.append('print(setenv("%s", "x", 1));' % t.choice(["", "VP_A=B", "="]))
            out.append("-1")
        elif k == "noise":
            lines.append('string s%d = ""; for ( int i = 0; i < 40; i++ ) { s%d = s%d + "%s"; }' % (n, n, n, t.choice(["z", "long piece of text ", "="])))
        else:
            c = t.choice([t.int(1, 127), t.int(1, 255), 10, 32, 65])
            lines.append('print(ascii(%d)); print(strlen(ascii(%d)));' % (c, c))
            out += [chr(c), "1"]
    for a in NAMES:
        lines.append('print("[" + getenv("%s") + "]");' % a)
        out.append("[" + env.get(a, "") + "]")
    out = [o if len(o) == 1 else o.encode().decode("latin-1") for o in out]
    src = "public int Main(int argc, string args) {\n\t%s\n\treturn 0;\n}\n" % "\n\t".join(lines)
    return {"source": src, "expected": out, "good": good}


def render(case):
    return case["source"] + "\n// expected\n" + "\n".join(case["expected"]) + "\n"


def run(case, env):
    got = env.slang(case["source"])
    failure = None
    want = raw(case["expected"])
    if got.rc != 0 or got.out != want:
        a, b = want.split(b"\n"), got.out.split(b"\n")
        i = next((i for i in range(len(a) + 1) if a[i:i + 1] != b[i:i + 1]), len(a))
        failure = {"what": "exit status %d or output differs" % got.rc, "line": i + 1, "expected": repr(a[i:i + 1]), "got": repr(b[i:i + 1]), "stderr": got.err.decode("utf-8", "replace")[:500]}
    return Result(failure, case["good"] > 0, case["source"])
