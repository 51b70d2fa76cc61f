"""P36: Datetime. All short formats and lengths for boundary times in several time zones against calendar arithmetic; parsing as the inverse of formatting."""
import os, sys, itertools as it, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P36", rule="one time in one format; non-trivial = distinct (format, text)",
             assumptions=["times are years 1000 to 9999 for parsing and up to year 300000 for formatting", "what follows a parsed date in the text, and fields that contradict each other, are unspecified", "the C locale"])
EXE = c.build("plain")
ASAN = c.build("asan")
CLOCK = c.build("plain", name="clock", extra_wraps=("time",))
ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "XXX12", "YYY-14", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def civil(t):
    days, s = divmod(t, 86400)
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    y = yoe + era * 400 + (m <= 2)
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    yday = sum([31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][:m - 1]) + d
    return y, m, d, s // 3600, s // 60 % 60, s % 60, (days + 3) % 7, yday


def fmt1(k, t):
    y, m, d, H, M, S, wd, yd = civil(t)
    return {"a": DAYS[wd][:3], "A": DAYS[wd], "b": MONTHS[m - 1][:3], "B": MONTHS[m - 1], "c": "%s %s %2d %02d:%02d:%02d %d" % (DAYS[wd][:3], MONTHS[m - 1][:3], d, H, M, S, y), "C": "%02d" % (y // 100),
            "d": "%02d" % d, "D": "%02d/%02d/%02d" % (m, d, y % 100), "e": "%2d" % d, "F": "%d-%02d-%02d" % (y, m, d), "H": "%02d" % H, "I": "%02d" % ((H + 11) % 12 + 1), "j": "%03d" % yd, "m": "%02d" % m, "M": "%02d" % M,
            "n": "\n", "p": "AM" if H < 12 else "PM", "P": "am" if H < 12 else "pm", "s": "%d" % t, "S": "%02d" % S, "t": "\t", "u": "%d" % (wd + 1), "y": "%02d" % (y % 100), "Y": "%d" % y, "z": "+0000", "Z": "GMT", "%": "%"}[k]


KEYS = "aAbBcCdDeFHIjmMnpPsStuyYzZ%"
TIMES = sorted(set([0, 1, -1, 59, 60, -60, 3599, 3600, 43199, 43200, 46800, 86399, 86400, -86400, -86401, 951782399, 951782400, 951868799, 951868800, -2203977600, -2203891201, 4107456000, 4107542400, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32,
                    -2208988800, 946684799, 946684800, 1583020799, 1583020800, 1590718712, 1604213999, 1604214000, 1615705200, 253402300799, 253402300800, 1735689599, 1735689600, 1703980800, 1704067199, 1e12, 9e12] +
                   [978307200 + 31 * 86400 * k for k in range(13)] + [1072915200 + 86400 * k for k in range(8)]))
TIMES = [int(t) for t in TIMES]
PRE = "import Datetime; import Env; import System;\n"


def local(t):
    """the known wrong number of seconds: the UTC fields taken as local time"""
    return "%d" % int(time.mktime(civil(t)[:6] + (0, 0, 0)))


def render(f, t, secs=None):
    out, i = "", 0
    while i < len(f):
        if f[i] == "%":
            out += secs if f[i + 1] == "s" and secs is not None else fmt1(f[i + 1], t)
            i += 2
        else:
            out += f[i]
            i += 1
    return out


def lit(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n").replace("\t", "\\t") + "'"


def formats(sh, item):
    """every directive and pair of directives, every time, every zone"""
    zone, part = item
    w = mc.worker(EXE, env={"TZ": zone})
    ks = ["%" + k for k in KEYS] + ["x", "é"]
    fs = (ks + [a + s + b for a in ks for b in ks for s in ("", " ")])[part::8] + [a + b + d for a in ks[part::8] for b in ks for d in (ks if not c.quick else ks[::4])]
    items = []
    for i, f in enumerate(fs):
        zs = "%s" in f.replace("%%", "") and zone != "UTC0"
        os.environ["TZ"] = zone
        time.tzset()
        for t in TIMES if len(f) < 7 else TIMES[::7]:
            # that %s depends on the zone is a known finding, reported below; everything else about such formats is as it must be
            items.append(("%d %s" % (t, f), "print(Datetime.strftime(%s, %d));" % (lit(f), t), [render(f, t) + "\n", render(f, t, local(t)) + "\n"] if zs else render(f, t) + "\n"))
    if part == 0:
        items.append(("strftime %s in a zone", "print(Datetime.strftime('%s', 1590718712));", "1590718712\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("formats", formats, [(z, p) for z in ZONES[:c.pick(3, 6)] for p in range(8)])


def calendar(sh, item):
    """every day of several centuries, as text and back"""
    w = mc.worker(EXE, env={"TZ": ZONES[item % len(ZONES)]})
    a, b = c.pick(-80, -800) + item * c.pick(10, 100), c.pick(-80, -800) + (item + 1) * c.pick(10, 100)
    items = []
    step = 86400
    days = list(range(a * 365, b * 365))
    for part in mc.chunks(days, 60):
        ts = [d * step + (d * 7919) % step for d in part]
        items.append(("day %d" % part[0], "var t = [%s]; t.forEach(def (x) => print(Datetime.strftime('%%F %%j %%u %%a %%H:%%M:%%S', x)));" % ", ".join(map(str, ts)),
                      "".join(render("%F %j %u %a %H:%M:%S", t) + "\n" for t in ts)))
        items.append(("back %d" % part[0], "var t = [%s]; t.forEach(def (x) => { const y = Datetime.strptime('%%Y-%%m-%%d %%H:%%M:%%S', Datetime.strftime('%%F %%H:%%M:%%S', x)); if (y != x) { print('{} {}'.format(x, y)); } });" % ", ".join(map(str, ts)), ""))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("calendar", calendar, range(24))


def lengths(sh, item):
    """results of every length"""
    w = mc.worker(EXE if item < 8 else ASAN)
    items = []
    t = 1590718712
    sizes = [n for n in list(range(0, c.pick(700, 5000))) + [1023, 1024, 1025, 2047, 2048, 2049, 4096, 10000, 65535, 65536, 100000] if n % 8 == item % 8]
    if item >= 8:
        sizes = [n for n in sizes if n % 16 < 8 or 120 <= n < 136][::c.pick(3, 1)]
    for n in sizes:
        items.append(("len %d" % n, "print(Datetime.strftime('x'.repeat(%d), %d) == 'x'.repeat(%d));" % (n, t, n), "true\n"))
        for k in "AcnY%":
            if n:
                one = fmt1(k, t)
                r = "'%s'" % one.replace("\n", "\\n")
                items.append(("len %d%%%s" % (n, k), "const r = Datetime.strftime('%%%s'.repeat(%d), %d); print(r == %s.repeat(%d)); print(r.len());" % (k, n, t, r, n), "true\n%d\n" % (len(one) * n)))
                items.append(("len x%d%%%s" % (n, k), "const r = Datetime.strftime('x'.repeat(%d) + '%%%s', %d); print(r == 'x'.repeat(%d) + %s);" % (n, k, t, n, r), "true\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("lengths", lengths, range(16))
FULL = ["%Y-%m-%d %H:%M:%S", "%F %H:%M:%S", "%c", "%d %b %Y %I:%M:%S %p", "%A, %d %B %Y, %H h %M m %S", "%Y %j %H:%M:%S", "%H:%M:%S %e.%m.%Y", "%S%n%M%t%H %Y/%m/%d", "%a %b %d %H:%M:%S %Y", "%% %Y%% %m %d %H %M %S", "%F %H:%M:%S %z", "%s", "%C%y-%m-%d %H:%M:%S"]


def back(sh, zone):
    w = mc.worker(EXE, env={"TZ": zone})
    items = []
    for t in TIMES + [k * 86400 * 37 + k * 1009 for k in range(-c.pick(400, 3000), c.pick(400, 3000))]:
        if not -62135596800 + 86400 * 370 * 1000 <= t < 253402300800:
            continue
        for f in FULL:
            zs = f == "%s" and zone != "UTC0"
            if t < 0 and f == "%s":
                continue            # the library does not read negative numbers of seconds
            text = render(f, t)
            items.append(("read %s" % f, "print(Datetime.strptime(%s, %s));" % (lit(f), lit(text)), mc.fmt(t) + "\n"))
            if zs:
                continue
            items.append(("back %s" % f, "print(Datetime.strptime(%s, Datetime.strftime(%s, %d)) == %d);" % (lit(f), lit(f), t, t), "true\n"))
        if -86400 * 365 < t < 2 ** 31 - 86400 * 400:
            f = "%D %H:%M:%S"
            items.append(("back %s" % f, "print(Datetime.strptime(%s, Datetime.strftime(%s, %d)) == %d);" % (lit(f), lit(f), t, t), "true\n"))
        for off in ("+0100", "-0530", "+1400", "-1200", "+0000"):
            o = (int(off[1:3]) * 3600 + int(off[3:]) * 60) * (1 if off[0] == "+" else -1)
            if t % 5 == 0 and t + o >= -30000000000 and t + o < 253402300800:
                items.append(("offset " + off, "print(Datetime.strptime('%%Y-%%m-%%d %%H:%%M:%%S %%z', '%s %s'));" % (render("%F %H:%M:%S", t + o), off), mc.fmt(t) + "\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("back", back, ZONES)


def wrong(sh, item):
    w = mc.worker(EXE)
    items = []
    f, good = "%Y-%m-%d %H:%M:%S", "2020-11-30 12:34:56"
    for i in range(len(good) - 1):
        for ch in ("x", "", "/", "\u00e9", "\x01"):
            bad = good[:i] + ch + good[i + 1:]
            if ch == "" and good[i].isdigit():
                continue
            if good[i] == " " and ch == "":
                continue            # white space in a format matches none
            items.append(("wrong", "print(Datetime.strptime(%s, %s));" % (lit(f), lit(bad)), "nil\n"))
    for i in range(len(good)):
        if i == 0 or not good[i - 1].isdigit():
            items.append(("cut", "print(Datetime.strptime(%s, %s));" % (lit(f), lit(good[:i])), "nil\n"))
    for k, vals in {"%m": ["0", "13", "99", "x"], "%d": ["0", "32", "99", ""], "%H": ["24", "99", "x"], "%M": ["60", "61", "99"], "%S": ["62", "99"], "%I": ["0", "13"], "%j": ["0", "367", "999"], "%p": ["XM", "A"], "%b": ["Foo", "J"], "%A": ["Xday"], "%u": ["0", "8"], "%Y": ["x", ""], "%y": ["x"], "%%": ["x"]}.items():
        for v in vals:
            items.append(("range", "print(Datetime.strptime('%s;', '%s;'));" % (k, v), "nil\n"))
    big = ["0/0", "1/0", "-1/0", "'1e300'.toNumber().unwrap()", "'-1e300'.toNumber().unwrap()", "'1e18'.toNumber().unwrap()", "'9.3e18'.toNumber().unwrap()", "'-1e18'.toNumber().unwrap()"]
    for b in big:
        for ff in ("%Y", "%c", "%s", "x"):
            items.append(("big", "print(1); Datetime.strftime('%s', %s); print(2);" % (ff, b), fails(mc.RUNTIME, "1\n")))
    for call in ["strftime()", "strftime(1)", "strftime(nil)", "strftime('%Y', 1, 2)", "strftime('%Y', '1')", "strftime('%Y', nil)", "strftime('%Y', [])", "strftime('a\\x00b', 1)", "strptime()", "strptime('%Y')", "strptime('%Y', 2020)", "strptime(1, '2020')", "strptime(nil, nil)", "strptime('%Y', '2020', 1)", "now(1)", "nowUTC(1)"]:
        items.append(("misuse", "print(1); Datetime.%s; print(2);" % call, fails(mc.RUNTIME, "1\n")))
    items.append(("empty", "print('[' + Datetime.strftime('', 1) + ']' + '[' + Datetime.strftime('') + ']');", "[][]\n"))
    items.append(("const", "print([Datetime.SECONDS_IN_MINUTE, Datetime.SECONDS_IN_HOUR, Datetime.SECONDS_IN_DAY, Datetime.SECONDS_IN_WEEK]);", "[60, 3600, 86400, 604800]\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("wrong", wrong, [0])


def clock(sh, zone):
    w = mc.worker(CLOCK, env={"TZ": zone})
    os.environ["TZ"] = zone
    time.tzset()
    items = []
    for t in TIMES:
        if not 0 <= t < 253402300800 - 86400:
            continue
        loc = time.localtime(t)
        asc = lambda x: "%s %s%3d %02d:%02d:%02d %d" % (DAYS[x.tm_wday][:3], MONTHS[x.tm_mon - 1][:3], x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec, x.tm_year)
        items.append(("now", "Env.set('MC_TIME', '%d'); print(Datetime.now()); print(Datetime.nowUTC()); print(Datetime.strftime('%%F %%H:%%M:%%S')); print(System.time());" % t,
                      "%s\n%s\n%s\n%s\n" % (asc(loc), asc(time.gmtime(t)), render("%F %H:%M:%S", t), mc.fmt(t))))
    mc.session(sh, w, items, prelude=PRE, by_source=True)


c.explore("clock", clock, ZONES)
c.bounds = {"directives in a format": 3, "times": len(TIMES), "zones": c.pick(3, 6), "result length": c.pick(700, 5000) * 24, "days": 365 * c.pick(10, 100) * 24}
c.finish()
