# runs inside gdb: compares what the printers of the repository show with the program's own notes
import os, re, sys
import gdb
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ["VF_DIR"])
out = open(os.environ["VF_OUT"], "w")
objects = children = 0
shown = {}


def bad(kind, msg):
    out.write("BAD %s\t%s\n" % (kind, msg.replace("\n", " ")[:600]))


def number(v):
    if isinstance(v, float):
        return v
    if isinstance(v, gdb.Value):
        return int(v.cast(gdb.lookup_type("long"))) if v.type.strip_typedefs().code in (gdb.TYPE_CODE_ENUM, gdb.TYPE_CODE_BOOL) else int(v)
    return int(v)


def real(v):
    return float(v)


def text(v):
    """the text a printer shows for a string, or the characters of a C string"""
    p = gdb.default_visualizer(v)
    if p is not None:
        return quoted(p.to_string())
    return v.string("utf-8")


def quoted(s):
    m = re.match(r'\[string: "(.*)"\] \[type: \w+\] \[size: -?\d+\] \[capacity: -?\d+\] \[is small: \w+\]$', s, re.S)
    if not m:
        m = re.match(r'"(.*)"$', s, re.S)
    return m.group(1) if m else "?" + s


def same(v, e):
    k, e = e[0], e[1:]
    if k == "i":
        return number(v) == int(e)
    if k == "d":
        return real(v) == float(e)
    if k == "s" or k == "c":
        return text(v) == bytes.fromhex(e).decode("utf-8", "replace")
    if k == "n":
        return len([a for a, _ in gdb.default_visualizer(v).children() if a.startswith("[")]) == int(e)
    raise Exception("notes")


def lookat(name, pairs, kids, txt, never):
    global objects, children
    kind = name.split("[")[0]
    v = gdb.parse_and_eval("*" + name)
    if objects % 3 == 1:  # as a function's parameter
        v = v.const_value().reference_value()
    elif objects % 3 == 2:
        v = v.reference_value()
    tag = str((v.type.target() if v.type.code == gdb.TYPE_CODE_REF else v.type).unqualified().strip_typedefs())
    p = gdb.default_visualizer(v)
    if p is None:
        return bad(tag, "no printer is registered for %s" % tag)
    try:
        s = p.to_string() if hasattr(p, "to_string") else None
    except Exception as e:
        return bad(tag, "the summary fails: %s: %s" % (type(e).__name__, e))
    if pairs and s is not None:
        got = dict(re.findall(r"\[([^\[\]:]*): ([^\]\"]*)\]", s))
        for k, x in pairs:
            if got.get(k) != x:
                bad(tag, "the summary %r does not show %s %s" % (s, k, x))
    if txt is not None:
        want = bytes.fromhex(txt).decode("utf-8", "replace")
        if s is None or quoted(s) != want:
            bad(tag, "the summary %r does not show the text %r" % (s, want))
    if kids or never:
        try:
            got = [(str(a), b) for a, b in p.children()]
        except Exception as e:
            return bad(tag, "the elements fail: %s: %s" % (type(e).__name__, e))
        want = [(a, b) for a, b in kids if a.startswith("[")]
        have = [(a, b) for a, b in got if a.startswith("[")]
        if want and want[0][0] == "[]":  # pairs of a map, in any order
            left = sorted(b for _, b in want)
            try:
                for a, b in have:
                    key = "m" + text(b["key"]).encode("utf-8").hex()
                    i = next((i for i, x in enumerate(left) if x.split("/")[0] == key and same(b["value"], x.split("/")[1])), None)
                    if i is None:
                        return bad(tag, "a pair with the key %r is shown, which the map does not hold" % text(b["key"]))
                    left.pop(i)
                    children += 1
            except Exception as e:
                return bad(tag, "the pairs fail: %s: %s" % (type(e).__name__, e))
            if left:
                bad(tag, "%d pairs are not shown" % len(left))
        else:
            if [a for a, _ in want] != [a for a, _ in have]:
                return bad(tag, "the elements shown are %s, the object holds %s" % ([a for a, _ in have][:30], [a for a, _ in want][:30]))
            for (a, e), (_, b) in zip(want, have):
                children += 1
                try:
                    ok = same(b, e)
                except Exception as x:
                    return bad(tag, "element %s fails: %s: %s" % (a, type(x).__name__, x))
                if not ok:
                    return bad(tag, "element %s is shown as %s, it is %s" % (a, b, e))
        rest = dict(x for x in got if not x[0].startswith("["))
        for a, e in kids:
            if a.startswith("["):
                continue
            children += 1
            try:
                ok = a in rest and same(rest[a], e)
            except Exception as x:
                return bad(tag, "%s fails: %s: %s" % (a, type(x).__name__, x))
            if not ok:
                bad(tag, "%s is shown as %s, it is %s" % (a, rest.get(a), e))
        for a in never:
            if a in rest:
                bad(tag, "%s is shown as %s, there is none" % (a, rest[a]))
    # as a user prints it
    try:
        gdb.execute("print *" + name, to_string=True)
    except Exception as e:
        bad(tag, "print fails: %s" % e)
    objects += 1
    shown[re.sub(r"[^A-Za-z0-9]", "", tag.split("<")[0].replace("il::", ""))] = shown.get(re.sub(r"[^A-Za-z0-9]", "", tag.split("<")[0].replace("il::", "")), 0) + 1


def round():
    n = int(gdb.parse_and_eval("vf_notes_size"))
    a = int(gdb.parse_and_eval("vf_notes").cast(gdb.lookup_type("long")))
    notes = bytes(gdb.selected_inferior().read_memory(a, n)).decode("utf-8")
    cur = None
    for l in notes.split("\n"):
        if not l:
            continue
        t, r = l[0], l[2:]
        if t == "V":
            if cur:
                lookat(*cur)
            cur = (r, [], [], None, [])
        elif t == "P":
            cur[1].append(tuple(r.split("\t")))
        elif t == "C":
            cur[2].append(tuple(r.split("\t")))
        elif t == "T":
            cur = (cur[0], cur[1], cur[2], r, cur[4])
        elif t == "N":
            cur[4].append(r)
        elif t == "E":
            shown[r] = shown.get(r, 0) + 1
    if cur:
        lookat(*cur)


try:
    for c in ("set pagination off", "set confirm off", "set startup-with-shell off", "set print thread-events off", "set auto-load off", "set disable-randomization off"):
        try:
            gdb.execute(c, to_string=True)
        except gdb.error:
            pass
    from printers import register_insideloop_printers
    register_insideloop_printers(None)
    gdb.execute("break vf_stop", to_string=True)
    gdb.execute("run", to_string=True)
    rounds = 0
    while gdb.selected_inferior().pid != 0:
        if gdb.newest_frame().name() != "vf_stop":
            out.write("ERROR the program stopped elsewhere: %s\n" % gdb.execute("bt 12", to_string=True))
            break
        round()
        rounds += 1
        gdb.execute("continue", to_string=True)
    for k in sorted(shown):
        out.write("SHOWN %s %d\n" % (k, shown[k]))
    if rounds == 12:
        out.write("DONE %d %d\n" % (objects, children))
except Exception as e:
    out.write("ERROR %s: %s\n" % (type(e).__name__, e))
out.close()
