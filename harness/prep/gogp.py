"""A small reader of the repository's code templates (*.gp, and the *.gp.go they are made from), enough of the gogp tool to
generate a container for another type: conditional parts, ignored parts, parts to appear once, configuration values, type names."""
import os, re

D = re.compile(r"^\s*//#\s?GOGP_(\w+)(.*)$")


def expand(text, cfg, state):
    """-> Go source of one template for the configuration; the templates it requires go to state['todo']"""
    m = re.search(r"^//#GOGP_FILE_BEGIN.*?$(.*)^//#GOGP_FILE_END", text, re.M | re.S)
    if m:  # a template in the form of a Go file
        text = "<PACKAGE>\n" + m.group(1)
        text = text.replace("GOGPValueType", "<VALUE_TYPE>").replace("GOGPKeyType", "<KEY_TYPE>")
        text = text.replace("GOGPGlobalNamePrefix", "<GLOBAL_NAME_PREFIX>")
    out, cond, ignore, once = [], [], 0, None
    for line in text.split("\n"):
        d = D.match(line)
        word, rest = (d.group(1), d.group(2)) if d else ("", "")
        if word == "IGNORE_BEGIN":
            ignore += 1
        elif word == "IGNORE_END":
            ignore -= 1
        elif ignore:
            if "//#GOGP_IGNORE_END" in line:  # at the end of a line of code
                ignore -= 1
        elif word == "IFDEF":
            name = rest.split("//")[0].strip().strip("<>")
            cond.append(cfg.get(name, "") not in ("", "false"))
        elif word == "ELSE":
            cond[-1] = not cond[-1]
        elif word in ("ENDIF", "END_IF"):
            cond.pop()
        elif not all(cond):
            pass
        elif word == "REQUIRE":
            args = rest[rest.index("(") + 1:].rstrip().rstrip(")")
            args = re.sub(r"#GOGP_GPGCFG\((\w+)\)?", lambda m: cfg.get(m.group(1), ""), args)
            path, _, section = args.partition(",")
            if section != "_":
                state["todo"].append((os.path.basename(path), section))
        elif word == "REPLACE":
            a, b = [x.strip() for x in rest.strip().strip("()").split(",")]
            cfg = dict(cfg, **{a.strip("<>"): cfg.get(b.strip("<>"), b)})
        elif word == "ONCE":
            once = []
        elif word == "END_ONCE":
            body = "\n".join(once)
            if body not in state["once"]:
                state["once"].add(body)
                out.append(body)
            once = None
        else:
            (out if once is None else once).append(line)
    src = "\n".join(out)
    src = re.sub(r"#GOGP_GPGCFG\((\w+)\)", lambda m: cfg.get(m.group(1), ""), src)
    return re.sub(r"<([A-Z_]+)>", lambda m: cfg.get(m.group(1), m.group(0)), src)


def package(dirs, ext, cfgs, dest):
    """generates the templates named in cfgs, {template: configuration}, and what they require"""
    os.makedirs(dest, exist_ok=True)
    state = {"once": set(), "todo": []}
    done = set()
    queue = [(t, c) for t, c in cfgs.items()]
    while queue:
        t, c = queue.pop(0)
        key = (t, c["GLOBAL_NAME_PREFIX"], c["VALUE_TYPE"])
        if key in done:
            continue
        done.add(key)
        for d in dirs:
            p = os.path.join(d, t + ext)
            if os.path.exists(p):
                break
        src = expand(open(p).read(), c, state)
        with open(os.path.join(dest, "%s_%d.go" % (t, len(done))), "w") as f:
            f.write(src)
        for name, section in state["todo"]:
            queue.append((name, dict(c, **c["sections"][section]) if section else c))
        state["todo"] = []
