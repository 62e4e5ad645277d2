"""The check of every property: what is generated, replayed and validated, at which bounds."""
import copy, json, os
from . import cli, core
from .lex import comments, lex_pipeline, js_canaries, css_canaries, html_canaries

CHECKS = {}


def check(prop, html=False):
    def deco(f):
        CHECKS[prop] = (f, html)
        return f
    return deco


def run(prop, tier, seed, replay=None):
    if prop not in CHECKS:
        raise core.ToolError(f"no check for {prop}")
    f, html = CHECKS[prop]
    c = core.Check(prop, tier, seed)
    c.driver = core.build(html)
    c.note("driver built")
    if replay:
        return rerun(c, replay)
    f(c)
    return c.finish()


def rerun(c, path):
    with open(path) as f:
        vs = json.load(f)["violations"]
    for k, v in enumerate(vs):
        ctx = v["ctx"]
        recs = c.replay(f"again-{k}", [v["record"]], ctx["cmd"], ctx.get("args", ()), procs=1)
        c.validate(f"again-{k}", v["module"], recs, env=ctx.get("env"), ctx=ctx)
    return c.finish()


# ------------------------------------------------------------------ JavaScript programs
JS = "Layouts of generated programs are drawn from a fixed set of whitespace and comment atoms; lexemes from spec/lex/js.json."
ADJ = [("Adj", 3, 12), ("AdjU", 1, 6), ("AdjP", 2, 9), ("AdjS", 2, 8), ("AdjK", 50, 50), ("AdjA", 4, 30), ("AdjL", 2, 5)]


def js_programs(c, control=False, lic=40, adj=True, quick=1600, thorough=60000, runs=4):
    c.assumptions.append(JS)
    # every pair of neighbours
    if adj:
        items = []
        for start, q, t in ADJ:
            got = c.generate(start, "JsGrammar.tla", {"VF_START": start, "VF_LIC": 0, "VF_FUEL": 100, "VF_REPS": t if c.thorough else q}, mode="bfs")
            items += got
        if not c.thorough and len(items) > 16000:
            items = c.rng.sample(items, 16000)
        for k in range(0, len(items), 200000):
            lex_pipeline(c, f"adjacency-{k}", "js", items[k:k + 200000], "JsTrace.tla", runs=3 if not control else 2, control=control, canaries=js_canaries)
    # whole programs
    total, k = (thorough if c.thorough else quick), 0
    while total > 0:
        n = min(total, 12000)
        items = c.generate(f"programs-{k}", "JsGrammar.tla", {"VF_START": "Prog", "VF_LIC": lic, "VF_FUEL": 30, "VF_REPS": 1}, num=n)
        lex_pipeline(c, f"programs-{k}", "js", items, "JsTrace.tla", runs=runs if not control else 3, control=control, canaries=js_canaries)
        total -= n
        k += 1


@check("C04")
def c04(c):
    js_programs(c)


@check("C05")
def c05(c):
    t = c.thorough
    # literals character by character
    items = []
    for start, reps, n in (("str1", 13, 4 if t else 3), ("str2", 13, 4 if t else 3), ("tmpl", 8 if t else 5, 5 if t else 4), ("rx", 12, 5 if t else 4), ("num", 99, 9)):
        got = c.generate(f"every-{start}", "JsLiterals.tla", {"VF_START": start, "VF_REPS": reps, "VF_LEN": n}, mode="bfs", cfg="Lits.cfg",
                         limit=None if t else 2500)
        items += got
    for start, num in (("str1", 500), ("str2", 500), ("tmpl", 2500), ("rx", 1500)):
        items += c.generate(f"long-{start}", "JsLiterals.tla", {"VF_START": start, "VF_REPS": 1, "VF_LEN": 24}, num=num * (20 if t else 1), cfg="Lits.cfg")
    for k in range(0, len(items), 150000):
        lex_pipeline(c, f"literals-{k}", "js", items[k:k + 150000], "JsTrace.tla", runs=3, canaries=js_canaries)
    js_programs(c, quick=1000)


@check("C06")
def c06(c):
    comments(c, "js", "JsTrace.tla", True)
    js_programs(c, control=True, lic=12)


@check("C07")
def c07(c):
    js_programs(c)


# ------------------------------------------------------------------ JSON
@check("C01")
def c01(c):
    c.assumptions.append("Characters of generated JSON texts are drawn from the classes of spec/lex/json.json.")
    parts = [("exhaustive", "bfs", {"VF_LEN": 8 if c.thorough else 6, "VF_DEPTH": 2}, 0)]
    for k in range(8 if c.thorough else 1):
        parts.append((f"texts-{k}", "sim", {"VF_LEN": 40, "VF_DEPTH": 5}, 20000 if c.thorough else 6000))
    parts.append(("bulk", "sim", {"VF_LEN": 24, "VF_DEPTH": 2, "VF_BULK": 1}, 4000 if c.thorough else 240))
    for name, mode, env, num in parts:
        items = c.generate(name, "JsonText.tla", env, mode=mode, num=num, cfg="JsonText.cfg")
        for k in range(0, len(items), 200000):
            args = ["--lang", "json"]
            recs = c.replay(f"{name}-{k}", items[k:k + 200000], "raw", args)
            can = []
            for r in [r for r in recs if r.get("st") == "ok" and len(r["out"]) > 3][:3]:
                can.append(dict(r, out=r["out"][:1] + r["out"][2:]))
            c.validate(f"{name}-{k}", "JsonTrace.tla", recs, canaries=can, ctx={"cmd": "raw", "args": args})


def json_stream(c, faults):
    c.assumptions.append("The in-memory minifier gives the text the streaming one must deliver (its own correctness is C01).")
    base = {"VF_FAULTS": faults, "VF_DEFECT": "none", "VF_SIZES": 3, "VF_INTR": 1}
    # the machine of the implementation refines what callers may observe; defective ones do not
    c.model("reader", "JsonReader.tla", "JsonReader.cfg", dict(base, VF_MODE="mc", VF_OUT="", VF_N=4 if c.thorough else 2))
    for d in ("swallow", "loseBytes", "loseNext") if faults == "yes" else ("dropCarry", "shortEof", "noRetry"):
        c.model(f"defect-{d}", "JsonReader.tla", "JsonReader.cfg", dict(base, VF_MODE="mc", VF_OUT="", VF_N=2, VF_DEFECT=d), expect="is violated")
    jobs = [("schedules", "mc-bfs", dict(base, VF_N=3 if c.thorough else 2), 0)]
    for k in range(6 if c.thorough else 1):
        jobs.append((f"readings-{k}", "sim", dict(base, VF_N=10, VF_INTR=3), 20000 if c.thorough else 4000))
        jobs.append((f"long-{k}", "sim", dict(base, VF_N=60, VF_INTR=6), 6000 if c.thorough else 500))
    jobs.append(("bulk", "bulk", base, 4000 if c.thorough else 160))
    for name, mode, env, num in jobs:
        if mode == "bulk":
            items = c.generate(name, "JsonBulk.tla", env, mode="sim", num=num, cfg="Soup.cfg")
        elif mode == "mc-bfs":
            items = c.generate(name, "JsonReader.tla", env, mode="bfs", cfg="JsonReaderGen.cfg")
        else:
            items = c.generate(name, "JsonReader.tla", env, mode="sim", num=num, cfg="JsonReaderGen.cfg")
        args = ["--table", os.path.join(core.SPEC, "lex", "json_units.json")]
        recs = c.replay(name, items, "stream", args)
        can = []
        for r in recs:
            if "crash" in r or len(can) >= 4:
                continue
            stop = next((k for k, e in enumerate(r["ev"]) if e[1] != "ok"), len(r["ev"]))
            oks = [k for k, e in enumerate(r["ev"][:stop]) if len(e[2]) > 0]
            if not oks:
                continue
            x = copy.deepcopy(r)
            if len(can) % 2 == 0:  # a byte is changed
                x["ev"][oks[-1]][2][0] ^= 1
            elif faults == "yes":  # a short success
                x["once"] = False
                x["ev"] = [e for e in x["ev"] if e[1] != "err"] + [[4, "ok", []]]
            else:  # the end comes early
                x["ev"] = x["ev"][:oks[-1]] + [[4, "ok", []]]
            can.append(x)
        c.validate(name, "JsonStreamTrace.tla", recs, cfg="StreamTrace.cfg", canaries=can, ctx={"cmd": "stream", "args": args})


@check("C02")
def c02(c):
    json_stream(c, "no")


@check("C03")
def c03(c):
    json_stream(c, "yes")


# ------------------------------------------------------------------ CSS
CSS = "Layouts of generated style sheets are drawn from a fixed set of whitespace and comment atoms; components from spec/lex/css.json."


def css_sheets(c, adj, control=False, strict=False, lic=30, quick=2400, thorough=60000, runs=4):
    c.assumptions.append(CSS)
    env = {"VF_STRICT": 1 if strict else 0}
    runs = 3 if control else runs
    parts = []
    for start, q, t in adj:
        parts.append(c.generate(start, "CssGrammar.tla", dict(env, VF_START=start, VF_LIC=0, VF_FUEL=100, VF_REPS=t if c.thorough else q), mode="bfs"))
    if not c.thorough:
        # the same share of the sample for each kind of neighbours
        share, left = 20000, len(parts)
        for k, part in sorted(enumerate(parts), key=lambda x: len(x[1])):
            n = min(len(part), share // left)
            parts[k] = c.rng.sample(part, n)
            share, left = share - n, left - 1
    items = [i for part in parts for i in part]
    for k in range(0, len(items), 150000):
        lex_pipeline(c, f"neighbours-{k}", "css", items[k:k + 150000], "CssTrace.tla", runs=runs - 1, control=control, canaries=css_canaries)
    total, k = (thorough if c.thorough else quick), 0
    while total > 0:
        n = min(total, 12000)
        items = c.generate(f"sheets-{k}", "CssGrammar.tla", dict(env, VF_START="Sheet", VF_LIC=lic, VF_FUEL=28, VF_REPS=1), num=n)
        lex_pipeline(c, f"sheets-{k}", "css", items, "CssTrace.tla", runs=runs, control=control, canaries=css_canaries)
        total -= n
        k += 1


SEL = [("AdjC", 1, 2), ("AdjG", 1, 2)]
VAL = [("AdjV", 1, 2), ("AdjM", 1, 1)]


@check("C09")
def c09(c):
    css_sheets(c, SEL)


@check("C10")
def c10(c):
    css_sheets(c, VAL)


@check("C11")
def c11(c):
    comments(c, "css", "CssTrace.tla", True)
    css_sheets(c, SEL + VAL, control=True, lic=10)


@check("C13")
def c13(c):
    css_sheets(c, SEL + VAL, strict=True)


@check("C12")
def c12(c):
    c.assumptions.append("No word ending in url( starts with an escape; characters of generated texts are drawn from spec/lex/css_text.json.")
    jobs = [("every", "bfs", 5 if c.thorough else 4, 0), ("few", "bfs", 6 if c.thorough else 5, 0)]
    for k in range(6 if c.thorough else 1):
        jobs.append((f"texts-{k}", "sim", 16, 30000 if c.thorough else 8000))
    for name, mode, n, num in jobs:
        items = c.generate(name, "CssText.tla", {"VF_LEN": n, "VF_CH": "few" if name == "few" else "ch"}, mode=mode, num=num, cfg="CssText.cfg")
        args = ["--lang", "css"]
        recs = c.replay(name, items, "raw", args)
        can = []
        for want in (True, False):
            r = next((r for r in recs if r.get("want") is want), None)
            can += [dict(r, st="err" if want else "ok")] if r else []
        c.validate(name, "CssTextTrace.tla", recs, canaries=can, ctx={"cmd": "raw", "args": args})


# ------------------------------------------------------------------ any text
FRAGS = {"js": "js_frag", "css": "css_frag", "json": "json", "html": "html"}


@check("C08", html=True)
def c08(c):
    t = c.thorough
    c.assumptions.append("Characters of arbitrary texts are drawn from the alphabets of spec/lex/soup.json, in which every character the tokenizers distinguish stands with a few of those they do not.")
    table = os.path.join(core.SPEC, "lex", "soup.json")

    def go(name, items, cmd, args):
        recs = c.replay(name, items, cmd, args)
        can = []
        for good in [r for r in recs if r.get("ok", 0) > 0][:1]:
            can = [dict(good, ok=good["ok"] - 1, panic=1)] + ([dict(good, ok=good["ok"] - 1, err=1)] if good["lang"] != "css" else [])
        c.validate(name, "TotalTrace.tla", recs, canaries=can, ctx={"cmd": cmd, "args": list(args)})

    def soup(lang, ch, n, mode="bfs", num=0, nest=0):
        env = {"VF_LANG": lang, "VF_CH": ch, "VF_LEN": n, "VF_NEST": nest}
        return c.generate(f"{ch}-{mode}-{n}{'-nest' * nest}", "Soup.tla", env, mode=mode, num=num, cfg="Soup.cfg")

    for lang in ("js", "css", "json", "html"):
        items = soup(lang, lang, 0, nest=1)
        items += soup(lang, lang, 3 if t else 2)
        if lang != "json":
            core_ch = lang + "_core" if lang != "js" else "js_core"
            items += soup(lang, core_ch, 4 if t else 3)
        items += soup(lang, FRAGS[lang], 40, mode="sim", num=60000 if t else 4000)
        for k in range(0, len(items), 200000):
            go(f"{lang}-texts-{k}", items[k:k + 200000], "soup", ["--lang", lang])
    n = 4000 if t else 240
    js = c.generate("js-programs", "JsGrammar.tla", {"VF_START": "Prog", "VF_LIC": 20, "VF_FUEL": 20, "VF_REPS": 1}, num=n)
    css = c.generate("css-sheets", "CssGrammar.tla", {"VF_START": "Sheet", "VF_LIC": 20, "VF_FUEL": 20, "VF_REPS": 1, "VF_STRICT": 0}, num=n)
    jsn = c.generate("json-texts", "JsonText.tla", {"VF_LEN": 40, "VF_DEPTH": 4}, num=n, cfg="JsonText.cfg")
    for lang, items in (("js", js), ("css", css), ("json", jsn)):
        args = ["--lang", lang, "--table", table, "--frags", FRAGS[lang], "--inserts", 200 if t else 60]
        if lang != "json":
            args += ["--layout", os.path.join(core.SPEC, "lex", f"{lang}_layout.json")]
        go(f"{lang}-mutations", items, "muts", args)


# ------------------------------------------------------------------ the token list API
def js_tokens(c, op, jobs, canary, runs=3, more=()):
    c.assumptions.append(JS)
    args = ["--layout", os.path.join(core.SPEC, "lex", "js_layout.json"), "--runs", runs, "--op", op]
    for start, total in [(name, len(items)) for name, items in more] + jobs:
        k = 0
        while total > 0:
            n = min(total, 8000)
            if start in dict(more):
                items = dict(more)[start][k * 8000:(k + 1) * 8000]
            else:
                items = c.generate(f"{start}-{k}", "JsGrammar.tla", {"VF_START": start, "VF_LIC": 8, "VF_FUEL": 30, "VF_REPS": 1}, num=n)
            recs = c.replay(f"{start}-{k}", items, "tokens", args)
            can = []
            for r in recs:
                if "crash" in r or any(x["st"] != "ok" for x in r["runs"]):
                    continue
                x = copy.deepcopy(r)
                if canary(x["runs"][len(can) % runs]):
                    can.append(x)
                if len(can) == 4:
                    break
            c.validate(f"{start}-{k}", "JsTokensTrace.tla", recs, canaries=can, ctx={"cmd": "tokens", "args": args})
            total -= n
            k += 1


def many(c, n):
    """Programs with many strings (spec/JsMany.tla)."""
    items = c.generate("many", "JsMany.tla", {}, mode="bfs", cfg="Soup.cfg")
    return [("many", items if c.thorough else c.rng.sample(items, n))]


AGG = [("AggProg", 2400, 60000), ("Prog", 300, 6000)]


def amounts(c, jobs):
    return [(s, t if c.thorough else q) for s, q, t in jobs]


@check("C14")
def c14(c):
    def canary(run):
        refs = [i for i, t in enumerate(run["a"]) if t[0] == "CreatedVar"]
        names = sorted({run["a"][i][1] for i in refs})
        if len(names) < 2:
            return False
        run["a"][refs[0]][1] = next(n for n in names if n != run["a"][refs[0]][1])
        return True
    js_tokens(c, "agg", amounts(c, AGG), canary, more=many(c, 10))


@check("C15")
def c15(c):
    def canary(run):
        at = [i for i, t in enumerate(run["a"]) if t[0] == "CreatedVarDecl"]
        words = [t[1] for t in run["b"] if t[0] == "Other"]
        if not at or not words:
            return False
        d = run["a"][at[0]]
        d[1] = words[0] + d[1][d[1].index("="):]
        return True
    # a supply of names that has to last
    for n in ("few", "many"):
        items = c.generate("names-" + n, "JsNames.tla", {"VF_N": n}, mode="bfs", cfg="Soup.cfg")
        if not c.thorough:
            items = c.rng.sample(items, 300 if n == "few" else 6)
        recs = c.replay("names-" + n, items, "names")
        can = []
        for r in [r for r in recs if r.get("st") == "ok" and len(r["names"]) > 1][:2]:
            x = copy.deepcopy(r)
            k = len(can)
            x["names"][-1][0] = x["names"][0][0] if k == 0 or not x["taken"] else x["taken"][0]
            can.append(x)
        c.validate("names-" + n, "JsNamesTrace.tla", recs, canaries=can, ctx={"cmd": "names", "args": []})
    js_tokens(c, "agg", amounts(c, [("AggProg", 1500, 60000), ("Prog", 200, 6000)]), canary)


@check("C16")
def c16(c):
    def canary(run):
        refs = [i for i, t in enumerate(run["a"]) if t[0] == "CreatedVar" and t[1].startswith("R[")]
        refs = [i for i in refs if any(run["a"][j][1] != run["a"][i][1] for j in refs)]
        if not refs:
            return False
        run["a"][refs[0]][1] = next(run["a"][j][1] for j in refs if run["a"][j][1] != run["a"][refs[0]][1])
        return True
    js_tokens(c, "arr", amounts(c, [("AggArr", 2400, 60000), ("Prog", 300, 6000)]), canary, more=many(c, 24))


@check("C17")
def c17(c):
    def canary(run):
        a = run["a"] if run["l"] and len(run["l"]) % 2 else run["filters"][0]["a"]
        at = [i for i in range(1, len(a) - 1) if a[i] not in (["Char", " "], ["Char", ";"])]
        if not at:
            return False
        del a[at[-1]]
        return True
    js_tokens(c, "clean", amounts(c, [("Prog", 700, 20000), ("AggProg", 500, 10000)]), canary)


@check("C18")
def c18(c):
    def canary(run):
        f = [f for f in run["found"] if len(f[1]) == 2 and all(t[0] in ("Other", "Comment", "Char") or t == ["Operation", "="] for t in run["b"][f[0]:f[1][1] - 1])]
        if f and len(run["b"]) % 2:
            f[0][1] = f[0][1][:1]
            return True
        if len(run["b"]) % 2 == 0 and run["b"]:
            run["reps"][1]["a"].pop()
            return True
        return False
    js_tokens(c, "edit", amounts(c, [("Decl1", 900, 30000), ("Prog", 200, 6000)]), canary)


# ------------------------------------------------------------------ writers
@check("C19")
def c19(c):
    t = c.thorough
    base = {"VF_MODE": "mc", "VF_DEFECT": "none", "VF_OUT": "", "VF_N": 0}
    c.model("writer", "Writer.tla", "Writer.cfg", base)
    for d, e in (("short", "is violated"), ("noRetry", "is violated"), ("swallow", "is violated"), ("spin", "Stuttering")):
        c.model(f"defect-{d}", "Writer.tla", "Writer.cfg", dict(base, VF_DEFECT=d), expect=e)
    sched = c.generate("schedules", "Writer.tla", {"VF_DEFECT": "none", "VF_N": 60 if t else 30}, mode="bfs", cfg="Soup.cfg")
    more = c.generate("random-schedules", "Writer.tla", {"VF_DEFECT": "none", "VF_N": 0}, num=20000 if t else 2000, cfg="Soup.cfg")
    n = 4000 if t else 500
    texts = {"js": c.generate("js", "JsGrammar.tla", {"VF_START": "Prog", "VF_LIC": 30, "VF_FUEL": 16, "VF_REPS": 1}, num=n),
             "css": c.generate("css", "CssGrammar.tla", {"VF_START": "Sheet", "VF_LIC": 30, "VF_FUEL": 16, "VF_REPS": 1, "VF_STRICT": 0}, num=n),
             "json": c.generate("json", "JsonText.tla", {"VF_LEN": 40, "VF_DEPTH": 5}, num=n, cfg="JsonText.cfg")}
    for lang, items in texts.items():
        args = [] if lang == "json" else ["--layout", os.path.join(core.SPEC, "lex", f"{lang}_layout.json")]
        todo = []
        for k in range(30000 if t else 3000):
            # every scheduled failure, on short and long texts
            s = sched[k % len(sched)] if k % 2 else c.rng.choice(more)
            x = items[c.rng.randrange(len(items))]
            todo.append(dict({a: x[a] for a in ("t", "g", "src") if a in x}, lang=lang, **s))
        recs = c.replay(lang, todo, "write", args)
        can = []
        for r in [r for r in recs if r.get("st") == "ok" and len(r["shown"]) > 4 and r["ev"]]:
            x = copy.deepcopy(r)
            k = len(can)
            last = max(j for j, e in enumerate(x["ev"]) if e[2])
            if k == 0:
                x["ev"][last][2][-1] ^= 1
            elif k == 1:
                x["ev"][last][2].pop()
            elif k == 2:
                x["st"] = "Other"
            else:
                x["same"] = False
            can.append(x)
            if k == 3:
                break
        bad = next((r for r in recs if r.get("st") not in ("ok", None)), None)
        if bad:
            can.append(dict(bad, st="ok"))
        c.validate(lang, "WriterTrace.tla", recs, cfg="StreamTrace.cfg", canaries=can, ctx={"cmd": "write", "args": args})


# ------------------------------------------------------------------ the command line
def cli_runs(c):
    t = c.thorough
    binary = core.build_cli()
    c.note("command line built")
    uid = 65534 if cli.may_change_user() else 0
    base = {"VF_DEFECT": "none"}
    for d, e in (("stop", "is violated"), ("truncate", "is violated"), ("inplace", "is violated")):
        c.model(f"defect-{d}", "CliRun.tla", "CliRun.cfg", {"VF_START": "lists", "VF_DEFECT": d, "VF_OUT": "/dev/null"}, expect=e)
    ids, table = cli.library(c)
    cap = None if t else 2000
    for focus, mode, n in (("types", "bfs", 0), ("outs", "bfs", 0), ("lists", "bfs", 0), ("any", "sim", 40000 if t else 2000)):
        items = c.generate(focus, "CliRun.tla", dict(base, VF_START=focus), mode=mode, num=n, cfg="CliRun.cfg", limit=cap)
        if not uid:
            items = [x for x in items if not any(e[1] == "<locked>" for e in x["fs"])]
        for x in items:
            x["good"] = x["good"] or []
        recs = cli.record(c, focus, items, binary, ids, table, uid)
        can, ctx = [], {"cmd": "cli", "args": []}
        bad = lambda r: len(r["good"]) < len(r["args"])
        for r in c.rng.sample(recs, len(recs)):
            if "crash" in r or bad(r) != (c.prop == "C21"):
                continue
            x = copy.deepcopy(r)
            files = [f for f in x["found"] if f[1] != "<dir>"]
            if len(can) == 0 and files:
                files[0][1] = "?changed"
            elif len(can) == 1 and files:
                x["found"].remove(files[-1])
            elif len(can) == 2:
                x["found"].append([["base", "w", "stray"], "js"])
            elif len(can) == 3:
                x["crash"] = "panic"
            elif len(can) == 4 and c.prop == "C21":
                x["reported"] = [False for _ in x["reported"]]
            else:
                continue
            can.append(x)
        c.validate(focus, "CliTrace.tla", recs, cfg="StreamTrace.cfg", canaries=can, ctx=ctx)


@check("C20")
def c20(c):
    cli_runs(c)


@check("C21")
def c21(c):
    cli_runs(c)


# ------------------------------------------------------------------ HTML
HTML = "Layouts of generated documents are drawn from a fixed set of whitespace and comment atoms; pieces from spec/lex/html.json."


def html_docs(c, adj, progs):
    c.assumptions.append(HTML)
    items = []
    for start, q, t in adj:
        items += c.generate(start, "HtmlGrammar.tla", {"VF_START": start, "VF_FUEL": 100, "VF_REPS": t if c.thorough else q}, mode="bfs")
    if not c.thorough and len(items) > 5000:
        items = c.rng.sample(items, 5000)
    for k in range(0, len(items), 150000):
        lex_pipeline(c, f"neighbours-{k}", "html", items[k:k + 150000], "HtmlTrace.tla", runs=4, canaries=html_canaries)
    for start, fuel, q, t in progs:
        total, k = (t if c.thorough else q), 0
        while total > 0:
            n = min(total, 12000)
            items = c.generate(f"{start}-{fuel}-{k}", "HtmlGrammar.tla", {"VF_START": start, "VF_FUEL": fuel, "VF_REPS": 1}, num=n)
            lex_pipeline(c, f"{start}-{fuel}-{k}", "html", items, "HtmlTrace.tla", runs=5, canaries=html_canaries)
            total -= n
            k += 1


@check("C22", html=True)
def c22(c):
    comments(c, "html", "HtmlTrace.tla", False)
    html_docs(c, [("Adj", 4, 30)], [("Doc", 24, 1600, 60000)])


@check("C23", html=True)
def c23(c):
    html_docs(c, [], [("PreDoc", 16, 1600, 40000), ("PreDoc", 40, 400, 20000)])


@check("C24", html=True)
def c24(c):
    html_docs(c, [("AdjA", 2, 4)], [("Doc", 24, 1200, 40000), ("PreDoc", 24, 400, 20000)])
