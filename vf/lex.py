"""Lexeme sequences with layouts: replay and validation."""
import copy, json, os
from . import core


def lex_pipeline(c, name, lang, items, module, runs=4, control=False, canaries=None, env=None, layout=None):
    if layout:
        env = dict(env or {}, VF_LAYOUT=layout)
    layout = layout or os.path.join(core.SPEC, "lex", f"{lang}_layout.json")
    args = ["--lang", lang, "--layout", layout, "--runs", runs] + (["--control", "1"] if control else [])
    recs = c.replay(name, items, "lex", args)
    ctx = {"cmd": "lex", "args": args, "env": env}
    can = canaries(c, recs) if canaries else []
    c.validate(name, module, recs, env=env, canaries=can, ctx=ctx)


# The programs and sheets in which every comment is put in every place.
FRAMES = {
    "js": [(["x", "=", "a", "+", "b", ";", "y", "(", "c", ")", ";"], None)],
    "css": [(["a", "{", "b", ":", "c", ",", "d", "}", "e", ">", "f", "{", "}"], ["sel"] + ["decl"] * 7 + ["sel"] * 3 + ["decl"] * 2)],
    "html": [(["a", "<p>", "b", "</p>", "<br>", "<i>", "c", "d"], None)],
}


def comments(c, lang, module, control):
    """Every comment of spec/Comments.tla, in every place of the frames."""
    got = []
    forms = {"js": ("block", "line"), "css": ("block",), "html": ("html",)}[lang]
    for form in forms:
        n = {"block": 4, "line": 3, "html": 4}[form] + (1 if c.thorough else 0)
        got += c.generate(f"every-{form}", "Comments.tla", {"VF_LANG": lang, "VF_START": form, "VF_LEN": n}, mode="bfs", cfg="Soup.cfg",
                          limit=None if c.thorough else 6000)
        got += c.generate(f"long-{form}", "Comments.tla", {"VF_LANG": lang, "VF_START": form, "VF_LEN": 20}, num=20000 if c.thorough else 1000, cfg="Soup.cfg")
    with open(os.path.join(core.SPEC, "lex", f"{lang}_layout.json"), encoding="utf-8") as f:
        lay = json.load(f)
    gap = {"js": "any", "css": "opt", "html": "txt"}[lang]
    end = {"js": "end", "css": "opt", "html": "txt"}[lang]
    plain, lics = [], []
    for x in got:
        if x["k"].startswith("Lic"):
            lics.append(x["s"])
        else:
            plain.append(len(lay["atoms"]))
            lay["atoms"].append({"s": x["s"], "k": x["k"]})
    for k in {gap, end}:
        lay["kinds"][k]["atoms"] += plain
    path = os.path.join(core.BUILD, f"layout-{c.prop}-{lang}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(lay, f)
    items = []
    c.rng.shuffle(plain)
    c.rng.shuffle(lics)
    RUNS = 4
    for t, r in FRAMES[lang]:
        g = [gap] * len(t) + [end]
        todo = list(plain)
        while todo:
            runs = []
            for k in range(RUNS):
                take, todo = todo[:len(g)], todo[len(g):]
                runs.append({"l": [[take[j]] if j < len(take) else [] for j in range(len(g))]})
            items.append({"t": t, "c": ["="] * len(t), "g": g, "runs": runs, **({"r": r} if r else {})})
        todo = list(lics)
        while todo:
            tt, cc, rr = [], [], []
            for j, x in enumerate(t + [None]):
                if todo and (j % 3 == 0 or x is None):
                    tt.append(todo.pop())
                    cc.append("Lic")
                    rr.append(r[min(j, len(r) - 1)] if r else "")
                if x is not None:
                    tt.append(x)
                    cc.append("=")
                    rr.append(r[j] if r else "")
            items.append({"t": tt, "c": cc, "g": [gap] * len(tt) + [end], "runs": [{"l": [[] for _ in range(len(tt) + 1)]}, {"l": [[0] for _ in range(len(tt) + 1)]}] * (RUNS // 2),
                          **({"r": rr} if r else {})})
    for k in range(0, len(items), 20000):
        lex_pipeline(c, f"comments-{k}", lang, items[k:k + 20000], module, runs=RUNS, control=control, layout=path)


def good(recs, need=lambda r: True):
    """Records to corrupt: complete ones, long enough."""
    return [r for r in recs if "crash" not in r and len(r["t"]) >= 5 and all(x["st"] == "ok" for x in r["runs"]) and need(r)]


def js_canaries(c, recs):
    res = []
    pool = good(recs)[:200]
    if c.prop in ("C04", "C06"):
        for r in pool[:3]:
            x = copy.deepcopy(r)
            o = x["runs"][-1]["out"]
            if len(o) < 6:
                continue
            if c.prop == "C04":  # the last token is gone
                x["runs"][-1]["out"] = o[:len(o.rstrip()) - 1]
            else:  # a comment is left
                x["runs"][-1]["out"] = o + "/* c */"
                if not all(run["pst"] == "ok" for run in x["runs"]):
                    continue
            res.append(x)
    elif c.prop == "C05":
        for r in pool:
            lits = [t for t, k in zip(r["t"], r["c"]) if k in ("Str", "Tmpl") and len(t) > 4]
            o = r["runs"][-1]["out"]
            if lits and o.count(lits[0]) == 1:
                x = copy.deepcopy(r)
                p = o.index(lits[0])
                x["runs"][-1]["out"] = o[:p + 2] + o[p + 3:]
                if x["runs"][-1]["out"].count(lits[0]) == 0:
                    res.append(x)
            if len(res) == 3:
                break
    elif c.prop == "C07":
        for r in pool:
            # neither a private name nor a number before a dot
            if any(t.startswith("#") or (t == "." and (r["t"][i - 1][0].isdigit() or r["t"][i - 1][0] == ".")) for i, t in enumerate(r["t"])):
                continue
            for field in ("out", "re"):
                x = copy.deepcopy(r)
                x["runs"][-1][field] += " "
                res.append(x)
            if len(res) >= 4:
                break
    return res


def css_canaries(c, recs):
    res = []
    want = {"C09": "sel", "C10": "decl"}.get(c.prop)
    for r in good(recs)[:400]:
        x = copy.deepcopy(r)
        run = x["runs"][-1]
        if c.prop in ("C09", "C10"):
            # a component of the region that occurs once is damaged
            for t, k, reg in zip(r["t"], r["c"], r["r"]):
                if reg == want and k != "Lic" and len(t) > 2 and sum(t in u for u in r["t"]) == 1 and run["out"].count(t) == 1:
                    p = run["out"].index(t)
                    run["out"] = run["out"][:p + 1] + run["out"][p + 2:]
                    if not (set(t[1]) & set(" \t\n\r\f")):
                        res.append(x)
                    break
        elif c.prop == "C11":
            if all(q["pst"] == "ok" for q in r["runs"]):
                run["out"] += "/* c */"
                res.append(x)
        else:
            run["re" if len(res) % 2 else "out"] += " "
            res.append(x)
        if len(res) >= 4:
            break
    return res


def html_canaries(c, recs):
    res = []
    for r in good(recs)[:400]:
        run_ok = all(run["st"] == "ok" for run in r["runs"])
        pre = any(t.lower() in ("<pre", "<textarea") for t in r["t"])
        if not run_ok or pre != (c.prop == "C23") and c.prop != "C24":
            continue
        x = copy.deepcopy(r)
        run = x["runs"][-1]
        o = run["out"]
        if c.prop == "C24":
            # a quoted value loses a character or an attribute its name
            vals = [t for t, k in zip(r["t"], r["c"]) if k in ("DV", "SV") and len(t) > 3 and not set(t) & set(" \t\r\n\f") and o.count(t) == 1]
            if not vals:
                continue
            p = o.index(vals[0])
            run["out"] = o[:p + 1] + o[p + 2:] if len(res) % 2 else o[:p + 1] + "?" + o[p + 1:]
        elif len(res) % 2:
            run["out"] = o + " "
        else:
            run["out"] = o[:-1]
        res.append(x)
        if len(res) >= 4:
            break
    return res
