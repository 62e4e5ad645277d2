"""Runs the command line on file systems and argument lists of spec/CliRun.tla, inside scratch
directories and as an unprivileged user, and records the files it leaves. Judges nothing."""
import json, multiprocessing, os, resource, shutil, signal, subprocess

CONTENTS = {
    "js": b"// a function\nvar  add = function (a , b) {\n  return a + b ;  // sum\n} ;\n",
    "js2": b"let s = 'x  y' , t = `a ${ s + 1 } b` ;\nif (s) { s . t = /re  x/g ; }\n",
    "css": b"/* c */ a , b > c {\n  color : red ;\n  background: url( x.png ) ;\n}\n@media screen { p { margin : 0 } }\n",
    "css2": b".x   .y { width : calc( 1px + 2px ) }",
    "json": b'{ "a" : [ 1 , 2 , "x  y" ] ,\n "b" : null }\n',
    "empty": b"",
    "bom": b"\xef\xbb\xbfa { b : c }\n",
    "wide": "a::before { content : 'é → 中 😀' ; }\n".encode(),
    "big": b"abc { d : e }\n" * 9000,
    "crlf": b"a {\r\n b : c ;\r\n d : e ;\r\n}\r\n",
    "cssbad": b"a { b : c } }\n",
    "cssbad2": b"a { b : 'c ; }\n",
    "<nottext>": b"a { b : \xff\xfe }\n",
}
BASE = "base"


def library(c):
    """<<type, content>> -> content, for everything that can be reached: what the library says."""
    ids = {}
    for k, v in CONTENTS.items():
        if k != "<nottext>":
            ids[v.decode()] = k
    table, todo, done = [], list(ids), set()
    while todo:
        items = [{"lang": t, "src": s} for s in todo for t in ("css", "js", "json")]
        new = []
        for lang in ("css", "js", "json"):
            its = [x for x in items if x["lang"] == lang]
            for r in c.replay("library-" + lang, its, "raw", ["--lang", lang], procs=1):
                if "crash" in r or r["st"] == "panic":
                    continue
                if r["st"] == "err":
                    table.append([lang, ids[r["src"]], "<reject>"])
                    continue
                if r["out"] not in ids:
                    ids[r["out"]] = f"k{len(ids)}"
                    new.append(r["out"])
                table.append([lang, ids[r["src"]], ids[r["out"]]])
        todo = new
        if len(ids) > 400:
            break
    return ids, table


def path(base, a):
    if a["abs"]:
        return "/".join([base] + a["comps"])
    return "/".join(a["comps"])


def snapshot(base, ids, nottext):
    res, prefix = [[[], "<dir>"]], [x for x in base.split("/") if x]
    def name(p):
        comps = [x for x in p.split("/") if x][len(prefix):]
        # the scratch directory is one name in the specification
        out, i = [BASE], 0
        while i < len(comps):
            if comps[i:i + len(prefix)] == prefix:
                out.append(BASE)
                i += len(prefix)
            else:
                out.append(comps[i])
                i += 1
        return out
    for root, dirs, files in os.walk(base):
        res.append([name(root), "<dir>"])
        for f in files:
            p = os.path.join(root, f)
            if os.stat(p).st_mode & 0o777 == 0:
                res.append([name(p), "<locked>" if os.path.getsize(p) == 6 else "<locked and changed>"])
                continue
            with open(p, "rb") as h:
                b = h.read()
            if b == nottext:
                res.append([name(p), "<nottext>"])
                continue
            try:
                t = b.decode()
                res.append([name(p), ids.get(t, "?" + t[:200])])
            except UnicodeDecodeError:
                res.append([name(p), "?" + repr(b[:80])])
    return res


def lower(uid):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        if uid:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
    return f


def one(job):
    binary, base, uid, ids, item, args = job
    shutil.rmtree(base, ignore_errors=True)
    own = []
    os.makedirs(base)
    own.append(base)
    for p, c in sorted(item["fs"], key=lambda x: len(x[0])):
        if len(p) < 2:
            continue
        q = os.path.join(base, *p[1:])
        if c == "<dir>":
            os.makedirs(q, exist_ok=True)
        else:
            with open(q, "wb") as h:
                h.write(b"locked" if c == "<locked>" else CONTENTS[c])
            if c == "<locked>":
                os.chmod(q, 0)
        own.append(q)
    if uid:
        for q in own:
            os.chown(q, uid, uid)
    o, files = item["opts"], [path(base, a) for a in args]
    opt = []
    st = item["style"]
    if o["type"]:
        opt += [["-t", o["type"]], ["--type", o["type"]], ["--type=" + o["type"]], ["-t" + o["type"]]][st]
    if o["out"]["comps"]:
        out = path(base, o["out"])
        opt += [["-o", out], ["--out", out], ["--out=" + out], ["-o", out]][st]
    argv = [opt + files, files + opt, files[:1] + opt + files[1:], opt + ["--"] + files][st]
    try:
        r = subprocess.run([binary] + argv, cwd=os.path.join(base, "w"), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=15, preexec_fn=lower(uid), env={"PATH": "/nonexistent"})
        crash = "panic" if r.returncode == 101 or b"panicked at" in r.stderr else f"signal {-r.returncode}" if r.returncode < 0 else None
        err = r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        crash, err = "hang", ""
    found = snapshot(base, ids, CONTENTS["<nottext>"])
    shutil.rmtree(base, ignore_errors=True)
    return {"argv": argv, "crash": crash, "found": found, "reported": [f in err or repr(f)[1:-1] in err for f in files], "err": err[-300:]}


HANGS = multiprocessing.get_context("fork").Value("i", 0)


def both(job):
    binary, base, uid, ids, item = job
    if HANGS.value > 8:  # it hangs: that is known by now
        return None
    r = one((binary, base, uid, ids, item, item["args"]))
    good = sorted(item["good"])
    item = dict(item, good=good)
    if len(good) == len(item["args"]):
        w = r
    else:
        w = one((binary, base, uid, ids, item, [item["args"][i - 1] for i in good]))
    rec = dict(item, argv=r["argv"], found=r["found"], foundGood=w["found"], reported=r["reported"], err=r["err"])
    if r["crash"]:
        rec["crash"] = r["crash"]
        if r["crash"] == "hang":
            HANGS.value += 1
    return rec


def record(c, name, items, binary, ids, table, uid):
    d = c.fresh("cli-" + name)
    for q in (c.dir, d):
        os.chmod(q, 0o755)
    jobs = [(binary, os.path.join(d, f"s{k}"), uid, ids, it) for k, it in enumerate(items)]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        recs = [r for r in pool.map(both, jobs, chunksize=8) if r]
    lib = {}
    for t, s, o in table:
        lib.setdefault(s, []).append([t, s, o])
    for r in recs:
        # only what the run can need
        need, todo = [], [x[1] for x in r["fs"]]
        seen = set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for e in lib.get(s, ()):
                need.append(e)
                todo.append(e[2])
        r["lib"] = need
    c.note(f"ran the command {len(recs)} times ({name})")
    return recs


def may_change_user():
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            os._exit(0)
        except OSError:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0
