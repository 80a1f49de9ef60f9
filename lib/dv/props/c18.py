"""C18: read handles and the answers they give (Handle.tla, HandleTrace.tla)."""
import os, random
from .. import deltafile as D, gen
from ..driver import errname
from ..rpmfile import F, Pkg
from .c07 import CL, synthetic, pkgcomp

CONSTS = 'CONSTANTS\n Names = {"f", "g", "h"}\n Contents = {"d1", "d2", "d3", "d4"}\n NH = 3\n NR = 6\n MaxCell = 20\n'
def stored(x, body):
    """items 0..18 of a delta, in the driver's notation"""
    u = lambda v: v & 0xffffffff
    inter = lambda ps: [u(v) for p in ps for v in p]
    hx = lambda b: b.hex().encode().hex()
    v = [None] * 19
    v[1] = x.version; v[2] = 0 if x.type == "standard" else 1; v[3] = D.COMPS.index(x.comp); v[4] = hx(x.sequence); v[5] = x.src_nevr.encode().hex(); v[6] = x.tgt_nevr.encode().hex()
    v[7] = x.tgt_size if x.version >= 2 else 0; v[8] = hx(x.tgt_md5)
    v[9] = D.COMPS.index(D.UNDISK[x.raw["tgt_comp"] & 0xff]) if x.version >= 2 else pkgcomp(x)
    v[10] = hx(x.tgt_comp_param) if x.version >= 2 and x.tgt_comp_param else None
    v[11] = x.tgt_header_len if x.version >= 3 else 0
    v[12] = inter(x.offadj) if x.version >= 3 else []
    v[13] = hx(x.leadsig); v[14] = x.payload_fmt_off; v[15] = inter(x.int_copies); v[16] = inter(x.ext_copies); v[17] = x.ext_data_len; v[18] = len(x.int_data)
    return v
def val(v): return "null" if v is None else "[]null" if v == [] else str(v)
def spoilt(v): return "null" if v is None else "23" * (len(v) // 2) if isinstance(v, str) else val([2 ** 64 - 1] * len(v)) if isinstance(v, list) else "-"

def case(ck):
    def run(d, c):
        rng = random.Random("%d-%s" % (ck.seed, c["k"]))
        dr = ck.dir(); P = lambda n: os.path.join(dr, n)
        truth, raw = {}, {"junk": rng.choice([b"", b"no delta", rng.randbytes(500), Pkg(name="p", files=[F("/p", content=b"x")]).bytes()])}
        for n in ("d1", "d2", "d3", "d4"):
            ty, ver = rng.choice([("standard", 1), ("standard", 2), ("standard", 3), ("rpmonly", 3), ("rpmonly", 3)])
            x = synthetic(rng, ty, ver, rng.choice(D.COMPS)); raw[n] = x.encode()
            v = stored(x, None); truth[n] = {"v": [val(y) for y in v], "s": [spoilt(y) for y in v]}
        names = {n: {"v": P(n).encode().hex(), "s": "23" * len(P(n).encode())} for n in "fgh"}
        files = dict(c["files"])
        def put(n, w):
            t = P(n)
            return [["unlink", t]] if w == "missing" else [["copy", P("src-" + w), t]]
        for w, b in raw.items():
            with open(P("src-" + w), "wb") as f: f.write(b)
        ops, at = [], []
        for n, w in files.items(): ops += put(n, w)
        for o in c["ops"]:
            k = o["op"]; s = len(ops)
            if k == "read": ops.append(["read", o["h"], P(o["f"])])
            elif k == "readbad": ops.append(["read", None if o["nullh"] else 0, P("f") if o["nullh"] else None])
            elif k == "get": ops.append([o["g"], o["h"], o["t"], o["r"] if o["r"] else -1, 0])
            elif k == "getnull": ops.append([o["g"], o["h"], o["t"], -1, rng.choice([1, 2, 3]) if o["g"] == "ga" else 1])
            elif k == "show": ops.append(["show", o["r"]])
            elif k in ("scribble", "drop", "destroy"): ops.append([k, o["r"] if k != "destroy" else o["h"]])
            elif k == "replace": ops += put(o["f"], o["c"])
            at.append(s)
        r = d.session(ops, 60)
        ev = [{"e": "case", "files": files, "truth": truth}]
        if r.crash: return [("crash-" + (r.ops[-1]["op"] if r.ops else "?"), "%s\n%s" % (r.crash, r.stderr[-1500:]))], []
        for o, i in zip(c["ops"], at):
            q = r[i]; e = {"e": "op", "op": o, "rc": errname(q["rc"]), "names": names}
            if "hnull" in q: e["hnull"] = bool(q["hnull"] or (q.get("huntouched") and q["rc"] == 2))
            if o["op"] in ("get", "getnull"): e["touched"] = bool(q.get("touched"))
            if o["op"] in ("get", "show"):
                e["v"] = val(q["v"]) if not q.get("nullarr") == 0 else "[]"
                if o["op"] == "show" and q["v"] == []: e["v"] = "[]null"
            ev.append(e)
        return [], ev
    return run

def walks(ck, n, depth):
    out = []
    for w in ck.walks("Handle", "SPECIFICATION Walks\n" + CONSTS + "INVARIANTS Apart Exact Faithful Untouched\nCONSTRAINT Emit\n", n, depth):
        files, o = dict(w[0]["file"]), w[0]["op"]
        if o["op"] == "replace": files[o["f"]] = "junk" if o["c"] == "missing" else "missing"        # (something else before)
        out.append({"files": files, "ops": [x["op"] for x in w]})
    return out
def run(ck):
    rng = random.Random(ck.seed)
    ck.tlc("Handle", 'SPECIFICATION Spec\nCONSTANTS\n Names = {"f", "g"}\n Contents = {"d1"%s}\n NH = 2\n NR = %d\n MaxCell = %d\nVIEW View\nINVARIANTS Apart Exact Faithful Untouched OneKind\n' % ((', "d2"', 1, 4) if ck.thorough else ("", 1, 4)), workers=6, timeout=850)
    cases = []
    for i, w in enumerate(walks(ck, ck.q(250, 5000), ck.q(120, 200))): cases.append(dict(w, k="w%d" % i))
    # every getter with every item, on every kind of handle
    allops = [{"op": "read", "h": 1, "f": "f", "rc": "?"}]
    for g in ("gu", "gul", "gull", "gs", "ga"):
        ans = {"gu": (1, 2, 3, 7, 9), "gul": (1, 2, 3, 7, 9, 11, 14), "gull": (1, 2, 3, 7, 9, 11, 14, 17, 18), "gs": (0, 4, 5, 6, 8, 10, 13), "ga": (12, 15, 16)}[g]
        for t in list(range(19)) + [-1, 19, 255]:
            kept = t in ans and g in ("gs", "ga")
            for _ in range(2): allops += [{"op": "get", "h": 1, "g": g, "t": t, "r": 1 if kept else 0, "rc": "?"}] + ([{"op": "show", "r": 1}, {"op": "scribble", "r": 1}, {"op": "drop", "r": 1}] if kept else [])
            allops.append({"op": "get", "h": 2, "g": g, "t": t, "r": 0, "rc": "?"})
            if 0 <= t < 19: allops.append({"op": "getnull", "h": 1, "g": g, "t": t, "rc": "?"})
    allops += [{"op": "destroy", "h": 1, "rc": "?"}, {"op": "destroy", "h": 1, "rc": "?"}]
    for i in range(ck.q(40, 400)): cases.append({"k": "all%d" % i, "files": {"f": "d%d" % (i % 4 + 1), "g": "junk", "h": "missing"}, "ops": allops})
    pool = ck.pool("asan")
    ck.run_traced(pool, cases, case(ck), "HandleTrace", CONSTS, chunk=3000, key=lambda c: c["k"], budget=ck.q(250, 2500),
                  sig=lambda e: "%s-%s-%s-%s" % (e["op"]["op"], e["op"].get("g"), e["op"].get("t"), e.get("rc")))
    for c in cases[:3]: ck.sample({"k": c["k"], "ops": c["ops"][:8]})
    return ck.finish("model_checking", "random walks of Handle.tla replayed on the library (three handles, six kept answers, files that change after being read), and every getter asked for every item; all results decided by HandleTrace.tla from what the files store")
