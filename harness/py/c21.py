"""C21: pretty-printing a token-set file changes layout only.

pretty.py from the repository is run on generated JSON documents (hypothesis)
and judged by an own scanner of its output.
"""
import argparse, glob, hashlib, io, json, math, multiprocessing, os, re, runpy, shutil, subprocess, sys, tempfile, time, traceback, warnings

warnings.filterwarnings("ignore")
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as st

RULE = ("JSON documents: random nestings of lists and objects with keys and values (strings with quotes, escapes, control and "
        "non-BMP characters, integers of any size, floats from denormal to 1.7e308, -0.0, null, booleans), lengths drawn around "
        "the line width, and documents shaped like token-set files; each given to pretty.py in one of several spellings (compact, "
        "ASCII escapes, indented, odd white space). Non-trivial: the document does not fit on one line.")
WIDTH = 80


class Broken(Exception):
    pass


# ---------------------------------------------------------------- oracle

class Pairs(list):
    """An object as the list of its members."""


def parse(text):
    def bad(x):
        raise ValueError("not JSON: " + x)
    return json.loads(text, object_pairs_hook=Pairs, parse_constant=bad)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Pairs):
        return len(a) == len(b) and all(k == l and same(v, w) for (k, v), (l, w) in zip(a, b))
    if isinstance(a, list):
        return len(a) == len(b) and all(same(v, w) for v, w in zip(a, b))
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def dump(v):
    """One-line rendering."""
    if isinstance(v, Pairs):
        return "{" + ", ".join(json.dumps(k, ensure_ascii=False) + ": " + dump(w) for k, w in v) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(map(dump, v)) + "]"
    return json.dumps(v, ensure_ascii=False)


STR = re.compile(r'"(?:[^"\\]|\\.)*"', re.S)


def broken_values(text):
    """(column where it starts, text) of every list and object that is spread
    over several lines, with its place."""
    out, stack = [], []
    i = line = col0 = 0
    while i < len(text):
        c = text[i]
        if c == '"':
            m = STR.match(text, i)
            i = m.end()
            continue
        if c in "[{":
            stack.append((i, line, i - col0))
        elif c in "]}":
            s, l, col = stack.pop()
            if l != line:
                out.append((col, text[s:i + 1]))
        elif c == "\n":
            line += 1
            col0 = i + 1
        i += 1
    return out


def judge(orig, got, again):
    try:
        a = parse(orig)
    except Exception as e:
        raise RuntimeError("bad document generated: %r" % e)
    try:
        b = parse(got)
    except Exception as e:
        raise Broken("pretty.py makes %s out of %s, which is not JSON: %s" % (cut(got), cut(orig), e))
    if not same(a, b):
        raise Broken("pretty.py makes %s out of %s" % (cut(got), cut(orig)))
    if again != got:
        raise Broken("pretty.py run again on its output %s makes it %s" % (cut(got), cut(again)))
    for col, sub in broken_values(got):
        short = dump(parse(sub))
        if col + len(short) <= WIDTH:
            raise Broken("a value that fits the line (column %d, %d characters) is spread over lines: %s" % (col, len(short), cut(sub)))


def cut(s):
    s = ascii(s)
    return s if len(s) < 400 else s[:200] + " ... " + s[-180:]


# ---------------------------------------------------------------- running it

def run_inproc(script, path):
    argv, sys.argv = sys.argv, [script, path]
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        runpy.run_path(script, run_name="__main__")
    except SystemExit as e:
        if e.code not in (None, 0):
            raise Broken("pretty.py exits with %r" % (e.code,))
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        raise Broken("pretty.py fails: %s: %s" % (type(e).__name__, str(e)[:300]))
    finally:
        sys.argv = argv
        sys.stdout = out


def run_sub(script, path):
    e = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONDONTWRITEBYTECODE": "1"}
    r = subprocess.run([sys.executable, script, path], env=e, capture_output=True, timeout=60)
    if r.returncode != 0:
        raise Broken("pretty.py exits with %d: %s" % (r.returncode, r.stderr.decode("utf-8", "replace")[-300:]))


def check_text(script, scratch, text, runner):
    path = os.path.join(scratch, "doc.json")
    with open(path, "wb") as f:
        f.write(text.encode("utf-8"))
    res = []
    for _ in range(2):
        runner(script, path)
        with open(path, "rb") as f:
            raw = f.read()
        try:
            res.append(raw.decode("utf-8"))
        except UnicodeDecodeError:
            raise Broken("pretty.py writes something other than UTF-8 for %s" % cut(text))
    judge(text, res[0], res[1])
    return res[0]


def check_shipped(a, scratch, name, o):
    script = os.path.join(a.repo, "pretty.py")
    with open(os.path.join(a.repo, "tokens", name), encoding="utf-8") as f:
        text = f.read()
    got = check_text(script, scratch, text, run_sub)
    # the program reads the same set
    outs = []
    data = os.path.join(scratch, "data.txt")
    with open(data, "w", encoding="utf-8") as f:
        f.write("The quick brown fox.\n\nJumps OVER the lazy dog; \u4e2d\u6587 d\u00e9j\u00e0 vu 42.\n" * 5)
    for what, t in (("a", text), ("b", got)):
        d = os.path.join(scratch, what)
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        src = os.path.join(d, "in.json")
        with open(src, "w", encoding="utf-8") as f:
            f.write(t)
        dest = os.path.join(d, "out")
        os.mkdir(dest)
        r = subprocess.run([a.texmo, "convert-tokens", "-i", src, "-t", dest, "-d", data], capture_output=True, timeout=300)
        outs.append((r.returncode, sorted((n, open(os.path.join(dest, n), "rb").read()) for n in os.listdir(dest))))
        # whether the program accepts the original is not this property's
        # business
        o["accepted"] += what == "a" and r.returncode == 0
    if outs[0] != outs[1]:
        raise Broken("convert-tokens makes something else of tokens/%s after pretty.py" % name)
    return got


# ---------------------------------------------------------------- generators

CH = st.one_of(
    st.sampled_from(list("aeb \"\\/\n\t\r\x00\x14\x16\x1f\x7f\x80\x85\xa0\xe9\u2028\u2029\ufeff\ufffd\uffff\u4e2d\U0001f600\U0010ffff[]{},:\x08\x0c'")),
    st.characters(blacklist_categories=("Cs",)),
)
STRS = st.one_of(
    st.text(CH, max_size=6),
    st.text(CH, max_size=90),
    st.builds(lambda n, c: c * n, st.integers(60, 84), CH),
    st.sampled_from(["", "tokens", "sequences", "string", ", ", "],\n", "\": ", "  ", "null", "1", "\\u0041", "\\", "NaN"]),
)
NUMS = st.one_of(
    st.integers(-3, 260), st.integers(), st.integers(min_value=-2**70, max_value=2**70),
    st.sampled_from([2**53, 2**53 + 1, 2**63, -2**63, 2**64, 10**30]),
    st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.0, -0.0, 1e22, 1e16, 1e-7, 5e-324, 1.7976931348623157e308, 0.1, 3.0]),
)
SCALARS = st.one_of(STRS, NUMS, st.booleans(), st.none())


def obj(values):
    return st.lists(st.tuples(STRS, values), max_size=7, unique_by=lambda p: p[0]).map(dict)


DOCS = st.recursive(SCALARS, lambda v: st.one_of(st.lists(v, max_size=9), obj(v)), max_leaves=30)
BYTES = st.lists(st.integers(0, 255), min_size=1, max_size=6)
TOKSTR = st.one_of(STRS, BYTES, st.text(CH, min_size=1, max_size=3))
SETS = st.builds(
    lambda t, p, s, stats, toks, seqs: {"type": t, "processing": p, **({"split_paragraphs": s} if s is not None else {}),
                                       **({"stats": stats} if stats else {}), "tokens": toks, "sequences": seqs},
    st.sampled_from(["bits1", "bits4", "bytes", "byteshuff"]), st.sampled_from(["raw", "capswords"]), st.sampled_from([None, True, False]),
    st.one_of(st.none(), st.fixed_dictionaries({"ntokens": st.integers(0, 70000), "bytes_per_token": st.floats(0.1, 9), "scanned_bytes": st.integers(0, 2**40)})),
    st.lists(st.one_of(TOKSTR, st.fixed_dictionaries({"ext": st.integers(0, 20)}), st.integers(0, 20)), max_size=25),
    st.lists(st.fixed_dictionaries({"string": TOKSTR, "tokens": st.lists(st.integers(0, 20), max_size=8)}), max_size=12),
)


@st.composite
def boundary(draw):
    """A container whose one-line rendering is about as long as what is left
    of the line, some levels deep."""
    depth = draw(st.integers(0, 6))
    target = WIDTH - 2 * depth + draw(st.integers(-5, 5))
    items = draw(st.lists(SCALARS.filter(lambda s: len(json.dumps(s, ensure_ascii=False)) < 30), min_size=1, max_size=6))
    as_obj = draw(st.booleans())
    key = draw(st.text(CH, max_size=12))
    def make(pad):
        v = items + ["x" * pad]
        return {("k%d" % i): x for i, x in enumerate(v)} if as_obj else v
    over = len(json.dumps(make(0), ensure_ascii=False))
    keyed = draw(st.booleans())
    if keyed and draw(st.booleans()):
        over += len(json.dumps(key, ensure_ascii=False)) + 2
    v = make(max(0, target - over))
    for _ in range(depth):
        extra = draw(st.sampled_from([[], [1], ["y" * 85]]))
        v = {**{"e%d" % i: x for i, x in enumerate(extra)}, key: v} if keyed else extra + [v]
    return v


@st.composite
def documents(draw):
    kind = draw(st.integers(0, 9))
    v = draw(DOCS if kind < 4 else SETS if kind < 7 else boundary())
    how = draw(st.integers(0, 4))
    if how == 0:
        t = json.dumps(v, ensure_ascii=False)
    elif how == 1:
        t = json.dumps(v, ensure_ascii=True, separators=(",", ":"))
    elif how == 2:
        t = json.dumps(v, ensure_ascii=False, indent=draw(st.integers(0, 9)))
    elif how == 3:
        t = json.dumps(v, ensure_ascii=True, indent="\t", separators=(" ,\r\n", "\n: ")) + "\r\n \t"
    else:
        t = "\n " + json.dumps(v, ensure_ascii=False).replace("/", "\\/")
    return t


# ---------------------------------------------------------------- driver

def shard(args):
    repo, seed, n, sub = args
    script = os.path.join(repo, "pretty.py")
    scratch = tempfile.mkdtemp(prefix="texmo-verif-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    runner = run_inproc if sub == "random" else run_sub
    o = {"n": 0, "keys": set(), "labels": {}, "samples": [], "fail": None, "error": None, "frozen": False}

    @hseed(seed)
    @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck), print_blob=False,
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False)
    @given(documents())
    def prop(text):
        try:
            if not o["frozen"]:
                o["n"] += 1
            got = check_text(script, scratch, text, runner)
        except Broken as e:
            o["frozen"] = True
            o["fail"] = {"message": str(e), "case": {"text": text}}
            raise
        if o["frozen"]:
            return
        lines = got.count("\n")
        if lines > 1:
            o["keys"].add(hashlib.sha256(text.encode()).digest()[:10])
            if len(o["samples"]) < 2 or o["n"] % 997 == 5 and len(o["samples"]) < 6:
                o["samples"].append(text if len(text) < 1500 else text[:1500] + "...")
        for l, c in (("over one line", lines > 1), ("non-ASCII", not got.isascii()), ("over 100 lines", lines > 100),
                     ("object", "{" in got), ("escapes", "\\" in got)):
            if c:
                o["labels"][l] = o["labels"].get(l, 0) + 1

    try:
        prop()
    except Broken:
        pass
    except BaseException:
        if o["fail"] is None:
            o["error"] = traceback.format_exc()[-1500:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return o


def main():
    ap = argparse.ArgumentParser()
    for x in ("out", "seed", "tier", "repo", "texmo", "aux", "regressions", "replay"):
        ap.add_argument("--" + x)
    a = ap.parse_args()
    sys.setrecursionlimit(5000)
    t0 = time.time()
    res = {"property": "C21", "seed": int(a.seed), "tier": a.tier, "evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [],
           "labels": {}, "sub_checks": {}, "notes": [], "violation": None, "errors": []}
    scratch = tempfile.mkdtemp(prefix="texmo-verif-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)

    shipped = {"accepted": 0}

    def one(sub, case, origin):
        res["evaluations"] += 1
        res["sub_checks"][sub] = res["sub_checks"].get(sub, 0) + 1
        try:
            if sub == "shipped":
                check_shipped(a, scratch, case["file"], shipped)
            else:
                check_text(os.path.join(a.repo, "pretty.py"), scratch, case["text"], run_sub if sub == "cli" else run_inproc)
            return True
        except Broken as e:
            if not res["violation"]:
                res["violation"] = {"property": "C21", "sub": sub, "seed": int(a.seed), "origin": origin, "message": str(e), "case": case}
        except Exception:
            res["errors"].append(traceback.format_exc()[-1500:])
        return False

    try:
        if a.replay:
            c = json.load(open(a.replay))
            one(c["sub"], c["case"], "replay")
        else:
            for f in sorted(glob.glob(os.path.join(a.regressions or "/nonexistent", "*.json"))):
                c = json.load(open(f))
                one(c["sub"], c["case"], "regression " + os.path.basename(f))
            keys = 0
            for f in sorted(os.listdir(os.path.join(a.repo, "tokens"))):
                if res["violation"] or res["errors"]:
                    break
                if f.endswith(".json") and one("shipped", {"file": f}, "shipped file"):
                    keys += 1
            big = a.tier == "thorough"
            for sub, n in (("random", 1_500_000 if big else 40_000), ("cli", 24_000 if big else 800)):
                if res["violation"] or res["errors"]:
                    break
                nsh = 16
                with multiprocessing.Pool(8) as pool:
                    outs = pool.map(shard, [(a.repo, int(a.seed) * 1000 + i + (500 if sub == "cli" else 0), n // nsh, sub) for i in range(nsh)], chunksize=1)
                seen = set()
                for o in outs:
                    res["evaluations"] += o["n"]
                    res["sub_checks"][sub] = res["sub_checks"].get(sub, 0) + o["n"]
                    seen |= o["keys"]
                    for l, k in o["labels"].items():
                        res["labels"][l] = res["labels"].get(l, 0) + k
                    if len(res["samples"]) < 8:
                        res["samples"] += [{"sub": sub, "case": {"text": s}} for s in o["samples"][:1]]
                    if o["error"]:
                        res["errors"].append(o["error"])
                keys += len(seen)
                fails = [o["fail"] for o in outs if o["fail"]]
                if fails:
                    f = min(fails, key=lambda f: len(f["case"]["text"]))
                    res["violation"] = {"property": "C21", "sub": sub, "seed": int(a.seed), "origin": "generated, shrunk", **f}
            res["distinct_nontrivial"] = keys
            res["labels"]["shipped files read by the program before and after"] = shipped["accepted"]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if res["violation"]:
        res["errors"] = []
    res["wall_s"] = time.time() - t0
    with open(a.out, "w") as f:
        json.dump(res, f)


main()
