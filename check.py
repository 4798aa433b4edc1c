#!/usr/bin/env python3
"""Driver of the checks.

  check.py C05                      build from /repo's working tree, run, write evidence/C05.json
  check.py C05 --replay FILE        run one saved case
  check.py --build                  build everything (setup)

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not give an answer.
"""
import argparse, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
ALL = ["C%02d" % i for i in range(1, 26)]
PYTHON = {"C21"}                 # hypothesis instead of proptest
PRELOAD = {"C04": "fault", "C23": "probe", "C25": "clock", "C17": "clock"}   # need an LD_PRELOAD library
LEVEL = {"C04": "fault_enumeration"}


def fail(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e


def build(props):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo judges by mtime, which a source restored with an old time stamp
        # defeats: the crate under test is always rebuilt.
        for d in glob.glob(os.path.join(TARGET, "release/.fingerprint/texmo-*")):
            shutil.rmtree(d, ignore_errors=True)
        cmd = ["cargo", "build", "--release", "--offline", "-p", "texmo", "-p", "vh", "--lib", "--bin", "texmo"]
        for p in props:
            if p not in PYTHON:
                cmd += ["--bin", p.lower()]
        r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            lines = [l for l in r.stdout.splitlines() if l.startswith("error") or "-->" in l]
            fail("the build failed:\n" + "\n".join(lines[:20]) + "\n" + r.stdout[-2000:])
        for lib in sorted(set(PRELOAD[p] for p in props if p in PRELOAD)):
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", os.path.join(TARGET, "lib%s.so" % lib),
                                os.path.join(HARNESS, lib + ".c"), "-ldl", "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                fail("building lib%s.so failed:\n" % lib + r.stdout[-2000:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    have = [p for p in ALL if p in PYTHON or os.path.exists(os.path.join(HARNESS, "src/bin", p.lower() + ".rs"))]
    if a.build:
        build(have)
        return
    p = a.prop
    if p not in have:
        fail("unknown property %r" % p)
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(a.seed.encode()).digest()[:7], "big")
    seed &= (1 << 63) - 1
    t0 = time.time()
    build([p])
    out = os.path.join(TARGET, "result-%s-%d.json" % (p, os.getpid()))
    if p in PYTHON:
        cmd = ["python3-vt", os.path.join(HARNESS, "py", p.lower() + ".py")]
    else:
        cmd = [os.path.join(TARGET, "release", p.lower())]
    common = ["--seed", str(seed), "--tier", a.tier, "--repo", REPO,
              "--texmo", os.path.join(TARGET, "release/texmo"), "--aux", TARGET]

    def run(extra, limit):
        if os.path.exists(out):
            os.remove(out)
        e = env()
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        err = open(out + ".err", "wb")
        try:
            r = subprocess.run(cmd + ["--out", out] + common + extra, env=e, cwd=VERIF, timeout=limit,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)
        except subprocess.TimeoutExpired:
            fail("%s: no answer within %d s" % (p, limit))
        finally:
            err.close()
            with open(out + ".err", "rb") as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - 2000))
                tail = f.read().decode("utf-8", "replace")
            os.remove(out + ".err")
        if r.returncode != 0 or not os.path.exists(out):
            fail("%s: the harness ended with %d:\n%s" % (p, r.returncode, tail))
        res = json.load(open(out))
        os.remove(out)
        if res["errors"]:
            fail("%s: %s" % (p, "; ".join(res["errors"])[:4000]))
        if res["evaluations"] == 0 and not res["violation"]:
            fail("%s: nothing was evaluated" % p)
        return res

    if a.replay:
        path = os.path.abspath(a.replay)
        res = run(["--replay", path], 900)
        v = res["violation"]
        if v:
            print(v["message"])
            print("VIOLATION property=%s replay=%s" % (p, path))
            sys.exit(1)
        print("%s: the replayed case holds" % p)
        return

    res = run(["--regressions", os.path.join(VERIF, "regressions", p)], 840 if a.tier == "quick" else 6 * 3600)
    v = res["violation"]
    replay = None
    if v:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        text = json.dumps(v, indent=1, ensure_ascii=True)
        replay = os.path.join(VERIF, "replays", "%s-%s.json" % (p, hashlib.sha256(text.encode()).hexdigest()[:12]))
        with open(replay, "w") as f:
            f.write(text + "\n")
    known = []
    kf = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(kf):
        known = [l for l in open(kf) if l.startswith("finding: property=%s " % p)]
    evidence = {
        "property": p, "tier": a.tier, "seed": seed, "level": LEVEL.get(p, "exploration"),
        "coverage": {k: res[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "labels", "sub_checks")},
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if v else 0,
    }
    if res.get("notes"):
        evidence["coverage"]["notes"] = res["notes"]
    if v:
        evidence["coverage"]["violation"] = v["message"][:1000]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", p + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for l in known:
        print("KNOWN-FINDING: " + l[len("finding: "):].strip())
    if v:
        print(("%s (%s, %s): %s" % (p, v["sub"], v["origin"], v["message"]))[:3000])
        print("VIOLATION property=%s replay=%s" % (p, replay))
        sys.exit(1)
    print("%s: held on %d evaluations (%d distinct non-trivial) in %.1f s"
          % (p, res["evaluations"], res["distinct_nontrivial"], time.time() - t0))


main()
