#!/usr/bin/env python3
"""trypatch.py [--seconds N] [--seed N] [-j N] PATCH[:PROP,PROP...]...

Runs checks against scratch copies of /repo with a patch applied (never against /repo itself, which is left alone) and
prints one line per patch and property: rc 0 quiet, 1 caught, 2 no answer. PATCH is a diff file, the name of a planted
bug (its property is the default) or "none"."""
import argparse, concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def trial(patch, props, a):
    w = tempfile.mkdtemp(prefix="vfctry.", dir="/tmp")
    try:
        shutil.copytree("/repo", f"{w}/repo", symlinks=True, ignore=shutil.ignore_patterns("output", "build"))
        if patch:
            r = subprocess.run(["git", "-C", f"{w}/repo", "apply", patch], stderr=subprocess.PIPE, text=True)
            if r.returncode:
                return [(p, 3, "patch does not apply: " + r.stderr.strip()) for p in props]
        os.mkdir(f"{w}/verif")
        for x in ("check", "tools", "sim", "known-findings.txt", "build"):
            s = os.path.join(V, x)
            if os.path.isdir(s):
                shutil.copytree(s, f"{w}/verif/{x}", ignore=shutil.ignore_patterns("run-*"))
            elif os.path.exists(s):
                shutil.copy2(s, f"{w}/verif/{x}")
        out = []
        for p in props:
            t = time.time()
            cmd = ["python3", "check", p, "--seed", str(a.seed)] + (["--seconds", str(a.seconds)] if a.seconds else [])
            r = subprocess.run(cmd, cwd=f"{w}/verif", env=dict(os.environ, VFC_REPO=f"{w}/repo"), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            lines = [l for l in r.stdout.split("\n") if l.strip() and not l.startswith("KNOWN")]
            runs = [l.split("-run")[-1].split(".")[0] for l in lines if l.startswith("VIOLATION")]
            what = next((l for l in lines if not l.startswith(("tool:", "script", "spec", " "))), lines[-1] if lines else "")
            out.append((p, r.returncode, f"{time.time() - t:.0f} s" + (f", run {runs[0]}" if runs else "") + ": " + what[:230]))
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-j", type=int, default=1)
    ap.add_argument("what", nargs="+")
    a = ap.parse_args()
    jobs = []
    for x in a.what:
        name, _, props = x.partition(":")
        d = os.path.join(V, "seeded", name)
        patch = None if name == "none" else os.path.join(d, "patch.diff") if os.path.isdir(d) else os.path.abspath(name)
        ps = props.split(",") if props else [json.load(open(os.path.join(d, "meta.json")))["property"]]
        if props == "all":
            ps = ["C%02d" % i for i in range(1, 14)]
        jobs.append((name, patch, ps))
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for (name, _, _), f in [(j, ex.submit(trial, j[1], j[2], a)) for j in jobs]:
            for p, rc, text in f.result():
                print(f"{name} {p} rc={rc} {text}", flush=True)

if __name__ == "__main__":
    main()
