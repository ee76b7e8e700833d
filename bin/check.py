#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] [--replay FILE] [--seed N] [harness options]"""
import os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    seed = os.environ.get("VERIF_SEED", "1")
    if "--seed" in args:
        i = args.index("--seed"); seed = args[i + 1]; del args[i:i + 2]
    src = [h for h in B.all_harnesses() if os.path.basename(h).startswith(pid + "_")]
    if not src:
        print("no harness for", pid, file=sys.stderr); return 2
    t0 = time.time()
    exes, msgs = B.build(src)
    for m in msgs:
        print(m, file=sys.stderr)
    exe = exes[src[0]]
    if exe is None:
        print("could not build the harness of", pid, "from", B.REPO, file=sys.stderr); return 2
    print("built in %.1f s" % (time.time() - t0), flush=True)
    ev = os.path.join(B.HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    env = dict(os.environ, LD_LIBRARY_PATH=B.OUT, OMP_NUM_THREADS="2", LC_ALL="C.UTF-8")
    for v in ("AMPGENROOT", "AMPGEN_CXX"):
        env.pop(v, None)
    cmd = [exe, "--tier", tier, "--seed", seed, "--evidence", ev, "--replaydir", os.path.join(B.HERE, "replays")] + args
    if "--replay" in args:
        cmd = [exe, "--replay", os.path.abspath(args[args.index("--replay") + 1])] + (["--verbose"] if "--verbose" in args else [])
    return subprocess.run(cmd, env=env).returncode

if __name__ == "__main__":
    sys.exit(main())
