#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

usage: check.py <property id> [quick|thorough]

exit 0: held on everything explored; exit 1: a VIOLATION line was printed;
exit 2: the check could not do its work (build failure, timeout, ...).
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
PKG = {}
for pkg, ids in {
    "svcparse": "C01 C02 C03 C04 C05 C06",
    "svcdefc": "C07 C08 C09 C10 C11 C29",
    "gen": "C13 C14 C15 C16",
    "cli": "C17 C28 C32 C33 C34 C35 C38 C39 C40 C43",
    "tmpl": "C27",
    "wire": "C12 C18 C19 C20 C21 C22 C23 C24 C25 C26 C30 C31 C36 C37 C41 C42",
}.items():
    for i in ids.split():
        PKG[i] = pkg


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PKG:
        print("usage: check.py <property id> [quick|thorough]", file=sys.stderr)
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    repo = os.environ.get("VERIF_REPO", "/repo")
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    try:
        return run(pid, tier, repo, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def environment(pid, tier, repo, scratch):
    env = dict(os.environ)
    gopath = os.path.join(scratch, "gopath")
    link = os.path.join(gopath, "src/github.com/teamlint/baron")
    os.makedirs(os.path.dirname(link))
    os.symlink(repo, link)
    env.update(
        PATH="/opt/vp/bin:/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin"),
        GOTOOLCHAIN="local", GO111MODULE="on", GOWORK="off", GOFLAGS="-mod=mod",
        GOPATH=gopath, GOMODCACHE="/root/go/pkg/mod",
        GOCACHE=env.get("GOCACHE", "/root/.cache/go-build"),
        GOPROXY="file:///root/go/pkg/mod/cache/download", GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1",
        TMPDIR=os.path.join(scratch, "tmp"),
        VERIF_DIR=VERIF, VERIF_REPO=repo, VERIF_SCRATCH=scratch, VERIF_TIER=tier,
        VERIF_SEED=env.get("VERIF_SEED", "1"),
        VERIF_RESULT=os.path.join(scratch, "result.json"),
    )
    os.makedirs(env["TMPDIR"])
    return env


def run(pid, tier, repo, scratch):
    env = environment(pid, tier, repo, scratch)
    # The harness is built from a copy, so that its go.mod can name the repo
    # under test and nothing is written here.
    har = os.path.join(scratch, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), har)
    if repo != "/repo":
        p = os.path.join(har, "go.mod")
        s = open(p).read().replace("=> /repo", "=> " + repo)
        open(p, "w").write(s)
    exe = os.path.join(scratch, "check.test")
    b = subprocess.run(["go", "test", "-c", "-o", exe, "./" + PKG[pid]], cwd=har, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0 or not os.path.exists(exe):
        print(b.stdout[-4000:])
        print("ERROR: cannot build the check of %s" % pid)
        return 2
    work = os.path.join(scratch, "work")
    os.makedirs(work)
    limit = 850 if tier == "quick" else 4 * 3600
    log = open(os.path.join(scratch, "log"), "w+", errors="replace")
    p = subprocess.Popen([exe, "-test.run", "^Test%s$" % pid, "-test.timeout", "0", "-test.v"],
                         cwd=work, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    timed_out = False
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        timed_out = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    log.seek(0)
    out = log.read()
    if os.environ.get("VERIF_SHOW"):
        print(out)
    res = None
    try:
        res = json.load(open(env["VERIF_RESULT"]))
    except Exception:
        pass
    if res and res.get("known"):
        for k in res["known"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if res and res.get("violation"):
        print(out[-3000:])
        print("\n%s" % res["what"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, res["replay"]))
        return 1
    if timed_out:
        print(out[-3000:])
        print("ERROR: time limit of %d s reached, inconclusive" % limit)
        return 2
    if p.returncode != 0 or not res or not res.get("finished"):
        print(out[-6000:])
        print("ERROR: the check of %s did not finish (exit %s)" % (pid, p.returncode))
        return 2
    ev = json.load(open(os.path.join(VERIF, "evidence", pid + ".json")))
    c = ev["coverage"]
    print("OK property=%s tier=%s seed=%s evaluations=%s distinct_nontrivial=%s wall_s=%.1f" % (
        pid, tier, env["VERIF_SEED"], c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
