"""development: run checks on behaviour-preserving edits.  rftest.py [-n] DIFF... : applies each to a scratch copy of /repo; -n without normal forms."""
import sys, os, subprocess, glob
args = sys.argv[1:]
nof = "-n" in args
if nof:
    args.remove("-n")
ids = []
while args and args[0].startswith("-p"):
    ids.append(args.pop(0)[2:])
diffs = [os.path.abspath(a) for a in args] or sorted(glob.glob("/verif/refactor/*.diff"))
W = "/tmp/rf/repo"
if not os.path.exists(W):
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
for d in diffs:
    subprocess.check_call("git checkout -q -- . && git pull -q", cwd=W, shell=True)
    if subprocess.call(["git", "apply", d], cwd=W):
        print("==", d, "does not apply")
        continue
    env = dict(os.environ)
    if nof:
        env["VERIF_NOFILTER"] = "1"
    r = subprocess.run([sys.executable, "/verif/lib/dev.py", "-r", W] + ids, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    bad = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "BROKEN" in l or "Error" in l]
    print("==", os.path.basename(d), "ALARM" if bad else "quiet", " ".join(x.split("property=")[-1].split()[0] for x in bad))
    if bad:
        print("\n".join(r.stdout.split("\n")[:400]))
subprocess.check_call("git checkout -q -- .", cwd=W, shell=True)
