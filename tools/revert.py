"""Take back each repair (reverse-apply its commit in a scratch copy of /repo) and see that its property's check reports it again."""
import json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/revrepo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


sh("rm -rf /tmp/revrepo; cp -a /repo %s" % W)
for line in json.load(open(os.path.join(VERIF, "known-findings.json")))["fixed"]:
    prop, commit = line.split("property=")[1].split()[:2]
    if sys.argv[1:] and commit not in sys.argv[1:] and prop not in sys.argv[1:]:
        continue
    sh("cd %s && git reset -q --hard $(git -C /repo rev-parse HEAD)" % W)
    a = sh("cd %s && git diff %s %s^ | git apply -3" % (W, commit, commit))
    if a.returncode:
        print(prop, commit, "DOES NOT REVERT", a.stdout.replace("\n", " ")[:200], flush=True)
        continue
    env = dict(os.environ, VERIF_REPO=W, VERIF_BUILD="/tmp/revbuild", VERIF_SEED="1")
    r = sh("python3-vt checks/%s.py --tier quick" % prop, cwd=VERIF, env=env)
    print(prop, commit, "caught" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED", line[26:90],
          "|", r.stdout.replace("\n", " ")[:160], flush=True)
sh("rm -rf /tmp/revrepo /tmp/revbuild")
