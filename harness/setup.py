"""Nothing is built: checks that the tools the checks need are there, and parses the specifications."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(os.path.dirname(HERE), "evidence"), exist_ok=True)
rc = 0
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ok = p.returncode == 0 and b"*** Errors" not in p.stdout
    print(os.path.basename(f), "ok" if ok else p.stdout.decode()[-800:])
    rc |= 0 if ok else 1
sys.exit(rc)
