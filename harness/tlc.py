"""Running TLC."""
import os
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def run(module, env, timeout=800, cfg=None, extra=(), heap="3g", workers="1", stack="400m", deque=False):
    """Run TLC on spec/<module>.tla. Returns (returncode, output)."""
    meta = tempfile.mkdtemp(prefix="vf_tlc_")
    try:
        cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss" + stack, "-Xmx" + heap, "-Djava.io.tmpdir=" + meta,
               "-cp", CP, "tlc2.TLC", "-workers", workers, "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env)
        e.pop("JAVA_TOOL_OPTIONS", None)
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
