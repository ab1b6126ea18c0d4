"""Running TLC on the modules of /verif/spec and reading its verdict."""
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = ":".join("/opt/veriftools/tla/" + j for j in ("tla2tools.jar", "CommunityModules-deps.jar"))


class TLCError(Exception):
    pass


def run(module, cfg, env=None, workers="8", timeout=800, extra=(), heap="6g", deadlock=True, stack=None):
    """Returns (output, generated, distinct). Raises TLCError if TLC itself failed."""
    meta = tempfile.mkdtemp(prefix="tlc_")
    e = dict(os.environ)
    e.update(env or {})
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", workers,
               "-metadir", meta, "-config", os.path.join(SPEC, cfg), "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [os.path.join(SPEC, module)]
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC ran out of time on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", p.stdout)
    if not m:
        raise TLCError("TLC failed on %s:\n%s" % (module, p.stdout[-6000:]))
    return p.stdout, int(m[-1][0]), int(m[-1][1]), p.returncode
