"""Nothing to build: checks that the interpreter, z3 and the repository's dependencies are there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
sys.path.insert(0, HERE)
import check  # noqa: E402

code = "import sys; sys.path.insert(0, %r); import z3; from symx import env, registry, engine; env.install(); registry.load(); print('ok', z3.get_version_string(), len(registry.HARNESSES))" % HERE
sys.exit(subprocess.run([check._python(), "-B", "-c", code], env=dict(os.environ, PYTHONHASHSEED="0")).returncode)
