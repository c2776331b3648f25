"""Build the extensions of the tree under test with AddressSanitizer and
UndefinedBehaviorSanitizer into a scratch copy of the package, together with
the instrumented BLAS and allocator."""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
MODS = ["thinc.backends.cblas", "thinc.backends.numpy_ops", "thinc.layers.sparselinear", "thinc.layers.premap_ids"]
UB = "bounds,shift,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,null,vla-bound,unreachable,return,pointer-overflow,object-size"

CYTHONIZE = """
import sys
from Cython.Build import cythonize
from Cython.Compiler import Options
Options.docstrings = True
mods, extra = sys.argv[1].split(","), sys.argv[2]
from setuptools import Extension
exts = [Extension(m, [m.replace(".", "/") + ".pyx"], language="c++") for m in mods] + [Extension("checked_blas", [extra], language="c++")]
cythonize(exts, compiler_directives={"language_level": 3, "embedsignature": True, "annotation_typing": False, "profile": False}, language_level=2, quiet=True, nthreads=0, include_path=["."])
import numpy, sysconfig
print(numpy.get_include())
print(sysconfig.get_path("include"))
print(sysconfig.get_config_var("EXT_SUFFIX"))
"""


def main(tmp):
    t0 = time.time()
    root = Path(tmp) / "tree"
    root.mkdir()
    shutil.copytree(REPO / "thinc", root / "thinc", ignore=shutil.ignore_patterns("*.so", "*.cpp", "__pycache__", "tests"))
    for f in ("checked_blas.pyx", "checked.hh"):
        shutil.copy(VERIF / "native" / f, root / f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([PY, "-c", CYTHONIZE, ",".join(MODS), "checked_blas.pyx"], cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        print(r.stdout[-3000:], r.stderr[-5000:])
        return 1
    np_inc, py_inc, suffix = r.stdout.strip().splitlines()[-3:]

    def compile(mod):
        src = root / (mod.replace(".", "/") + ".cpp")
        out = root / (mod.replace(".", "/") + suffix)
        cmd = ["g++", "-shared", "-fPIC", "-O1", "-g1", "-std=c++11", "-w", f"-fsanitize=address,{UB}", "-fno-sanitize-recover=undefined",
               "-fno-omit-frame-pointer", f"-I{np_inc}", f"-I{py_inc}", f"-I{root}", f"-I{src.parent}", f"-I{root}/thinc/backends", str(src), "-o", str(out)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return mod, p.returncode, p.stdout

    with ThreadPoolExecutor(8) as pool:
        for mod, rc, log in pool.map(compile, MODS + ["checked_blas"]):
            if rc:
                print(mod, log[-5000:])
                return 1

    def lib(name):
        return subprocess.run(["gcc", f"-print-file-name={name}"], stdout=subprocess.PIPE, text=True).stdout.strip()

    supp = root / "ubsan.supp"
    supp.write_text("")
    out = {
        "env": {
            "VERIF_REPO": str(root),
            "LD_PRELOAD": lib("libasan.so") + ":" + lib("libubsan.so") + ":" + lib("libstdc++.so"),
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:quarantine_size_mb=64:exitcode=77",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
            "PYTHONMALLOC": "malloc",
        },
        "coverage": {"sanitized_modules": MODS, "sanitizers": f"address,{UB}", "sanitized_build_s": round(time.time() - t0, 1)},
    }
    print(json.dumps(out))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
