"""Builds the C++ extension from /repo's current working tree, out of tree.

The build goes through the project's own CMakeLists.txt into /verif/.build/<digest of the C++ sources>, so an unchanged
tree is built once and a changed one is always rebuilt.  Nothing under /repo is written.
"""

import fcntl
import hashlib
import os
import pathlib
import shutil
import subprocess
import sys

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = pathlib.Path(__file__).resolve().parents[1]
UTILS = REPO / "src" / "tfc" / "utils"
PYTHON = "/opt/venv/bin/python"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr -g1 -fno-omit-frame-pointer"


class BuildError(Exception):
    pass


def _digest(kind: str) -> str:
    h = hashlib.sha256(kind.encode())
    for p in sorted(UTILS.rglob("*")):
        if p.suffix in (".cc", ".cpp", ".cxx", ".h", ".hpp") or p.name == "CMakeLists.txt":
            h.update(str(p.relative_to(UTILS)).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()[:20]


def _cmake(src, work, kind):
    import importlib.util

    spec = subprocess.run(
        [PYTHON, "-c", "import pybind11;print(pybind11.get_cmake_dir())"], capture_output=True, text=True
    )
    args = [
        "cmake",
        str(src),
        "-G",
        "Ninja",
        f"-Dpybind11_DIR={spec.stdout.strip()}",
        f"-DPython_EXECUTABLE={PYTHON}",
    ]
    if kind == "asan":
        args += ["-DCMAKE_BUILD_TYPE=None", f"-DCMAKE_CXX_FLAGS=-O1 {SAN}", f"-DCMAKE_MODULE_LINKER_FLAGS={SAN}"]
    else:
        args += ["-DCMAKE_BUILD_TYPE=Release"]
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS")}
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    log = ""
    for cmd in (args, ["cmake", "--build", ".", "--target", "BF"]):
        r = subprocess.run(cmd, cwd=work, capture_output=True, text=True, env=env)
        log += r.stdout + r.stderr
        if r.returncode:
            raise BuildError(log[-4000:])


def build(kind: str = "plain") -> str:
    """Path of the built extension module."""
    root = pathlib.Path(os.environ.get("VERIF_BUILD", VERIF / ".build"))
    root.mkdir(exist_ok=True)
    with open(root / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = root / f"{kind}-{_digest(kind)}"
        found = sorted(out.glob("BF*.so"))
        if found:
            return str(found[0])
        # Keep the disk small: only the newest build of each kind is kept
        for old in root.glob(f"{kind}-*"):
            shutil.rmtree(old, ignore_errors=True)
        work = root / f"work-{kind}-{os.getpid()}"
        shutil.rmtree(work, ignore_errors=True)
        work.mkdir()
        try:
            _cmake(UTILS, work, kind)
            made = sorted(work.rglob("BF*.so"))
            if not made:
                raise BuildError("no extension module was built")
            out.mkdir()
            target = out / made[0].name
            shutil.copy2(made[0], str(target) + ".tmp")
            os.rename(str(target) + ".tmp", target)
            return str(target)
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"))
