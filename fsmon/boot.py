"""Process set-up shared by every check.

* re-executes the interpreter with the clock interposer preloaded, so that the
  harness owns wall-clock time, whatever function the code reads it with;
* puts /repo/src (the working tree) first on the path, and nothing else of it;
* installs the stand-in for the missing third-party module (keyimport.py);
* replaces RSA key generation by a pool of real, pre-generated keys;
* replaces the transport below ``requests`` by an in-process network (net.py).
"""
import ctypes
import json
import logging
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("FSMON_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BASE_TIME = 1_790_000_000

_lib = None


def build_clock(dest_dir):
    os.makedirs(dest_dir, exist_ok=True)
    so = os.path.join(dest_dir, "fsmon_clock.so")
    src = os.path.join(HERE, "clock.c")
    if os.path.exists(so) and os.path.getmtime(so) >= os.path.getmtime(src):
        return so
    fd, tmp = tempfile.mkstemp(dir=dest_dir, suffix=".so")
    os.close(fd)
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
    os.chmod(tmp, 0o755)
    os.replace(tmp, so)
    return so


def child_env(hashseed=0):
    """Environment of a worker process."""
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("PYTHON"):
            del env[k]
    so = build_clock(os.path.join(VERIF, "build"))
    env.update(LD_PRELOAD=so, FSMON_CLOCK=so, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED=str(hashseed), TZ="UTC", PYTHONNOUSERSITE="1")
    return env


class Clock:
    """The virtual wall clock. Seconds; never moves by itself."""

    def __init__(self):
        self.t = BASE_TIME

    def set(self, t):
        self.t = t
        _lib.fsmon_set_time(ctypes.c_longlong(int(t * 1_000_000_000)))

    def advance(self, dt):
        self.set(self.t + dt)

    def now(self):
        return int(self.t)


clock = Clock()


def _rsa_pool():
    from cryptography.hazmat.primitives import serialization
    from cryptography.hazmat.primitives.asymmetric import rsa

    with open(os.path.join(HERE, "keys.json")) as fp:
        pems = json.load(fp)["rsa"]
    pool = [serialization.load_pem_private_key(p.encode(), None,
                                               unsafe_skip_rsa_key_validation=True)
            for p in pems]
    by_n = {k.private_numbers().public_numbers.n: k for k in pool}
    state = {"next": 0}

    def generate_private_key(public_exponent=65537, key_size=2048, backend=None):
        key = pool[state["next"] % len(pool)]
        state["next"] += 1
        return key

    rsa.generate_private_key = generate_private_key

    import cryptojwt.jwk.rsa as cj
    _orig = cj.rsa_construct_private

    def rsa_construct_private(numbers):
        if numbers.get("n") in by_n and "d" in numbers:
            return by_n[numbers["n"]]
        return _orig(numbers)

    cj.rsa_construct_private = rsa_construct_private
    return state


rsa_state = None


def setup(expect_src=True):
    """Called once, first thing, in every worker."""
    global _lib, rsa_state
    so = os.environ.get("FSMON_CLOCK")
    if not so:
        os.execve(sys.executable, [sys.executable] + sys.argv, child_env())
    _lib = ctypes.CDLL(so)
    clock.set(BASE_TIME)
    import time
    if int(time.time()) != BASE_TIME:
        raise RuntimeError("the clock interposer is not in place")
    sys.path.insert(0, SRC)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    from . import keyimport
    keyimport.install()
    rsa_state = _rsa_pool()
    from . import net
    net.install()
    import fedservice
    if not fedservice.__file__.startswith(SRC + "/"):
        raise RuntimeError(f"fedservice imported from {fedservice.__file__}")
