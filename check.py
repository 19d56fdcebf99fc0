#!/opt/venv/bin/python
"""
Usage: check.py <property id> [--tier quick|thorough] [--replay FILE] [--scale F]

Decides one property of /verif/properties.jsonl on /repo's working tree by
property-based testing.  Exit 0: held; 1: VIOLATION; other: error of the check.
"""
import os
import sys

ENV = {
    "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
}
PY = "/opt/venv/bin/python"


def sanitizer_env():
    """The sanitized extension needs its runtime loaded before Python's libraries."""
    import subprocess
    libs = [subprocess.run(["gcc", f"-print-file-name={n}"], text=True,
                           capture_output=True).stdout.strip()
            for n in ("libasan.so", "libubsan.so", "libstdc++.so")]
    return {"LD_PRELOAD": ":".join(os.path.realpath(x) for x in libs),
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:"
                            "allocator_may_return_null=1:max_malloc_fill_size="
                            "65536:malloc_fill_byte=190:detect_odr_violation=0:"
                            "quarantine_size_mb=64",
            "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1"}


if __name__ == "__main__":
    if (os.environ.get("VERIF_CHECK_ENV") != "1"
            or any(os.environ.get(k) != v for k, v in ENV.items())):
        os.environ.update(ENV, VERIF_CHECK_ENV="1")
        if "C27" in sys.argv[1:2]:
            os.environ.update(sanitizer_env())
        os.environ.pop("PYTHONPATH", None)
        os.execv(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]])
    os.environ.pop("LD_PRELOAD", None)       # not for compilers
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    from lib import boot
    boot.enable_hypothesis()
    try:
        from lib import runner
        code = runner.main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
