"""Worker process: runs cases against the real code, one JSON progress line per event."""
import importlib
import json
import os
import signal
import sys
import time
import traceback


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def main():
    pid, wdir = sys.argv[1:3]
    prop = importlib.import_module(f"vp.props.{pid.lower()}").P()
    cases = json.load(open(wdir + "/cases.json"))
    prog = open(wdir + "/progress", "a")

    def emit(x):
        prog.write(json.dumps(x) + "\n")
        prog.flush()

    prop.setup_worker(wdir)
    emit(["ready"])
    signal.signal(signal.SIGALRM, _alarm)
    deadline = float(os.environ.get("VP_DEADLINE") or "inf")
    for i, case in cases:
        if time.time() > deadline:  # out of time: the rest is not explored (and not counted)
            emit(["stop"])
            break
        hang = False
        emit(["start", i])
        scratch = f"{wdir}/work/c{i}"
        os.makedirs(scratch, exist_ok=True)
        signal.alarm(int(prop.case_timeout))
        try:
            traces = prop.run_case(case, scratch)
        except CaseTimeout:
            hang = True
            traces = [{"cfg": {"x": 0}, "ev": [], "fatal": "hang", "log": traceback.format_exc()[-2000:]}]
        except Exception as exc:
            traces = [
                {
                    "cfg": {"x": 0}, "ev": [],
                    "fatal": f"unexpected exception {type(exc).__name__}: {exc}"[:500],
                    "log": traceback.format_exc()[-4000:],
                }
            ]  # fmt: skip
        finally:
            signal.alarm(0)
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)
        emit(["done", i, traces])
        if hang:  # do not spend the time limit on every further case
            emit(["stop"])
            break
    os._exit(0)


if __name__ == "__main__":
    main()
