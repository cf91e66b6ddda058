"""Running concrete cases against the real code (bounded layer and replay)."""
from __future__ import annotations

import json
import os
import random
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Found(Exception):
    """A concrete input for which the property fails."""

    def __init__(self, case, args, message):
        super().__init__(message)
        self.case, self.args_, self.message = case, args, message


class Unscripted(Exception):
    """The code uses a random primitive which the exact enumeration does not cover."""


class Bad(Exception):
    """Raised by a case function: the property does not hold for this input."""


def require(cond, msg="property violated"):
    if not cond:
        raise Bad(msg if isinstance(msg, str) else msg())


def rejects(fn, what):
    """The call has to raise."""
    try:
        res = fn()
    except Exception:
        return
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:      # a panic of native code is no rejection
        raise Bad(f"{what}: {type(e).__name__}")
    raise Bad(f"{what} was accepted (result {res!r:.200})")


class Ctx:
    def __init__(self, prop, cases, seed=1, tier="quick", budget=40.0):
        self.prop, self.cases = prop, cases
        self.seed, self.tier = seed, tier
        self.rng = random.Random(f"{prop}/{seed}")
        self.start = time.time()
        self.budget = budget
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.per_case = {}
        self.notes = []
        self.skipped, self.skip_reason = 0, None
        self.beat = lambda case, args: None

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return quick if not self.thorough() else (thorough or 10 * quick)

    def time_left(self):
        return self.budget - (time.time() - self.start)

    def run(self, case, **args):
        """Evaluate one case; raise Found if the property fails for it."""
        self.beat(case, args)
        self.evaluations += 1
        self.per_case[case] = self.per_case.get(case, 0) + 1
        key = case + json.dumps(args, sort_keys=True, default=str)
        if key not in self.keys:
            if self.per_case[case] <= 1 and len(self.samples) < 12:
                self.samples.append({"case": case, "args": shorten(args)})
            self.keys.add(key)
        try:
            evaluate(self.cases, case, args)
        except Unscripted as e:
            self.skipped += 1
            self.skip_reason = str(e)
            return False
        return True


def shorten(a):
    s = json.dumps(a, default=str)
    return a if len(s) < 600 else s[:600] + "..."


def evaluate(cases, case, args):
    try:
        cases[case](**args)
    except Bad as e:
        raise Found(case, args, str(e)) from None
    except Unscripted:
        raise
    except Exception as e:
        if interface_changed(e):
            raise Unscripted(f"interface: {e}") from None
        raise Found(case, args, "unexpected exception\n" + traceback.format_exc()) \
            from None


def interface_changed(e):
    """The harness uses a (private) name or signature which is no longer there."""
    frame = traceback.extract_tb(e.__traceback__)[-1].filename
    if not frame.startswith(VERIF):
        return False
    text = str(e)
    return (isinstance(e, ImportError)
            or isinstance(e, AttributeError) and ("module '" in text
                                                  or "type object '" in text
                                                  or "attribute '_" in text)
            or isinstance(e, TypeError) and ("keyword argument" in text
                                             or "positional argument" in text))


def write_replay(prop, name, data):
    from lib import boot

    d = os.path.join(boot.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


STATE = ("evaluations", "keys", "samples", "per_case", "notes", "skipped", "skip_reason")
STALL = 120.0                # seconds without any progress: it is not coming back
AGAIN = 60.0


class Stuck(Exception):
    """The code under test did not come back, or ended the process."""


def apart(ctx, fn, stall=STALL):
    """fn(ctx) in a process of its own, as the code under test may never come back.

    Raises Found, also when one input makes it hang (or end the process) twice; Stuck
    when that happened but not again.
    """
    import multiprocessing

    mp = multiprocessing.get_context("fork")
    here, there = mp.Pipe(duplex=False)

    def child():
        here.close()

        def beat(case, args):
            there.send(("case", case, args))
        ctx.beat = beat
        try:
            fn(ctx)
            res = ("done", None)
        except Found as f:
            res = ("found", (f.case, f.args_, f.message))
        except BaseException:
            res = ("error", traceback.format_exc()[-1500:])
        there.send(("end", res, {k: getattr(ctx, k) for k in STATE}))
        there.close()
        os._exit(0)
    p = mp.Process(target=child, daemon=True)
    p.start()
    there.close()
    last, why = None, None
    while True:
        try:
            if not here.poll(stall):
                why = f"no answer within {stall:.0f} s"
                break
            m = here.recv()
        except (EOFError, OSError):
            why = "the process ended"
            break
        if m[0] == "case":
            last = m[1:]
            continue
        p.join(10)
        if p.is_alive():
            p.kill()
        _, (kind, what), state = m
        for k, v in state.items():
            setattr(ctx, k, v)
        if kind == "found":
            raise Found(*what)
        if kind == "error":
            raise RuntimeError(what)
        return
    p.kill()
    p.join(10)
    if last is None:
        raise Stuck(why)
    case, args = last
    one = Ctx(ctx.prop, ctx.cases, seed=ctx.seed, tier=ctx.tier)
    if stall == STALL:
        try:
            apart(one, lambda c: c.run(case, **args), stall=AGAIN)
        except Stuck as e:
            raise Found(case, args, f"the code does not come back: {e}") from None
        raise Stuck(f"{why} in {case} {shorten(args)!s:.600}, not when repeated")
    raise Stuck(why)
