"""Shrinks the source files of a failing case."""
import re
import time

from .mutate import tokens


def kind(why):
    """What shrinking keeps: the headline, and where a crash happened."""
    head = re.sub(r"[\d]+|'[^']*'", "", why.split("\n")[0])
    at = re.findall(r'File "[^"\n]*/([^/"\n]+)", line (\d+)', why.split("\n###")[0])
    ex = re.findall(r"^(\w+(?:Error|Exception)\b)", why, re.M)
    pan = re.findall(r"panicked at ([^\n]*)", why)
    return head, at[-1:], ex[-1:], pan[-1:]


def reduce_files(prop, env, case, why, deadline, kind=kind):
    want = kind(why)
    best = [case, why]
    tries = [0]

    def still(fs):
        tries[0] += 1
        c = {**case, "files": fs}
        try:
            w = prop.check(c, env)
        except Exception:
            return False
        if w is None or kind(w) != want:
            return False
        best[:] = [c, w]
        return True

    fs = dict(case["files"])
    for n in sorted(fs):
        if n != "prog.ama" and still({k: v for k, v in fs.items() if k != n}):
            del fs[n]
    again = True
    while again and time.time() < deadline:
        again = False
        for n in sorted(fs):
            isb = isinstance(fs[n], bytes)
            empty = b"" if isb else ""
            for split in ((lambda t: [t[i:i + 1] for i in range(len(t))],) if isb else
                          (lambda t: t.splitlines(True), tokens, list)):
                units = list(split(fs[n]))
                if len(units) > 3000:
                    continue
                size = max(1, len(units) // 2)
                while size and time.time() < deadline:
                    i = 0
                    while i < len(units) and time.time() < deadline:
                        cut = units[:i] + units[i + size:]
                        if still({**fs, n: empty.join(cut)}):
                            units = cut
                            fs[n] = empty.join(units)
                            again = True
                        else:
                            i += size
                    size //= 2
    return best[0], best[1], tries[0]
