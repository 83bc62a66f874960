"""What the compiler writes when it rejects a program."""
import os
import re

FORM = re.compile(r'\nFicheiro "([^"\n]*)", linha (-?\d+)(?:: coluna (-?\d+))?\n    ([^\n]*)\nErro( sintático)?: (.*)\.\n\Z', re.S)
NO_PLACE = re.compile(r"O programa '[^\n]*' tem demasiados blocos ou expressões encaixados uns nos outros\n\Z")


class Diag:
    __slots__ = ("file", "line", "col", "text", "syntax", "msg")

    def __repr__(self):
        return f"<{self.file}:{self.line} {self.text!r} {'s' if self.syntax else ''} {self.msg!r}>"


def parse(err):
    """-> Diag or None"""
    m = FORM.match(err)
    if not m:
        return None
    d = Diag()
    d.file, d.line, d.col, d.text = m[1], int(m[2]), m[3] and int(m[3]), m[4]
    d.syntax, d.msg = bool(m[5]), m[6]
    return d


def lines(text):
    if isinstance(text, bytes):
        text = text.decode("utf-8", "replace")
    return text.replace("\r\n", "\n").replace("\r", "\n").split("\n")


def wrong(r, files, repo=None, cwd=""):
    """What is wrong with the answer of the front end to a program it did not
    accept; None, or a text."""
    if r.out:
        return "a rejected program wrote to stdout"
    if r.rc == 1 and NO_PLACE.match(r.err):
        return None
    d = parse(r.err)
    if d is None:
        return "this is not one diagnostic"
    if (d.col is not None) != d.syntax:
        return "columns belong to syntax errors"
    if r.rc != 0:
        return f"exit status {r.rc}"
    name = os.path.normpath(os.path.join(cwd, d.file))
    if name not in files:
        return "the diagnostic names a file that the program does not consist of"
    ls = lines(files[name])
    if not 1 <= d.line <= len(ls) or (d.line == len(ls) and not ls[-1] and len(ls) > 1):
        return f"the file has no line {d.line}"
    if ls[d.line - 1].strip() != d.text:
        return f"line {d.line} of the file is {ls[d.line - 1].strip()!r}"
    if not d.msg.strip():
        return "the message is empty"
    return None
