"""Verus on functions extracted from /repo.

A script <property>.py in this directory builds a `Unit`: specifications written here, and functions
whose text is taken from /repo's current tree on every run.  The only changes made to an extracted
function are

  * a contract between its signature and its body, with a name for the result;
  * an invariant at the head of each of its loops;
  * ghost code at the start or end of the body of the function or of a loop, or before or after a loop;
  * the textual substitutions that the script declares, which the evidence lists.

A function that cannot be found, has another number of loops, or is not accepted by the front end of
Verus is undecided and not a violation.
"""

import importlib
import json
import os
import re
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")


class Lost(Exception):
    """Raised when the code does not have the expected shape."""


def blank(text):
    """Replaces comments and the contents of literals by spaces of the same length."""
    out = list(text)
    i = 0

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "

    while i < len(text):
        c = text[i]
        if text.startswith("//", i):
            j = text.find("\n", i)
            j = len(text) if j < 0 else j
            wipe(i, j)
            i = j
        elif text.startswith("/*", i):
            depth, j = 1, i + 2
            while depth and j < len(text):
                if text.startswith("/*", j):
                    depth, j = depth + 1, j + 2
                elif text.startswith("*/", j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif c == '"' or (c == "b" and text.startswith('b"', i)):
            j = i + (2 if c == "b" else 1)
            while text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            wipe(i + 1, j)
            i = j + 1
        elif re.match(r'r#*"', text[i:i + 8]) and not (i and (text[i - 1].isalnum() or text[i - 1] == "_")):
            hashes = re.match(r'r(#*)"', text[i:]).group(1)
            j = text.find('"' + hashes, i + 2 + len(hashes))
            wipe(i + 1, j)
            i = j + 1 + len(hashes)
        elif c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'", text[i:i + 14])
            if m:
                wipe(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def closing(code, start):
    """Finds the brace that closes the one at `start` in blanked code."""
    depth = 0
    for k in range(start, len(code)):
        if code[k] in "{([":
            depth += 1
        elif code[k] in "})]":
            depth -= 1
            if depth == 0:
                return k
    raise Lost("unbalanced braces")


def body_brace(code, start, stop=None):
    """Finds the first `{` at or after `start` that is not within parentheses."""
    depth = 0
    k = start
    while k < (stop if stop is not None else len(code)):
        c = code[k]
        if c in "([":
            depth += 1
        elif c in ")]":
            depth -= 1
        elif c == "{" and depth == 0:
            return k
        elif c == ";" and depth == 0:
            raise Lost("no body")
        k += 1
    raise Lost("no body")


class File:
    def __init__(self, path, text=None):
        self.path = path
        if text is None:
            with open(os.path.join(REPO, path)) as f:
                text = f.read()
        self.text = text
        self.code = blank(text)

    def regions(self, within):
        """Yields the spans of the items that start with the given text, such as `impl ArrayData`."""
        if within is None:
            yield 0, len(self.code)
            return
        pattern = r"\s+".join(re.escape(w) for w in within.split()) + r"(?![\w])"
        for m in re.finditer(r"(?m)^[ \t]*" + pattern, self.code):
            try:
                b = body_brace(self.code, m.end())
            except Lost:
                continue
            yield b + 1, closing(self.code, b)

    def function(self, name, within=None):
        """Returns (signature, body, line) of a function."""
        for part in ([within] if isinstance(within, str) or within is None else within):
            for lo, hi in self.regions(part):
                for m in re.finditer(r"\bfn\s+%s\s*[<(]" % re.escape(name), self.code[lo:hi]):
                    at = lo + m.start()
                    b = body_brace(self.code, at)
                    return (self.text[at:b].rstrip(), self.text[b:closing(self.code, b) + 1],
                            self.code[:at].count("\n") + 1)
        raise Lost("fn %s not found in %s" % (name, self.path))

    def item(self, kind, name):
        """Returns the text of a struct, enum or const, without attributes."""
        m = re.search(r"(?m)^[ \t]*(pub(\([a-z]+\))? +)?%s +%s\b" % (kind, re.escape(name)), self.code)
        if not m:
            raise Lost("%s %s not found in %s" % (kind, name, self.path))
        if kind == "const":
            return self.text[m.start():self.code.index(";", m.start()) + 1].strip()
        try:
            z = closing(self.code, body_brace(self.code, m.end())) + 1
        except Lost:
            z = self.code.index(";", m.end()) + 1  # A tuple.
        return self.text[m.start():z].strip()

    def constant(self, name):
        """Returns the text of the value of a constant."""
        text = self.item("const", name)
        return text[text.index("=") + 1:].rstrip("; ")


def loops_of(body):
    """Finds the loops of a body: list of (offset of the keyword, offset of `{`, offset of `}`)."""
    code = blank(body)
    found = []
    for m in re.finditer(r"\b(for|while|loop)\b", code):
        if m.group(1) == "for" and re.match(r"\s*<", code[m.end():]):
            continue  # for<'a>
        b = body_brace(code, m.end())
        found.append((m.start(), b, closing(code, b)))
    return found


class Unit:
    """One file for Verus."""

    def __init__(self, prop, canary=False):
        self.prop = prop
        self.canary = canary  # Whether each function starts with a contradiction, which has to fail.
        self.parts = []
        self.lines = 1
        self.functions = []  # (name, first line, last line)
        self.dropped = []
        self.assumed = []

    def add(self, text):
        text = text.rstrip("\n") + "\n"
        self.parts.append(text)
        self.lines += text.count("\n")

    def source(self, path):
        return File(path)

    def fn(self, file, name, within=None, contract="", result="r", loops=(), start="", end="",
           loop_start=None, loop_end=None, loop_after=None, loop_before=None, subst=(), hoist=(), rename=None, wrap=None, attrs="",
           rewrite=None, assumed=False):
        """Adds an extracted function with its contract."""
        sig, body, line = file.function(name, within)
        full = "%s:%d %s" % (file.path, line, rename if rename and name == "exec" else name)
        if assumed:
            # The contract is taken for granted.
            body, loops, start, end, hoist = "{ unimplemented!() }", (), "", "", ()
            attrs += "\n#[verifier::external_body]"
        for pattern, to, why in subst:
            sig2, n1 = re.subn(pattern, to, sig)
            body2, n2 = re.subn(pattern, to, body)
            if n1 + n2:
                sig, body = sig2, body2
                self.dropped.append("%s: %s" % (name, why))
        if rewrite:
            body2 = rewrite[0](body)
            if body2 != body:
                body = body2
                self.dropped.append("%s: %s" % (name, rewrite[1]))
        for inner in hoist:
            m = re.search(r"[ \t]*\bfn\s+%s\s*[<(]" % re.escape(inner), blank(body))
            if not m:
                raise Lost("fn %s not found in %s" % (inner, full))
            z = closing(blank(body), body_brace(blank(body), m.end() - 1))
            body = body[:m.start()] + body[z + 1:]
            self.dropped.append("%s: its inner function %s is moved out of it" % (name, inner))
        found = loops_of(body)
        if len(found) != len(loops):
            raise Lost("%s has %d loops instead of %d" % (full, len(found), len(loops)))
        edits = []
        for i, (kw, b, e) in enumerate(found):
            inv = loops[i]
            if isinstance(inv, tuple):
                # Names the iterator.
                m = re.match(r"for\s+(.*?)\s+in\s+", body[kw:], re.S)
                if not m:
                    raise Lost("loop %d of %s is not a for" % (i, full))
                edits.append((kw + m.end(), inv[0] + ": "))
                inv = inv[1]
            edits.append((b, "\n" + inv + "\n"))
            if loop_before and loop_before.get(i):
                edits.append((kw, loop_before[i] + "\n"))
            if loop_start and loop_start.get(i):
                edits.append((b + 1, "\n" + loop_start[i] + "\n"))
            if loop_end and loop_end.get(i):
                edits.append((e, "\n" + loop_end[i] + "\n"))
            if loop_after and loop_after.get(i):
                edits.append((e + 1, "\n" + loop_after[i] + "\n"))
        if start:
            edits.append((1, "\n" + start + "\n"))
        if self.canary and not assumed:
            edits.append((1, "\nassert(false); // canary\n"))
        if end:
            edits.append((len(body) - 1, "\n" + end + "\n"))
        for at, text in sorted(edits, key=lambda p: -p[0]):
            body = body[:at] + text + body[at:]
        if rename:
            sig = re.sub(r"\bfn\s+%s\b" % re.escape(name), "fn " + rename, sig, count=1)
        # Names the result.
        code = blank(sig)
        p = closing(code, body_brace_paren(code))
        m = re.match(r"\s*->\s*", code[p + 1:])
        if m:
            a = p + 1 + m.end()
            w = re.search(r"\bwhere\b", code[a:])
            z = a + w.start() if w else len(sig)
            sig = sig[:a] + "(%s: %s)" % (result, sig[a:z].strip()) + (" " + sig[z:] if w else "")
        text = (attrs + "\n" if attrs else "") + sig + "\n" + contract + "\n" + body
        if wrap:
            text = wrap[0] + "\n" + text + "\n" + wrap[1]
        first = self.lines
        self.add(text)
        if assumed:
            self.assumed.append(full)
        else:
            self.functions.append((full, first, self.lines - 1))

    def text(self):
        return "".join(self.parts)


def body_brace_paren(code):
    """Finds the parenthesis that opens the list of arguments of a signature."""
    k = code.index("fn ")
    depth = 0
    while True:
        if code[k] == "<":
            depth += 1
        elif code[k] == ">" and code[k - 1] != "-":
            depth -= 1
        elif code[k] == "(" and depth == 0:
            return k
        k += 1


HEADER = """#![allow(unused_imports, dead_code, unused_variables, unused_assignments, non_camel_case_types, unused_mut, unused_parens)]
use vstd::prelude::*;
use std::convert::TryFrom;
use std::io;
"""


def verify(prop, build, timeout):
    """Verifies the units of a property."""
    result = {"report": {}, "obligations": 0, "discharged": 0, "cmd": "", "undecided": [], "failed": []}
    here = os.path.dirname(os.path.abspath(__file__))
    if here not in sys.path:
        sys.path.insert(0, here)
    out_dir = os.path.join(build, "verus-" + prop)
    os.makedirs(out_dir, exist_ok=True)
    module = importlib.import_module(prop.lower())
    reports = []
    deadline = time.time() + timeout
    jobs = []
    for make in module.UNITS:
        for canary in (False, True):
            unit = Unit(prop, canary)
            unit.add(HEADER)
            try:
                make(unit)
            except (Lost, OSError, ValueError, IndexError, KeyError) as e:
                if not canary:
                    result["undecided"].append({"unit": make.__name__, "reason": "extraction: %s" % e})
                continue
            path = os.path.join(out_dir, make.__name__ + ("_reach" if canary else "") + ".rs")
            with open(path, "w") as f:
                f.write(unit.text())
            cmd = ["verus", path, "--output-json", "--time", "--num-threads", str(getattr(make, "threads", 2)), "--multiple-errors", "3",
                   "--rlimit", str(getattr(make, "rlimit", 30))]
            env = dict(os.environ)
            env.update({"HOME": "/root", "PATH": "/root/.cargo/bin:" + env.get("PATH", "")})
            for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
                env.pop(k, None)
            # Output goes to files because nobody reads it while other processes are waited for.
            out, err = open(path + ".out", "w+"), open(path + ".err", "w+")
            p = subprocess.Popen(cmd, stdout=out, stderr=err, cwd=out_dir, env=env, start_new_session=True)
            jobs.append((make, unit, path, cmd, p, out, err))
    reached = {}
    for make, unit, path, cmd, p, out, err in jobs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            if not unit.canary:
                result["undecided"].append({"unit": make.__name__, "reason": "timeout"})
            continue
        texts = []
        for f in (out, err):
            f.seek(0)
            texts.append(f.read())
            f.close()
        if unit.canary:
            reached[make.__name__] = contradictions(unit, path, texts[1])
        else:
            judge(result, reports, make, unit, path, cmd, *texts)
    for r in reports:
        # Functions whose contradiction was not refused: nothing about them has been shown.
        seen = reached.get(r["unit"])
        if seen is None:
            r["reachability"] = "not checked"
        else:
            r["reachable_functions"] = len(seen)
            r["vacuous"] = [f for f in r["functions"] if f not in seen]
            if r["vacuous"]:
                result["undecided"].append({"unit": r["unit"], "reason": "vacuous: %s" % ", ".join(r["vacuous"])})
    result["report"] = reports
    result["cmd"] = "verus <unit>.rs --output-json --rlimit N" if jobs else ""
    return result


def contradictions(unit, path, err):
    """Finds the functions whose contradiction was refused."""
    seen = set()
    for block in re.split(r"\n(?=error|note: )", "\n" + err):
        if block.lstrip().startswith("error: assertion failed") and "// canary" in block:
            for n in re.findall(r"-->\s*\S*%s:(\d+):" % re.escape(os.path.basename(path)), block):
                seen.update(f[0] for f in unit.functions if f[1] <= int(n) <= f[2])
    return seen


def judge(result, reports, make, unit, path, cmd, out, err):
    try:
        doc = json.loads(out[out.index("{"):])
        res = doc["verification-results"]
    except (ValueError, KeyError):
        doc, res = {}, {}
    good, bad = res.get("verified", 0), res.get("errors", 0)
    if not res or res.get("encountered-vir-error") or (bad == 0 and not res.get("success")):
        result["undecided"].append({"unit": make.__name__, "reason": "not accepted by Verus", "output": err[-4000:]})
        return
    times = doc.get("times-ms", {})
    reports.append({
        "unit": make.__name__,
        "functions": [f[0] for f in unit.functions],
        "verified": good,
        "errors": bad,
        "solver_ms": (times.get("smt") or {}).get("total"),
        "total_ms": times.get("total"),
        "back_end": "Z3",
        "substitutions": unit.dropped,
        "assumed": unit.assumed,
    })
    result["obligations"] += good + bad
    result["discharged"] += good
    if bad == 0:
        return
    limits = []
    for block in re.split(r"\n(?=error|note: )", "\n" + err):
        if not block.lstrip().startswith("error"):
            continue
        message = block.strip().split("\n")[0]
        if message.startswith("error: aborting"):
            continue
        if "rlimit" in message.lower() or "rlimit" in block.lower():
            limits.append(message)
            continue
        where = [int(n) for n in re.findall(r"-->\s*\S*%s:(\d+):" % re.escape(os.path.basename(path)), block)]
        name = next((f[0] for f in unit.functions if where and f[1] <= where[0] <= f[2]), make.__name__)
        result["failed"].append({"function": name, "message": message[7:], "output": block})
    if limits or not result["failed"]:
        result["undecided"].append({"unit": make.__name__, "reason": "; ".join(limits) or err[-2000:]})


if __name__ == "__main__":
    r = verify(sys.argv[1], "/verif/.build", 600)
    for f in r["failed"]:
        print("FAILED", f["function"], f["message"])
        print(f["output"])
    for u in r["undecided"]:
        print("UNDECIDED", u["unit"], u["reason"])
        print(u.get("output", ""))
    for u in r["report"]:
        print(json.dumps(u))
    print(r["discharged"], "of", r["obligations"])
