"""Mechanical extraction of the verified text from /repo.

A source file is copied verbatim; the only additions are macro invocations placed after loop
headers (VP_LOOP_<function>_<k>) and at the start of loop bodies (VP_BODY_<function>_<k>), on the
same line, for those macros that the harness defines; and a function's call of itself is spelt
VP_REC_<function>(...) if the harness defines that macro (the contract of the function, assumed
for its recursive calls).  Nothing is dropped or reordered.  With the
macros empty the copy is the original program.
"""
import re

KEYWORDS = {"if", "for", "while", "switch", "do", "return", "sizeof", "else", "defined"}


def blank(text):
    """Comments, string/char literals and preprocessor lines replaced by blanks, same length."""
    out = list(text)
    i, n = 0, len(text)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "

    bol = True
    while i < n:
        c = text[i]
        if c == "\n":
            bol = True
            i += 1
        elif text.startswith("//", i):
            j = text.find("\n", i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            j = n if j < 0 else j + 2
            wipe(i, j)
            i = j
        elif c in "\"'":
            j = i + 1
            while j < n and text[j] != c:
                if text[j] == "\\":
                    j += 1
                j += 1
            wipe(i + 1, min(j, n))
            i = min(j, n) + 1
            bol = False
        elif c == "#" and bol:
            j = i
            while True:
                k = text.find("\n", j)
                k = n if k < 0 else k
                if k < n and text[k - 1] == "\\":
                    j = k + 1
                    continue
                break
            wipe(i, k)
            i = k
        else:
            if not c.isspace():
                bol = False
            i += 1
    return "".join(skip_windows(text, out))


def skip_windows(text, out):
    """Blank the regions that only a Windows build compiles (they may unbalance the braces)."""
    stack, pos = [], 0
    for line in text.split("\n"):
        m = re.match(r"\s*#\s*(ifdef|ifndef|if|elif|else|endif)\b\s*(.*)", line)
        if m:
            d, c = m.group(1), re.sub(r"//.*|/\*.*?\*/", "", m.group(2)).strip()
            win = c in ("_WIN32", "defined(_WIN32)", "defined _WIN32")
            if d in ("ifdef", "if"):
                stack.append("off" if win else None)
            elif d == "ifndef":
                stack.append("on" if win else None)
            elif d in ("else", "elif") and stack and stack[-1]:
                stack[-1] = {"off": "on", "on": "off"}[stack[-1]] if d == "else" or stack[-1] == "on" else "on"
            elif d == "endif" and stack:
                stack.pop()
        elif "off" in stack:
            for k in range(pos, pos + len(line)):
                out[k] = " "
        pos += len(line) + 1
    return out


def match(b, i, op, cl):
    d = 0
    while i < len(b):
        if b[i] == op:
            d += 1
        elif b[i] == cl:
            d -= 1
            if d == 0:
                return i
        i += 1
    return -1


def functions(text):
    """[(name, body_open, body_close)] of the function definitions at file scope."""
    b = blank(text)
    res = []
    i = depth = 0
    while i < len(b):
        if b[i] == "{":
            j = match(b, i, "{", "}")
            if j < 0:
                break
            head = b[:i].rstrip()
            # extern "C" { is transparent
            if re.search(r'extern\s*"\s*"$', head):
                i += 1
                continue
            if head.endswith(")"):
                # find the parameter list's opening parenthesis
                d, k = 0, len(head) - 1
                while k >= 0:
                    if head[k] == ")":
                        d += 1
                    elif head[k] == "(":
                        d -= 1
                        if d == 0:
                            break
                    k -= 1
                m = re.search(r"([A-Za-z_]\w*)\s*$", head[:k])
                if m and m.group(1) not in KEYWORDS:
                    res.append((m.group(1), i, j))
            i = j + 1
        else:
            i += 1
    return res


def loops(text, lo, hi):
    """[(kind, insert_pos_for_contract, body_brace_pos or None)] in textual order;
    `do { } while (0)` statements are not loops."""
    b = blank(text)
    res = []
    skip_while = set()
    for m in re.finditer(r"\b(for|while|do)\b", b[lo:hi]):
        p = lo + m.start()
        kw = m.group(1)
        if kw == "do":
            k = p + 2
            while b[k].isspace():
                k += 1
            if b[k] == "{":
                e = match(b, k, "{", "}")
                w = re.compile(r"\s*while\s*").match(b, e + 1)
                if w:
                    skip_while.add(e + 1 + len(w.group(0)) - len(w.group(0).lstrip()))
                    wpos = b.index("while", e + 1)
                    skip_while.add(wpos)
                    po = b.index("(", wpos)
                    pc = match(b, po, "(", ")")
                    cond = b[po + 1:pc].strip()
                    if cond in ("0", "false"):
                        continue
                    res.append(("do", p + 2, k))
            else:
                res.append(("do", p + 2, None))
        else:
            if p in skip_while:
                continue
            po = b.find("(", p)
            pc = match(b, po, "(", ")")
            k = pc + 1
            while k < len(b) and b[k].isspace():
                k += 1
            res.append((kw, pc + 1, k if b[k] == "{" else None))
    return res


def annotate(text, path, macros):
    """Insert the loop contract macros named in `macros` (set of names).
    Returns (new_text, inserted set, dropped list)."""
    ins = []
    done = set()
    for name, lo, hi in functions(text):
        for k, (kind, pos, brace) in enumerate(loops(text, lo, hi)):
            m = "VP_LOOP_%s_%d" % (name, k)
            if m in macros:
                ins.append((pos, " " + m + " "))
                done.add(m)
            m = "VP_BODY_%s_%d" % (name, k)
            if m in macros and brace is not None:
                ins.append((brace + 1, " " + m + " "))
                done.add(m)
        m = "VP_REC_" + name
        if m in macros:
            for c in re.finditer(r"\b%s\s*\(" % re.escape(name), blank(text)[lo:hi]):
                ins.append((lo + c.start(), "VP_REC_"))
            done.add(m)
    out, last = [], 0
    for pos, t in sorted(ins):
        out.append(text[last:pos])
        out.append(t)
        last = pos
    out.append(text[last:])
    # a macro the harness defines only for some of its units is empty in the others
    head = "".join("#ifndef %s\n#define %s%s\n#endif\n" % (m, m, " " + m[7:] if m.startswith("VP_REC_") else "")
                   for m in sorted(done))
    return head + '#line 1 "%s"\n' % path + "".join(out), done


if __name__ == "__main__":
    import sys
    for f in sys.argv[1:]:
        t = open(f).read()
        for name, lo, hi in functions(t):
            ls = loops(t, lo, hi)
            if ls:
                print(f, name, [(k, t.count("\n", 0, p) + 1) for k, p, _ in ls])
