"""Function-level source edits, used by the self-tests to write variants."""
import ast
import re
import textwrap


def locate(src, qual):
    tree = ast.parse(src)
    body = tree.body
    for i, part in enumerate(qual.split(".")):
        part, _, nth = part.partition("#")
        hits = [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part]
        # overloads first, implementation last
        node = hits[int(nth) if nth else -1]
        body = node.body
    return node


def replace(src, qual, new):
    """Replace function `qual`; its decorators too if `new` starts with one
    (or with '@-', which removes them)."""
    n = locate(src, qual)
    lines = src.split("\n")
    new = textwrap.dedent(new).strip("\n")
    deco = new.startswith("@")
    if new.startswith("@-"):
        new = new[2:].strip("\n")
    start = (min([d.lineno for d in n.decorator_list] + [n.lineno]) if deco else n.lineno) - 1
    ind = " " * n.col_offset
    out = [ind + x if x else x for x in new.split("\n")]
    return "\n".join(lines[:start] + out + lines[n.end_lineno :])


def before(src, qual, new):
    n = locate(src, qual)
    lines = src.split("\n")
    start = min([d.lineno for d in n.decorator_list] + [n.lineno]) - 1
    ind = " " * n.col_offset
    new = textwrap.dedent(new).strip("\n")
    return "\n".join(lines[:start] + [ind + x if x else x for x in new.split("\n")] + ["", ""] + lines[start:])


def body(src, qual, old, new, count=1):
    """Textual replacement within one function."""
    n = locate(src, qual)
    lines = src.split("\n")
    a, b = n.lineno - 1, n.end_lineno
    t = "\n".join(lines[a:b])
    # blank lines do not matter
    pattern = re.sub(r"(?:\\\n)+", lambda m: r"\n(?:[ \t]*\n)*", re.escape(old))
    hits = len(re.findall(pattern, t))
    assert hits == count, f"{qual}: {hits} occurrences of {old!r}"
    return "\n".join(lines[:a] + [re.sub(pattern, lambda m: new, t)] + lines[b:])


def apply(src, edits):
    for e in edits:
        if e[0] == "fn":
            src = replace(src, e[1], e[2])
        elif e[0] == "before":
            src = before(src, e[1], e[2])
        elif e[0] == "in":
            src = body(src, *e[1:])
        elif e[0] == "text":
            assert src.count(e[1]) == 1, f"{src.count(e[1])} occurrences of {e[1]!r}"
            src = src.replace(e[1], e[2])
        else:
            raise ValueError(e[0])
    ast.parse(src)
    return src
