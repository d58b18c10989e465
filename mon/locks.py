"""Where the code under test holds a lock (it need not have any): an exception thrown at the line of a `with` as it is
left, or between acquiring and the `try`, would leave the lock taken, which no real interrupt does (the interpreter runs
signal handlers at calls and jumps only)."""
import ast
import functools


@functools.lru_cache(None)
def entrances(filename):
    """the lines of the file where a lock is taken or given back"""
    try:
        with open(filename, encoding="utf-8") as f:
            text = f.read()
        tree = ast.parse(text)
    except (OSError, SyntaxError, ValueError):
        return frozenset()
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            out.update(range(n.lineno, n.body[0].lineno))
            out.add(n.lineno)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("acquire", "release"):
            out.update((n.lineno, n.lineno + 1))
        elif isinstance(n, ast.Try) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "release"
                                            for b in n.finalbody for c in ast.walk(b)):
            out.update((n.lineno, n.body[0].lineno))
            out.update(range(n.finalbody[0].lineno, n.end_lineno + 1))
    return frozenset(out)
