"""Literals of the repository's current source that the pinned reference does not have. A change that acts
on special values only (a threshold, a name, a sentinel) usually names them: the search tries values at
and around them. They direct the search, they decide nothing."""
import ast
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def fold(n):
    """value of a constant expression, or None"""
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = fold(n.operand)
        return -v if isinstance(v, (int, float)) else None
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if type(a) is int and type(b) is int and abs(a) < 1 << 70 and 0 <= b < 1 << 70:
            if isinstance(n.op, ast.LShift) and b < 80:
                return a << b
            if isinstance(n.op, ast.Pow) and b < 80 and abs(a) < 1 << 16:
                return a**b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
    return None


def literals(root):
    out = set()
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x != "__pycache__" and not x.startswith(".")]
        for f in fs:
            if f.endswith(".py"):
                try:
                    with open(os.path.join(d, f), encoding="utf8") as h:
                        t = ast.parse(h.read())
                except (SyntaxError, ValueError, OSError):
                    continue
                doc = {id(n.value) for n in ast.walk(t) if isinstance(n, ast.Expr)}
                for n in ast.walk(t):
                    if id(n) in doc:
                        continue
                    v = fold(n) if isinstance(n, ast.expr) else None
                    if isinstance(v, (int, float, str, bytes)) and not isinstance(v, bool) and not (isinstance(v, str) and len(v) > 200):
                        out.add((type(v).__name__, v))
    return out


def novel(repo):
    """{"int": [...], "str": [...], "float": [...], "guid": [...], "bytes": [...]}"""
    new = literals(os.path.join(repo, "palworld_save_tools")) - literals(os.path.join(HERE, os.pardir, "ref", "pst_ref"))
    h = {}
    for k, v in sorted(new, key=repr)[:60]:
        if k == "int":
            h.setdefault("int", []).extend([v, v - 1, v + 1, -v, 2 * v])
            if 0 < v < 64:
                h["int"].extend([1 << v, (1 << v) - 1])
        elif k == "float":
            h.setdefault("float", []).extend([v, -v, v * (1 + 2**-52), v * (1 - 2**-52)])
        elif k == "str" and v:
            h.setdefault("str", []).extend([v, v + "x", "x" + v, v.swapcase(), v * 2, v[:-1]])
            s = v.replace("-", "")
            if len(s) == 32 and all(c in "0123456789abcdefABCDEF" for c in s):
                b = bytes.fromhex(s)
                h.setdefault("guid", []).extend([b, b"".join(b[i : i + 4][::-1] for i in range(0, 16, 4))])
        elif k == "bytes" and v:
            h.setdefault("bytes", []).append(v)
            h.setdefault("guid", []).append((v * 16)[:16])
            h.setdefault("int", []).append(int.from_bytes(v[:8], "little"))
    return h
