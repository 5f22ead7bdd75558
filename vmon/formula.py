"""Independent recursive-descent evaluator of the Excel-style weighting formulas."""
import re

from .env import np

TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)|([A-Za-z_]\w*)|(.))")
FUN = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin, "acos": np.arccos,
       "atan": np.arctan, "abs": np.abs, "sqr": np.sqrt, "sqrt": np.sqrt, "exp": np.exp,
       "log": np.log, "max": np.maximum, "min": np.minimum}


class Unbound(KeyError):
    pass


def evaluate(text, env):
    toks = [m.groups() for m in TOK.finditer(text.strip())] + [(None, None, "end")]
    pos = [0]

    def peek():
        return toks[pos[0]]

    def take(sym=None):
        t = toks[pos[0]]
        if sym is not None and t[2] != sym:
            raise SyntaxError(f"{text}: expected {sym}, got {t}")
        pos[0] += 1
        return t

    def expr():
        v = term()
        while peek()[2] in ("+", "-"):
            v = v + term() if take()[2] == "+" else v - term()
        return v

    def term():
        v = unary()
        while peek()[2] in ("*", "/"):
            v = v * unary() if take()[2] == "*" else v / unary()
        return v

    def unary():
        if peek()[2] == "-":
            take()
            return -unary()
        if peek()[2] == "+":
            take()
            return unary()
        return power()

    def power():
        b = atom()
        if peek()[2] == "^":
            take()
            return np.power(np.asarray(b, float), unary())
        return b

    def atom():
        num, name, sym = take()
        if num is not None:
            return np.float64(num)
        if name is not None:
            if peek()[2] == "(":
                take()
                args = [expr()]
                while peek()[2] == ",":
                    take()
                    args.append(expr())
                take(")")
                return FUN[name.lower()](*args)
            if name == "pi":
                return np.float64(np.pi)
            if name not in env:
                raise Unbound(name)
            return env[name] if not np.isscalar(env[name]) else np.float64(env[name])
        if sym == "(":
            v = expr()
            take(")")
            return v
        raise SyntaxError(f"{text}: {sym}")

    v = expr()
    take("end")
    return v


def names(text):
    out = set()
    ms = list(TOK.finditer(text))
    for i, m in enumerate(ms):
        if m.group(2) and not (i + 1 < len(ms) and ms[i + 1].group(3) == "("):
            out.add(m.group(2))
    return out - {"pi"}
