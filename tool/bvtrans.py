"""Bit-vector reading of machine integers: the same translation, with uintN/intN as Why3 bit vectors."""
from cxx2why import *

W = {"u32": 32, "i32": 32, "u64": 64, "i64": 64}


class BVTranslator(Translator):
    def wty(self, t):
        if t.k in W:
            return "BV%d.t" % W[t.k]
        if t.k in RANGE:
            raise ExtractError("bit-vector mode: type %s" % t.k)
        return Translator.wty(self, t)

    def wt(self, t, x):
        if t.k in W:
            return []
        return Translator.wt(self, t, x)

    def lit(self, v, t):
        return "(%d:BV%d.t)" % (int(v) % 2 ** W[t.k], W[t.k])

    def x_IntegerLiteral(self, n):
        t = self.ty(n)
        return self.lit(n["value"], t), t

    def default(self, t):
        return self.lit(0, t) if t.k in W else Translator.default(self, t)

    def anyval(self, t):
        return "(any_bv%d ())" % W[t.k] if t.k in W else Translator.anyval(self, t)

    def conv(self, c, t, to):
        if t.k in W and to.k in W:
            m = re.match(r"^\((\d+):BV(\d+)\.t\)$", c)
            if m:
                v = int(m.group(1))
                if t.k[0] == "i" and v >= 2 ** (W[t.k] - 1):
                    v -= 2 ** W[t.k]
                return self.lit(v, to)
            if W[t.k] == W[to.k]:
                return c
            if W[to.k] < W[t.k]:
                return "(bv64_to_32 %s)" % c
            return "(bv32_%s_to_64 %s)" % ("s" if t.k[0] == "i" else "u", c)
        if t.k == "bool" and to.k in W:
            return "(if %s then %s else %s)" % (c, self.lit(1, to), self.lit(0, to))
        if t.k in W and to.k == "bool":
            return "(not (beq%d %s %s))" % (W[t.k], c, self.lit(0, t))
        return Translator.conv(self, c, t, to)

    def arith(self, op, a, ta, b, tb, t):
        if ta.k in W:
            w, s = W[ta.k], ta.k[0]
            if op in ("==", "!="):
                r = "(beq%d %s %s)" % (w, a, b)
                return (r if op == "==" else "(not %s)" % r), Ty("bool")
            if op in ("<", "<=", ">", ">="):
                return "(b%s%d_%s %s %s)" % (s, w, {"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[op], a, b), Ty("bool")
            if op in ("<<", ">>"):
                if W[tb.k] != w:
                    b = self.conv(b, tb, Ty("u%d" % w if tb.k[0] == "u" else "i%d" % w))
                return "(b%s%d_%s %s %s)" % (s, w, "shl" if op == "<<" else "shr", a, b), t
            f = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "&": "and", "|": "or", "^": "xor"}[op]
            return "(b%s%d_%s %s %s)" % (s, w, f, a, b), t
        return Translator.arith(self, op, a, ta, b, tb, t)

    def incdec(self, p, op):
        if p.ty.k in W:
            self.write(p, self.arith("+" if op == "++" else "-", self.read(p), p.ty, self.lit(1, p.ty), p.ty, p.ty)[0])
        else:
            Translator.incdec(self, p, op)

    def x_UnaryOperator(self, n):
        op = n["opcode"]
        if op in ("-", "~"):
            c, t = self.ex(n["inner"][0])
            if t.k in W:
                m = re.match(r"^\((\d+):BV(\d+)\.t\)$", c)
                if m and op == "-":
                    return self.lit(-int(m.group(1)), t), t
                return "(b%s%d_%s %s)" % (t.k[0], W[t.k], "neg" if op == "-" else "not", c), t
        return Translator.x_UnaryOperator(self, n)

    def index(self, p, i):
        m = re.match(r"^\((\d+):BV(\d+)\.t\)$", i)
        if m:
            i = m.group(1)
        elif p.ty.k in ("vec", "arr", "str", "deque"):
            i = "(bv_uint %s)" % i
        return Translator.index(self, p, i)

    def bind(self, code, pre="t"):
        if re.match(r"^\(\d+:BV\d+\.t\)$", code):
            return code
        return Translator.bind(self, code, pre)

    def auto_variant(self, cond, inc):
        return None

    def lib_call(self, n, name, args):
        if name in ("min", "max") and len(args) == 2:
            (a, ta), (b, tb) = self.args_ordered(args)
            if ta.k in W:
                a, b = self.bind(a), self.bind(b)
                return "(if %s then %s else %s)" % (self.arith("<" if name == "min" else ">", b, tb, a, ta, Ty("bool"))[0], b, a), ta
        return Translator.lib_call(self, n, name, args)
