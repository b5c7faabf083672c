"""Random source texts: well-formed ones by construction, nearly well-formed ones by mutation."""
import glob
import os

GATES1 = ['H', 'I', 'mX90', 'mY90', 'mZ90', 'S', 'Sdag', 'T', 'Tdag', 'X', 'X90', 'Y', 'Y90', 'Z', 'Z90']
GATESF = ['Rx', 'Ry', 'Rz']
GATES2 = ['CNOT', 'CZ', 'SWAP']
FUNCS = ['sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh', 'abs']
BINOPS = ['+', '-', '*', '/', '%', '**', '<<', '>>', '==', '!=', '<', '>', '<=', '>=', '&', '^', '|', '&&', '^^', '||']
NAMES = ['q', 'b', 'qq', 'bb', 'Q', 'x', 'H', 'sin', 'pi', 'q_1', '_', 'Version', 'e1', 'measure1']


class Gen:
    def __init__(self, rnd):
        self.r = rnd

    def ch(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    # -- expressions ----------------------------------------------------------------
    def intlit(self):
        r = self.r
        return self.ch([str(r.randint(0, 4)), str(r.randint(0, 4)), str(r.randint(0, 4)), str(r.randint(0, 70)), '0' + str(r.randint(0, 9)), str(r.randint(0, 2 ** 40)),
                        '9223372036854775807', '9223372036854775806', '4611686018427387904'])

    def floatlit(self):
        r = self.r
        return self.ch([f'{r.randint(0, 9)}.{r.randint(0, 99)}', f'.{r.randint(0, 99)}', f'{r.randint(0, 9)}.', f'{r.randint(0, 9)}.e{r.randint(0, 5)}',
                        f'{r.randint(0, 9)}.{r.randint(0, 9)}E-{r.randint(0, 9)}', f'.5e+{r.randint(0, 30)}', '0.', '1.0', '0.5', repr(r.random())])

    def atom(self, names):
        k = self.r.random()
        if k < .35:
            return self.intlit()
        if k < .5:
            return self.floatlit()
        if k < .62:
            return self.ch(['true', 'false'])
        if k < .75:
            return self.ch(['pi', 'eu', 'tau'])
        if k < .8 and names:
            return self.ch(names)
        if k < .85 and names:
            return f'{self.ch(names)}[{self.ch(["0", "1", "0:1", "2, 0", "1+1"])}]'
        if k < .87:
            return self.ch(['True', 'PI', 'nope', 'sin'])
        return str(self.r.randint(0, 9))

    def expr(self, d, names=(), kind=None):
        if d <= 0 or self.p(.12):
            return self.atom(names)
        k = self.r.random()
        sp = self.ch(['', ' ', ' '])
        if k < .55:
            return f'{self.expr(d - 1, names)}{sp}{self.ch(BINOPS)}{sp}{self.expr(d - 1, names)}'
        if k < .68:
            return f'({self.expr(d - 1, names)})'
        if k < .83:
            return f'{self.ch("-+~!-")}{self.expr(d - 1, names)}'
        if k < .9:
            return f'{self.expr(d - 1, names)} ? {self.expr(d - 1, names)} : {self.expr(d - 1, names)}'
        if k < .985:
            return f'{self.ch(FUNCS)}({self.expr(d - 1, names)})'
        return self.ch(['sin()', 'abs(1, 2)', 'foo(1)', 'Sin(1)', 'sqrt(q)'])

    def typed(self, d, t):
        """an expression of type t (b, i, f), correctly typed"""
        if d <= 0 or self.p(.15):
            if t == 'b':
                return self.ch(['true', 'false'])
            if t == 'i':
                return self.intlit() if self.p(.9) else self.ch(['true', 'false'])
            return self.ch([self.floatlit(), 'pi', 'eu', 'tau', self.intlit()])
        e = self.typed
        par = lambda s: f'({s})' if self.p(.45) else s
        if t == 'b':
            k = self.r.randint(0, 5)
            if k == 0:
                return '!' + par(e(d - 1, 'b'))
            if k == 1:
                x = self.ch('bif')
                return par(e(d - 1, x)) + self.ch([' == ', ' != ', ' < ', ' > ', ' <= ', ' >= ']) + par(e(d - 1, x))
            if k == 5:
                return par(e(d - 1, 'b')) + ' ? ' + par(e(d - 1, 'b')) + ' : ' + par(e(d - 1, 'b'))
            return par(e(d - 1, 'b')) + self.ch([' && ', ' || ', ' ^^ ']) + par(e(d - 1, 'b'))
        if t == 'i':
            k = self.r.randint(0, 6)
            if k == 0:
                return self.ch('-~+') + par(e(d - 1, 'i'))
            if k == 1:
                return par(e(d - 1, 'i')) + self.ch(['<<', '>>']) + str(self.r.randint(0, 63))
            if k == 2:
                return f'abs({e(d - 1, "i")})'
            if k == 3:
                return par(e(d - 1, 'b')) + ' ? ' + par(e(d - 1, 'i')) + ' : ' + par(e(d - 1, 'i'))
            return par(e(d - 1, 'i')) + self.ch([' + ', ' - ', ' * ', ' / ', ' % ', ' & ', ' | ', ' ^ ']) + par(e(d - 1, 'i'))
        k = self.r.randint(0, 5)
        if k == 0:
            return '-' + par(e(d - 1, 'f'))
        if k in (1, 2):
            return f'{self.ch(FUNCS)}({e(d - 1, "f")})'
        if k == 3:
            return par(e(d - 1, 'b')) + ' ? ' + par(e(d - 1, 'f')) + ' : ' + par(e(d - 1, 'f'))
        return par(e(d - 1, 'f')) + self.ch([' + ', ' - ', ' * ', ' / ', ' ** ']) + par(e(d - 1, 'f'))

    # -- statements -----------------------------------------------------------------
    def index(self, n):
        r = self.r
        one = lambda: str(r.randint(0, max(0, n - 1))) if not self.p(.06) else self.ch([str(n), '0-1', '1+1', 'true', '1.5', str(n + 3), 'pi', '-0'])

        def entry():
            if self.p(.35):
                a = r.randint(0, max(0, n - 1))
                b = r.randint(a, max(a, n - 1)) if not self.p(.07) else r.randint(0, n)
                return f'{a}:{b}'
            return one()
        return ', '.join(entry() for _ in range(self.ch([1, 1, 1, 2, 2, 3])))

    def operand(self, vs):
        """vs: {name: size or 0 for a scalar}"""
        if not vs or self.p(.03):
            return self.ch(['nope', 'pi', '1', 'q[0]', '1.5', 'true', 'q', 'b'])
        n = self.ch(list(vs))
        if vs[n] and self.p(.6):
            return f'{n}[{self.index(vs[n])}]'
        if not vs[n] and self.p(.03):
            return f'{n}[0]'
        return n

    def param(self, t, d=2):
        return self.typed(self.r.randint(0, d), t) if not self.p(.05) else self.expr(2, ('q', 'b'))

    def gate(self, depth=0):
        k = self.r.random()
        if depth < 3 and k < .22:
            m = self.ch(['inv', 'inv', 'ctrl', f'pow({self.param("f")})', f'pow({self.param("i")})'])
            g, n = self.gate(depth + 1)
            if m == 'ctrl':
                n += 1
            return f'{m}.{g}', n
        if k < .55:
            return self.ch(GATES1), 1
        if k < .65:
            return f'{self.ch(GATESF)}({self.param("f")})', 1
        if k < .69:
            return 'U(' + ', '.join(self.param('f', 1) for _ in range(3)) + ')', 1
        if k < .72:
            return 'Rn(' + ', '.join(self.param('f', 1) for _ in range(5)) + ')', 1
        if k < .86:
            return self.ch(GATES2), 2
        if k < .91:
            return f'CR({self.param("f")})', 2
        if k < .96:
            return f'CRk({self.param("i")})', 2
        return self.ch(['foo', 'x', 'h', 'X(1)', 'Rx', 'Rx(1,2)', 'cnot', 'U(1,2)', 'CRk(1.5)', 'Rx(q)', 'CR(true)', 'H()', 'Toffoli', 'measure_all', 'mx90', 'sdag', 'MX90']), self.ch([1, 2])

    def statement(self, qs, bs):
        k = self.r.random()
        allv = {**qs, **bs}
        if k < .2 or not qs:
            kind = self.ch(['qubit', 'qubit', 'bit'])
            used = list(allv)
            n = self.ch([x for x in NAMES if x not in used] or NAMES) if not self.p(.08) else self.ch(NAMES)
            size = self.ch([0, 0, 1, 2, 3, 4, 5])
            (qs if kind == 'qubit' else bs).setdefault(n, size)
            if self.p(.03):
                return f'{kind}[0] {n}'
            return f'{kind}[{size}] {n}' if size else f'{kind} {n}'
        if k < .62:
            g, n = self.gate()
            if self.p(.03):
                n = self.ch([1, 2, 3])
            ops = [self.operand(qs if not self.p(.04) else allv) for _ in range(n)]
            if n == 2 and self.p(.5) and qs:       # same shape
                a = self.ch(list(qs))
                if qs[a] and qs[a] > 1:
                    ops = [f'{a}[{self.r.randint(0, qs[a] - 1)}]', f'{a}[{self.r.randint(0, qs[a] - 1)}]']
            return f'{g} {", ".join(ops)}'
        if k < .75:
            par = '(' + ', '.join(self.param('f', 1) for _ in range(3)) + ')' if self.p(.15) else '(1)' if self.p(.03) else ''
            if self.p(.6):
                sizes = {}
                for q, n in qs.items():
                    for b, m in bs.items():
                        if max(n, 1) == max(m, 1):
                            sizes[(q, b)] = n
                if sizes:
                    q, b = self.ch(list(sizes))
                    return f'{b} = measure{par} {q}'
            return f'{self.operand(bs or allv)} = measure{par} {self.operand(qs)}'
        if k < .9:
            return f'{self.ch(["reset", "init", "barrier"])} {self.operand(qs if not self.p(.05) else allv)}'
        if k < .96:
            return f'wait({self.param("i")}) {self.operand(qs)}'
        return f"asm({self.ch(['B', 'q', 'TestBackend'])}) '''{self.ch(['', 'x', ' a ' + chr(39) + ' { b ', 'l1' + chr(10) + 'l2', 'é ∑'])}'''"

    def program(self, n=None, version='version 3.0'):
        qs, bs = {}, {}
        out = [version if not self.p(.04) else self.ch(['version 3', 'version 3.1', 'version 3.00', 'version  3.0', 'version 2.0', 'version 03.0'])]
        for _ in range(n if n is not None else self.r.randint(0, 7)):
            out.append(self.statement(qs, bs))
            if self.p(.15) and not out[-1].startswith(('qubit', 'bit')):
                out += [out[-1]] * self.ch([1, 1, 2])           # the same statement again
        s = out[0]
        for st in out[1:]:
            s += self.ch(['\n', '\n', '\n', ';', '; ', '\n\n', ' ;\n', '\r\n', ' // c\n', '\n/* c\n c */ ']) + st
        if self.p(.4):
            s += self.ch(['\n', ';', ' ', '\n\n', ' // end', '/* x */', '\n;\n'])
        if self.p(.15):
            s = self.ch(['\n', '// c\n', '/* c */', ' ', ';', '\n\n']) + s
        return s

    # -- mutation -------------------------------------------------------------------
    FRAGS = ['(', ')', '[', ']', ',', ';', '\n', '.', ':', '=', '?', '+', '-', '**', '*', '/', '//', '/*', '*/', "'''", "'", '"', '@', '#', '$', '\\', '{', '}', '`',
             '\t', ' ', '\r', '\r\n', 'version', 'qubit', 'bit', 'measure', 'inv.', 'ctrl.', 'pow(', 'pow(2).', 'asm', 'wait', 'wait(', 'reset', 'true', 'q', 'b', 'X', 'CNOT', '0', '1', '1.', '.5', '1e5', '1.e', '1.e+',
             '99999999999999999999', '9223372036854775808', '1e400', '1.0e400', '1.0e-400', 'é', '∑', '😀', '\u00a0', '==', '&&', '^^', '||', '<<', '>>', '<=', '!=', '!', '~', '^', '|', '&', '%', 'sin(', 'pi', 'x', '_']

    def mutate(self, s):
        for _ in range(self.ch([1, 1, 1, 2, 2, 3])):
            i = self.r.randint(0, len(s))
            k = self.r.random()
            if k < .35:
                s = s[:i] + self.ch(self.FRAGS) + s[i:]
            elif k < .6:
                j = min(len(s), i + self.ch([1, 1, 1, 2, 3, 6]))
                s = s[:i] + s[j:]
            elif k < .75:
                j = min(len(s), i + 1)
                s = s[:i] + self.ch(self.FRAGS) + s[j:]
            elif k < .9:
                j = self.r.randint(0, len(s))
                a, b = min(i, j), max(i, j)
                s = s[:b] + s[a:b][:20] + s[b:]
            else:
                s = s[:i]
        return s


def corpus(repo):
    """inputs of the repository's own tests and documentation"""
    out = []
    for f in sorted(glob.glob(f'{repo}/test/**/*.cq', recursive=True) + glob.glob(f'{repo}/res/**/*.cq', recursive=True)):
        try:
            with open(f, 'rb') as h:
                b = h.read()
        except OSError:
            continue
        if len(b) < 1500 and b not in out:
            out.append(b)
    return out
