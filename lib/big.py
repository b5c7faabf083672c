"""Large programs, property by property: long names, many declarations, long lists, deep chains, many errors, far
columns and lines.  What small families cannot show are limits: counters, buffers and tables that run over."""
import gen

P = 'version 3.0\n'


def big(prop, rnd, quick):
    """texts for one property; sizes are drawn around powers of two"""
    g = gen.Gen(rnd)
    n = lambda lo, hi: rnd.randint(lo, hi)
    ch = rnd.choice
    near = lambda *xs: max(1, ch(xs) + n(-1, 2))
    name = lambda k: ch('abq_Q') + ''.join(ch('abq_Q019') for _ in range(k - 1))
    times = 1 if quick else 4
    out = []
    for _ in range(times):
        out += LARGE[prop](g, n, ch, near, name)
    return [x.encode() for x in dict.fromkeys(out)]


def c01(g, n, ch, near, name):
    body = [P.strip(), 'qubit[3] q', 'X q[0]', 'Rx(1 + 2) q', 'CNOT q[0], q[1]']
    far = near(4096, 32768, 65536, 66000)
    c = lambda k: ''.join(ch('x */;\n\'"') for _ in range(k)).replace('*/', '* ')
    return ['\n'.join(body[:3] + ['/*' + ch(' x\n') * far + '*/' + body[4]]), '\n'.join(body[:3] + ['//' + ch(' x') * far, body[4]]), body[0] + ch([' ', '\t']) * far + '\n' + '\n'.join(body[1:]), '\n'.join(body[:1] + ['/*' + c(near(64, 256, 1024, 4096)) + ' */' + b for b in body[1:3]]), '\n'.join(b + ' //' + c(near(64, 256, 512)).replace('\n', '.') for b in body), ('\n' * near(8, 64, 256)).join(body), (';' * near(8, 64, 256)).join(body),
            '\n'.join(b.replace(' ', ' ' * near(8, 64, 256)) for b in body), '\n'.join(b.replace(',', '/* c */' * near(8, 32) + ',').replace('+', '\t' * near(16, 64) + '+') for b in body), ' // c\n;\n'.join(body * 1 + ['X q[1]'] * near(40, 70)),
            '\n' * near(16, 100) + '\n'.join(body), '\n'.join(body) + '\n// c' * near(30, 60)]


def chain(g, n, ch, k, ops=gen.BINOPS, atoms='abcd'):
    s = ch(atoms)
    for _ in range(k):
        s += ' ' + ch(ops) + ' ' + ch(['', '', '-', '~', '!']) + ch(atoms)
    return s


def c02(g, n, ch, near, name):
    w = lambda e: P + f'Rx({e}) q'
    k = lambda: near(8, 16, 32)
    return [w(chain(g, n, ch, k())) for _ in range(10)] + [w(' ** '.join('abcdef' * 5)), w(' - '.join('abcdef' * 6)), w('a ? ' + 'b : c ? ' * k() + 'd : e'), w('(' * 20 + 'a + b' + ')' * 20 + ' * c'), w('f(' * 15 + 'a ** b' + ')' * 15 + ' ** c'), w('-' * k() + 'a ** -b'),
            w('f(' + ', '.join(chain(g, n, ch, 2) for _ in range(k())) + ')'), P + 'X q[' + ', '.join(chain(g, n, ch, 1) + ch(['', ':b + 1']) for _ in range(k())) + ']', w(' ** '.join('-' + x for x in 'abcde' * 3)), w('!' * k() + 'a && ' + '~' * k() + 'b')]


def c03(g, n, ch, near, name):
    out = []
    for bad in ('X nope', 'Rx(1 + q) q', 'foo q', 'X q[3:9]', 'qubit q', 'X q 1', "asm(B) '''x'''; X z", '$'):
        col, line = near(8, 64, 100, 128, 256, 1000), near(8, 64, 100, 128, 256, 1000)
        out += [P + 'qubit[3] q' + '\n' * line + ' ' * col + bad, P + 'qubit[3] q;' + '/*' + ' \n' * line + ' ' * col + '*/' + bad + ('' if bad == '$' else '; H q')]
    far = lambda: near(4096, 32768, 65536, 66000)
    for bad in ('X nope', 'foo q', 'X q 1'):
        out += [P + 'qubit q;' + ' ' * far() + bad, P + 'qubit q;/*' + '\n' * far() + '*/' + bad, P + 'qubit q; //' + '.' * far() + '\n' + bad]
    long_ = name(near(64, 128, 256))
    return out + [P + f'qubit {long_}; X {long_}; X {long_}x; CNOT {long_}, {long_}, 1', P + 'qubit[3] q; X q[' + ', '.join('0' for _ in range(near(16, 64))) + ', 3]', P + 'qubit q; Rx(' + ' + '.join('1' for _ in range(near(16, 32))) + ' + q) q',
                  P + "asm(B) '''" + 'x\n' * near(16, 128) + "'''; X z; qubit q", P + "asm(B) '''" + 'é' * near(64, 128) + "'''; X z; qubit q", P + '/*' + 'é' * near(64, 255) + '*/ X z']


def c04(g, n, ch, near, name):
    stmts = ['X q[0]', 'qubit q', 'b = measure q', 'barrier q', 'Rx(1) q', "asm(B) '''x'''"]
    bad = ['X q q', 'qubit [', 'b == measure q', 'X', 'Rx(1 q', '1', 'version 3.0', 'X q[0', "asm(B) '''x"]
    out = []
    for b in bad:
        k = near(8, 32, 60)
        out.append(P + '\n'.join(ch(stmts) for _ in range(k)) + '\n' + b + '\n' + '\n'.join(ch(stmts) for _ in range(3)))
    nest = lambda k, a, m, z: a * k + m + z * k
    w = lambda e: P + f'Rx({e}) q'
    return out + [w(nest(near(16, 30), '(', '1', ')')), w(nest(15, '(', '1', ')')[:-1]), w(nest(15, '(', '1', ')') + ')'), w('1 + ' * near(16, 64)), w('1, ' * near(8, 32) + '1'), w('0' * near(16, 64) + '1'), w('0.' + '0' * near(16, 64, 330) + '1'), w('1' * 300 + '.0'), w('1' * 310 + '.0'), w('0' * 30 + '9223372036854775807'),
                  P + 'X ' + ', '.join('q' for _ in range(near(8, 64))), P + 'X ' + 'q, ' * near(8, 64), P + 'X ' + name(near(64, 255, 1024)), P + 'X q[' + '1, ' * near(8, 32) + ']', P + 'inv.' * near(8, 32) + 'X q', P + 'inv.' * near(8, 32) + 'q', P + '@' * near(4, 16), P + '\n'.join(stmts * 12)]


def c05(g, n, ch, near, name):
    return [f'version {"0" * near(8, 32)}3.{"0" * near(8, 32)}', f'version {"0" * near(8, 32)}3.{"0" * near(8, 32)}1', 'version 3' + '.0' * near(3, 8), f'version {"3" * near(8, 18)}', 'version 3.' + '0' * near(8, 40) + '\nqubit q; X z', 'version ' + '0' * near(8, 40), 'version ' + ' ' * near(64, 256) + '3.0', '\n' * near(64, 256) + 'version 3.0', 'version 3' + '0' * 17,
            'version 3.1\n' + 'qubit q\n' * 30, 'version 259', 'version 65539', 'version 3.256', 'version 3.65536', 'version 259.0', 'version 3.4294967296', 'version 4294967299.0', 'version 4294967299.4294967296']


def c07(g, n, ch, near, name):
    k, m = near(16, 64, 100), near(32, 64, 128, 255)
    stem = name(m)
    ns = [f'v{i}' for i in range(k)]
    out = [P + '\n'.join(f'qubit[{i + 1}] {x}' for i, x in enumerate(ns)) + '\n' + '\n'.join(f'X {x}[{i + d}]' for i, x in list(enumerate(ns))[::9] for d in (0, 1)),
           P + '\n'.join(f'qubit {x}' for x in ns) + f'\nX {ns[0]}\nX {ns[-1]}\nX v{k}\nbit {ns[0]}\nbit {ns[-1]}\nbit {ns[k // 2]}',
           P + f'qubit {stem}a\nbit {stem}b\nqubit[2] {stem}A\nX {stem}a\nX {stem}b\nX {stem}A[1]\nX {stem}\nX {stem}aa\nbit {stem}b']
    for d in ('x', 'X', '_', '1'):
        out.append(P + f'qubit {stem}; X {stem}{d}; qubit {stem}{d}; X {stem}{d}; X {stem[:-1]}; X {stem}; bit[2] {stem}{d}{d}; {stem}{d}{d} = measure {stem}')
    out.append(P + '\n'.join(f'{ch(["qubit", "bit"])} {ch(ns[:9])}' if g.p(.4) else f'X {ch(ns[:9])}' for _ in range(60)))
    out.append(P + 'qubit q\n' + '\n'.join(ch(['X q', 'Rx(pi) q', 'X z', 'bit q', 'H q']) for _ in range(60)))
    return out


def c08(g, n, ch, near, name):
    k = near(16, 64, 128)
    big = lambda: ch([near(8, 16, 64, 256, 1000, 1024, 4096, 32768, 65536, 1000000), n(1, 10 ** 9), n(2 ** 31, 2 ** 62)])
    return [P + '\n'.join(f'{ch(["qubit", "bit"])}{ch(["", f"[{big()}]"])} v{i}' for i in range(k)), P + '\n'.join(f'{ch(["qubit", "bit"])}[{big()}] v{n(0, 30)}' for i in range(40)), P + '\n'.join(f'qubit v{i}; X v{i // 2}' for i in range(40)), P + f'qubit[{big()}] {name(near(32, 64, 255))}; bit[{big()}] {name(near(32, 128))}',
            P + '\n'.join(f'bit[{2 ** i + d}] a{i}_{d + 1}' for i in range(0, 62, 2) for d in (-1, 0, 1) if 2 ** i + d), P + f'qubit[{"0" * near(8, 32)}7] q; X q[6]; X q[7]', P + 'X z\n' * near(8, 30) + 'qubit q\n' + 'qubit[0] y\n' * 5 + 'bit[2] b']


def c09(g, n, ch, near, name):
    w = lambda e: P + f'qubit q; wait({e}) q'
    r = lambda e: P + f'qubit q; Rx({e}) q'
    k = lambda: near(8, 16, 40)
    i = lambda: str(n(0, 2 ** n(1, 40)))
    out = [w(i() + ''.join(f' {ch("+-")} {i()}' for _ in range(k()))) for _ in range(4)] + [w(i() + ''.join(f' {ch(["&", "|", "^", "+", "-"])} {i()}' for _ in range(k()))) for _ in range(4)]
    out += [r(repr(n(0, 99) / 7) + ''.join(f' {ch("+-*")} {n(1, 99) / 8!r}' for _ in range(k()))) for _ in range(4)]
    out += [w('-' * k() + '5'), w('~' * k() + '5'), w('!' * k() + 'true ? 1 : 2'), w('true' + ''.join(f' {ch(["&&", "||", "^^"])} {ch(["true", "false", "1 < 2", "!true"])}' for _ in range(k())) + ' ? 1 : 0'), w('true ? ' * 9 + '1' + ' : 2' * 9), w(' : '.join(f'{ch(["true", "false"])} ? {x}' for x in range(12)) + ' : 99'),
            r('sin(' * 12 + '1' + ')' * 12), w('abs(' * 9 + '-7' + ')' * 9), w(' * '.join(['2'] * 62)), w(' * '.join(['-3'] * 39)), w('1' + ' << 1' * near(8, 60)), w('9223372036854775807' + ' >> 1' * near(8, 60)), w('9223372036854775807' + ' / 3' * 12), w('9223372036854775807' + ''.join(f' % {x}' for x in (10 ** 17, 10 ** 15, 10 ** 9, 1000, 7))),
            r(' ** '.join(['1.1'] * 9)), r(' / '.join(['2'] * 9)), r('0.' + '1' * near(16, 100)), r('1' * near(16, 100) + '.5'), r('1.5e' + '0' * near(8, 32) + '7')]
    return out


def c10(g, n, ch, near, name):
    pre = P + 'qubit s; bit t\n'
    ts = ['true', '2', '1.5', '(1 < 2)', '7', 'pi']
    out = []
    for o in ('+', '*', '-', '<', '&&', '&', '%', '**', '=='):
        out += [pre + f'Rx({f" {o} ".join(ch(ts) for _ in range(near(4, 16)))}) s' for _ in range(2)] + [pre + f'Rx({f" {o} ".join(["2"] * 9 + [ch(ts)])}) s', pre + f'wait({f" {o} ".join(["2"] * 9)}) s']
    return out + [pre + f'Rx({f}({", ".join(["1"] * near(2, 16))})) s' for f in ('sin', 'abs', 'operator+')] + [pre + f'wait({"true ? " * 5}{ch(ts)}{" : 2" * 5}) s' for _ in range(4)] + [pre + 'Rx(' + ' + '.join(['1'] * 20 + [x]) + ') s' for x in ('t', 's', 'true', '1.5')]


def c11(g, n, ch, near, name):
    D = P + 'qubit s; bit t; qubit[40] v; qubit[40] u; qubit[600] z\n'
    k = lambda: near(4, 8, 16, 32)
    ops = ['s', 'v', 'v[0]', 'v[39]', 'u', 'v[0:38]', 'u[1:39]', 'v[40]', 't', 'z', 'z[0:599]', 'z[512]']
    return [D + f'{x} ' + ', '.join(['s'] * k()) for x in ('X', 'CNOT', 'Rx(1)')] + [D + f'{x}({", ".join(["1"] * k())}) s' for x in ('Rx', 'U', 'Rn', 'X', 'CRk')] + \
           [D + f'{ch(["CNOT", "SWAP", "CZ", "CR(1)", "CRk(3)"])} {ch(ops)}, {ch(ops)}' for _ in range(12)] + [D + '\n'.join(f'{ch(["X", "H", "Rx(1)", "U(1, 2, 3)", "foo", "CNOT"])} {ch(ops)}' for _ in range(60)), D + '\n'.join(f'{x} v[{i}]' for i, x in enumerate(gen.GATES1 + gen.GATES1)),
            D + name(near(32, 128)) + ' s', D + 'X' * near(16, 64) + ' s', D + 'X ' + name(near(32, 128)), D + '\n'.join(f'Rx({i}) s; Ry({i}.5) s; Rz({"true" if i % 2 else i}) s' for i in range(16)), D + 'CNOT z[0:299], z[300:599]', D + 'CNOT z[0:299], z[301:599]', D + 'X z; H z[599]; Y z[600]']


def c12(g, n, ch, near, name):
    D = P + 'qubit s; bit t; qubit[3] v; qubit[3] u\n'
    m = ['inv.', 'pow(2).', 'pow(1/2).', 'pow(0.5 + 1).', 'inv.']
    k = lambda: near(4, 8, 12, 16)
    out = []
    for gate, op in (('X', 's'), ('Rx(pi)', 'v'), ('CNOT', 's, v[0]'), ('Z', 'v[0:1], u[1, 2]'), ('U(1, 2, 3)', 's, s'), ('foo', 's'), ('X(1)', 's'), ('H', 't')):
        ms = [ch(m) for _ in range(k())]
        out.append(D + ''.join(ms) + gate + ' ' + op)
        ms.insert(n(0, len(ms)), 'ctrl.')
        out.append(D + ''.join(ms) + gate + ' ' + op)
        ms.insert(n(0, len(ms)), ch(['ctrl.', 'pow(true).', 'pow(s).', 'pow(1, 2).', 'INV.']))
        out.append(D + ''.join(ms) + gate + ' ' + op)
        out.append(D + ''.join(ms) + gate + ' ' + op + ', v[1]')
    return out + [D + '\n'.join(f'{"".join(ch(m) for _ in range(3))}{ch(["ctrl.", ""])}{ch(["X", "H", "Rx(1)"])} {ch(["s", "s, v[0]", "v"])}' for _ in range(40))]


def c13(g, n, ch, near, name):
    out = []
    for _ in range(9):
        k = near(8, 64, 256, 300, 1000)
        one = lambda: str(n(0, k - 1)) if g.p(.97) else str(ch([k, k + 1, -1, k * 2, k + 256, k + 65536, k + 2 ** 32]))
        def entry():
            if g.p(.3):
                a = n(0, k - 1)
                return f'{a}:{min(k - 1 if g.p(.97) else k, a + n(0, 60))}'
            return one()
        out.append(P + f'qubit[{k}] a; bit[{k}] b\nX a[{", ".join(entry() for _ in range(near(4, 16, 40)))}]\nb[{k - 1}] = measure a[{ch([k - 1, k, 0])}]\nX a[0:{k - 1}]\nX a[0:{k}]')
    ls = [str(i) for i in range(40)]
    out += [P + 'qubit[40] q; X q[' + ', '.join(ls) + ']', P + 'qubit[40] q; X q[' + ', '.join(ls[:n(1, 39)] + ['40'] + ls) + ']', P + 'qubit[40] q; X q[' + ', '.join(ls + ['7:3'] + ls) + ']', P + 'qubit[40] q; X q[' + ', '.join(ls[:20] + ['1.5'] + ls) + ']', P + 'qubit[40] q; X q[' + ', '.join(reversed(ls)) + ', 0:39, 5]',
            P + f'qubit[{n(2 ** 33, 2 ** 62)}] q; X q[{n(2 ** 32, 2 ** 33)}]; X q[0, {2 ** 33}, 4294967296:4294967299]', P + 'qubit[300] q; X q[' + ' + '.join(['9'] * 33) + ']; X q[' + ' + '.join(['9'] * 34) + ']']
    return out


def c14(g, n, ch, near, name):
    out = []
    for _ in range(14):
        k = near(8, 16, 64, 256, 300)
        d = ch([0, 0, 0, 1])
        l = lambda v, s: ch([v, f'{v}[0:{s - 1}]', f'{v}[' + ', '.join(str(i) for i in range(s)) + ']' if s < 70 else v])
        out.append(P + f'qubit[{k}] a; qubit[{k + d}] c; bit[{k}] b; bit[{k + d}] e\n{ch(["CNOT", "CZ", "SWAP", "ctrl.X", "CR(1)"])} {l("a", k)}, {l("c", k + d)}\n{l("b", k)} = measure {l("c", k + d)}\n{l("e", k + d)} = measure {l("a", k)}')
    for k in (256, 257, 512):
        out.append(P + f'qubit[{k}] a; qubit b; qubit[{k - 256 or 1}] c; bit[{k}] d\nCNOT a, b; CNOT b, a; CNOT a, c; CNOT c, a; d = measure c; d = measure a; d[0:{k - 1}] = measure a; d[0] = measure a')
    return out


def c15(g, n, ch, near, name):
    D = P + 'qubit s; bit t; qubit[40] v; bit[40] w\n'
    k = lambda: near(4, 8, 32)
    i40 = ', '.join(str(i) for i in range(40))
    return [D + f'{x} ' + ', '.join(['s'] * k()) for x in ('reset', 'init', 'barrier', 'wait(1)')] + [D + f't = measure({", ".join(["1"] * k())}) s', D + f'w = measure v[{i40}]; w[{i40}] = measure v; w[0:38] = measure v[1:39]', D + f'barrier v[{i40}]; reset v[{i40}]; init v; wait(7) v[{i40}, 0:39]', D + f'wait({"1 + " * k()}1) v', D + f'wait({"0" * 30}9) v',
            D + '\n'.join(ch(['reset s', 'init v', 'barrier v[1, 2]', 'wait(3) v', 't = measure s', 'w = measure v', 'reset t', 'w = measure s', 'wait(1.5) s', 'init 1', 'reset w']) for _ in range(60)), D + f'w[{i40}] = measure(0, 0, 1) v', D + f'w[{i40}, 1] = measure v']


def c16(g, n, ch, near, name):
    st = ['qubit a', 'X a', 'bit b', 'X nope', 'a = measure a', 'X a[0]', "asm(B) '''t'''", 'qubit[0] z', 'Rx(1/0) a', 'inv.CNOT a, a', 'H a', 'wait(1.5) a', 'barrier a', 'qubit[2] c', 'CNOT c[0], c[1]', 'CNOT a, c']
    k = lambda: near(16, 64, 100)
    return [P + 'qubit a\n' + 'X nope\n' * k(), P + 'qubit a\n' + '\n'.join(f'X n{i}' for i in range(k())), P + 'qubit a\n' + 'X a\n' * k() + 'X nope', P + 'qubit a\n' + 'X a; X nope\n' * k() + 'H a'] + [P + '\n'.join(ch(st) for _ in range(k())) for _ in range(6)] + [P + 'X b; X b; qubit b; X b\n' * 20, 'version 3.1\n' + '\n'.join(ch(st) for _ in range(40)), P + 'qubit a\n' + '\n'.join(['X nope'] * 20 + ['H a'] * 20 + ['X nope'] * 20 + ['Y a'])]


def c25(g, n, ch, near, name):
    ps = ['a', "'", "''", '\n', '\r\n', ' ', '\t', '\\', '"', '//', '/*', '*/', '{', '}', 'é', '😀', ';', 'qubit q', '0']
    out = []
    for k in (8, 32, 64, 128, 256, 512, 1024):
        body = ''.join(ch(ps) for _ in range(k + n(-1, 1))).replace("'''", "''.")
        out.append(P + f"asm({name(near(4, 16, 64))}) '''{body}.'''" + ch(['', '\nqubit q; X q', '\nX nope']))
    return out + [P + "asm(B) '''" + 'x' * near(1024, 4096) + "'''", P + "asm(B) '''" + ch(['x', ' ', '\n']) * near(32768, 65536) + "'''; qubit q", P + "asm(B) '''" + '\n' * near(64, 256) + "'''", P + "asm(B) '''" + "' " * 60 + "'''", P + "asm(B) '''" + "''x" * 60 + "'''", P + "\n".join(f"asm(B{i}) '''{i}'''" for i in range(30)), P + "asm(B) '''" + ' ' * near(64, 256) + "x'''", P + "asm(B) '''x" + ' \n' * near(64, 256) + "'''"]


LARGE = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C25': c25}


def any_of(rnd, count, longest=3000):
    """large programs of every kind, and some that are long in one way only, for checks of forms and robustness"""
    out = [t for prop in LARGE for t in big(prop, rnd, True) if len(t) <= longest]
    rnd.shuffle(out)
    k = lambda *xs: max(1, rnd.choice(xs) + rnd.randint(-1, 2))
    ones = [P + 'qubit q;' + ' ' * k(32768, 65536) + 'X z', P + 'qubit q;/*' + '\n' * k(32768, 65536) + '*/X z', P + "asm(B) '''" + 'x' * k(32768, 65536) + "'''; qubit q", P + '\n'.join(f'qubit q{i}' for i in range(k(64, 128))), P + 'qubit q\n' + 'X q;' * k(64, 128), P + 'X z\n' * k(64, 128),
            P + 'qubit ' + 'a' * k(256, 1024), P + 'X ' + 'z' * k(256, 1024), P + 'qubit[300] q; X q[' + ', '.join(str(i) for i in range(k(128, 257))) + ']', P + 'qubit[300] q; X q[0:' + str(k(127, 255)) + ']', 'version 3' + '.0' * k(8, 31, 255), P + 'Rx(' + ' + '.join(['1'] * k(24, 40)) + ') q', P + 'f(' + ', '.join(['1'] * k(24, 64, 255)) + ') q']
    return out[:count] + [x.encode() for x in ones]
