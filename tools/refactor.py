"""Mechanical behaviour-preserving rewriting of a copy of the repository: every check must stay quiet on the result.
usage: python3-vt tools/refactor.py COPY_OF_REPO KIND...   KIND in returns invert rename noop extract loops private"""
import ast, builtins, pathlib, sys, symtable
import libcst as cst
import libcst.matchers as m


class Base(cst.CSTTransformer):
    def __init__(self): self.fn = []; self.count = 0
    def jit(self, node): return any('jit' in cst.Module([]).code_for_node(d) or 'property' in cst.Module([]).code_for_node(d) or 'setter' in cst.Module([]).code_for_node(d) for d in node.decorators)
    def numba(self, node): return any('jit' in cst.Module([]).code_for_node(d) for d in node.decorators)


class Returns(Base):
    """return e  ->  outcome_ = e; return outcome_"""
    def leave_SimpleStatementLine(self, o, u):
        if len(u.body) == 1 and isinstance(u.body[0], cst.Return) and u.body[0].value is not None and not isinstance(u.body[0].value, cst.Name):
            self.count += 1
            return cst.FlattenSentinel([cst.parse_statement('outcome_ = 0').with_changes(leading_lines=u.leading_lines, body=[cst.Assign([cst.AssignTarget(cst.Name('outcome_'))], u.body[0].value)]), cst.parse_statement('return outcome_')])
        return u
    def leave_FunctionDef(self, o, u):
        if isinstance(u.body, cst.SimpleStatementSuite) and len(u.body.body) == 1 and isinstance(u.body.body[0], cst.Return) and u.body.body[0].value is not None:
            self.count += 1
            st = cst.SimpleStatementLine([cst.Assign([cst.AssignTarget(cst.Name('outcome_'))], u.body.body[0].value)])
            return u.with_changes(body=cst.IndentedBlock([st, cst.parse_statement('return outcome_')]))
        return u


class Invert(Base):
    """if c: a else: b  ->  if not (c): b else: a"""
    def leave_If(self, o, u):
        if isinstance(u.orelse, cst.Else) and not m.findall(u.test, m.NamedExpr()):
            self.count += 1
            return u.with_changes(test=cst.UnaryOperation(cst.Not(), u.test.with_changes(lpar=[cst.LeftParen()] + list(getattr(u.test, 'lpar', [])), rpar=list(getattr(u.test, 'rpar', [])) + [cst.RightParen()])),
                                  body=u.orelse.body, orelse=u.orelse.with_changes(body=u.body), whitespace_before_test=cst.SimpleWhitespace(' '))
        return u
    def leave_IfExp(self, o, u):
        if m.findall(u.test, m.NamedExpr()): return u
        self.count += 1
        p = lambda e: e.with_changes(lpar=[cst.LeftParen()] + list(e.lpar), rpar=list(e.rpar) + [cst.RightParen()])
        return u.with_changes(test=cst.UnaryOperation(cst.Not(), p(u.test)), body=p(u.orelse), orelse=p(u.body))


class Noop(Base):
    """a statement doing nothing first in every function, a comment at the end"""
    def leave_FunctionDef(self, o, u):
        if isinstance(u.body, cst.IndentedBlock):
            self.count += 1; b = list(u.body.body)
            k = 1 if m.matches(b[0], m.SimpleStatementLine(body=[m.Expr(m.SimpleString())])) else 0
            return u.with_changes(body=u.body.with_changes(body=b[:k] + [cst.parse_statement('unused_ = None')] + b[k:]))
        return u


class Extract(Base):
    """the body of every plain method and function moves to a helper"""
    def __init__(self): super().__init__(); self.cls = []
    def visit_ClassDef(self, n): self.cls.append(n.name.value)
    def leave_ClassDef(self, o, u): self.cls.pop(); return u
    def visit_FunctionDef(self, n): self.fn.append(n)
    def leave_FunctionDef(self, o, u):
        self.fn.pop()
        if self.fn or u.name.value.startswith('__') or any(not m.matches(d, m.Decorator(m.Name('staticmethod'))) for d in u.decorators): return u
        if m.findall(u.body, m.Call(m.Name('super'))) and not self.cls: return u
        ps = u.params
        if ps.star_kwarg and False: return u
        if self.cls and not u.decorators and not ps.params: return u
        static = bool(u.decorators)
        doc = m.matches(u.body, m.IndentedBlock()) and m.matches(u.body.body[0], m.SimpleStatementLine(body=[m.Expr(m.SimpleString())]))
        args = [p.name.value for p in ps.params]
        call = ', '.join(args[(1 if self.cls and not static else 0):] + ([f'*{ps.star_arg.name.value}'] if isinstance(ps.star_arg, cst.Param) else []) + [f'{p.name.value}={p.name.value}' for p in ps.kwonly_params] + ([f'**{ps.star_kwarg.name.value}'] if ps.star_kwarg else []))
        h = f'_{u.name.value.lstrip("_")}_body'
        target = (f'{args[0]}.{h}' if self.cls and not static else f'{self.cls[-1]}.{h}' if self.cls else h)
        if self.cls and m.findall(u.body, m.Call(m.Name('super'))):
            # an override calling super() would meet its own helper again: give each class its own
            h = f'_{u.name.value.lstrip("_")}_body_of_{self.cls[-1]}'; target = f'{args[0]}.{h}' if not static else f'{self.cls[-1]}.{h}'
        if self.cls: h2 = h if h.endswith(self.cls[-1]) else f'{h}_of_{self.cls[-1]}'; target = target.replace(h, h2); h = h2
        self.count += 1
        body = [u.body.body[0]] if doc else []
        body.append(cst.parse_statement(f'return {target}({call})'))
        bare = lambda p: p.with_changes(default=None, annotation=None, equal=cst.MaybeSentinel.DEFAULT)
        helper = u.with_changes(name=cst.Name(h), leading_lines=[], params=ps.with_changes(params=[bare(p) for p in ps.params]))
        return cst.FlattenSentinel([helper, u.with_changes(body=cst.IndentedBlock(body))])


class Loops(Base):
    """x = [e for a in b if c]  ->  a loop appending (inside functions)"""
    def visit_FunctionDef(self, n): self.fn.append(n)
    def leave_FunctionDef(self, o, u): self.fn.pop(); return u
    def leave_SimpleStatementLine(self, o, u):
        if not self.fn or self.numba(self.fn[0]) or len(u.body) != 1: return u
        s = u.body[0]
        if isinstance(s, cst.Return): tgt, v = 'collected_', s.value
        elif isinstance(s, cst.Assign) and len(s.targets) == 1 and isinstance(s.targets[0].target, cst.Name): tgt, v = s.targets[0].target.value, s.value
        else: return u
        if not isinstance(v, cst.ListComp): return u
        code = cst.Module([]).code_for_node
        names = lambda e: {n.value for n in m.findall(e, m.Name())}
        f = v.for_in; bound = set(); lines = ['items_ = []']; ind = ''
        while f is not None:
            bound |= names(f.target)
            lines.append(f'{ind}for {code(f.target)} in {code(f.iter)}:'); ind += '    '
            for c in f.ifs: lines.append(f'{ind}if {code(c.test)}:'); ind += '    '
            f = f.inner_for_in
        if bound & {p.name.value for p in self.fn[-1].params.params}: return u
        lines.append(f'{ind}items_.append({code(v.elt)})')
        lines.append(f'{tgt} = items_' if not isinstance(s, cst.Return) else 'return items_')
        self.count += 1
        return cst.FlattenSentinel(cst.parse_module('\n'.join(lines) + '\n').body)


class Rename(Base):
    """simple local variables get other names"""
    def leave_FunctionDef(self, o, u):
        if self.fn: return u
        return u
    def run(self, src):
        tree = ast.parse(src); edits = []
        def names(fn):
            params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]}
            stored = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            inner = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn]
            ip = {a.arg for f in inner for a in f.args.args + f.args.kwonlyargs} | {f.name for f in inner if isinstance(f, ast.FunctionDef)}
            glob = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
            return stored - params - ip - glob
        def visit(node):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.FunctionDef):
                    if any('jit' in ast.dump(d) for d in ch.decorator_list): continue
                    ns = names(ch)
                    for n in ast.walk(ch):
                        if isinstance(n, ast.Name) and n.id in ns: edits.append((n.lineno, n.col_offset, n.id))
                else: visit(ch)
        visit(tree)
        lines = src.split('\n')
        for l, c, n in sorted(set(edits), reverse=True):
            b = lines[l - 1].encode()
            if b[c:c + len(n)].decode() != n: continue  # f-strings of old positions
            lines[l - 1] = (b[:c] + (n + '_v').encode() + b[c + len(n):]).decode(); self.count += 1
        return '\n'.join(lines)


def main():
    root = pathlib.Path(sys.argv[1]) / 'GPy_ABCD'
    for kind in sys.argv[2:]:
        total = 0
        for p in sorted(root.rglob('*.py')):
            src = p.read_text(); t = {'returns': Returns, 'invert': Invert, 'noop': Noop, 'extract': Extract, 'loops': Loops, 'rename': Rename}[kind]()
            out = t.run(src) if kind == 'rename' else cst.parse_module(src).visit(t).code
            if kind == 'noop': out += '\n# end of file\n'
            compile(out, str(p), 'exec'); p.write_text(out); total += t.count
        print(kind, total)


main()
