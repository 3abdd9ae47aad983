"""Mechanical extraction of a Cython module to Python source, run with the project's own
Cython (its parser), on every run.  What it drops: C storage classes (cdef/cpdef/inline),
nogil / prange scheduling arguments, compiler directives (boundscheck, wraparound,
cdivision) and cimports.  C types are kept as string annotations ('double', 'int',
'double[:,::1]') which the verifier interprets as coercions.  Anything it does not know
raises, so nothing is skipped silently.
Usage: python pyx2py.py FILE.pyx  -> prints Python source."""
import sys
from Cython.Compiler import Nodes as N, ExprNodes as E
from Cython.Compiler.TreeFragment import parse_from_strings
from Cython.Compiler import Errors, StringEncoding


class W(object):
    def __init__(self):
        self.out = []
        self.ind = 0

    def line(self, s):
        self.out.append('    ' * self.ind + s)

    def err(self, n):
        raise NotImplementedError('pyx2py: %s at %s' % (type(n).__name__, n.pos[1:]))

    # ---- types
    def ctype(self, base, decl):
        suffix = ''
        while not isinstance(decl, N.CNameDeclaratorNode):
            if isinstance(decl, N.CPtrDeclaratorNode):
                suffix += '*'
                decl = decl.base
            elif isinstance(decl, N.CFuncDeclaratorNode):
                decl = decl.base
            elif isinstance(decl, N.CArrayDeclaratorNode):
                suffix += '[]'
                decl = decl.base
            else:
                self.err(decl)
        return self.base(base) + suffix, decl.name, decl.default

    def base(self, b):
        if isinstance(b, N.CSimpleBaseTypeNode):
            if b.name is None:
                return 'object'
            nm = '.'.join(list(b.module_path) + [b.name])
            if getattr(b, 'longness', 0):
                nm = 'long ' * b.longness + nm
            return nm
        if isinstance(b, N.MemoryViewSliceTypeNode):
            ax = ','.join(':' for _ in b.axes)
            return self.base(b.base_type_node) + '[' + ax + ']'
        if isinstance(b, N.TemplatedTypeNode):
            nd = 1
            if b.keyword_args is not None:
                for kv in b.keyword_args.key_value_pairs:
                    if self.ex(kv.key) == "'ndim'":
                        nd = int(self.ex(kv.value))
            inner = self.ex(b.positional_args[0]) if b.positional_args else 'object'
            return 'ndarray<%s>[%s]' % (inner, ','.join(':' * 1 for _ in range(nd)))
        if isinstance(b, N.CComplexBaseTypeNode):
            return self.base(b.base_type)
        self.err(b)

    # ---- statements
    def stats(self, n):
        k = len(self.out)
        self.st(n)
        if len(self.out) == k:
            self.line('pass')

    def block(self, n):
        self.ind += 1
        self.stats(n)
        self.ind -= 1

    def st(self, n):
        if n is None:
            return
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.err(n)
        m(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.st(s)

    def s_ModuleNode(self, n):
        if n.doc:
            pass
        self.st(n.body)

    def s_CImportStatNode(self, n): pass
    def s_FromCImportStatNode(self, n):
        for imp in n.imported_names:
            nm = imp[1] if len(imp) > 1 else imp
            al = imp[2] if len(imp) > 2 and imp[2] else nm
            if n.module_name == 'cython.parallel':
                self.line('%s = __vc_prange__' % al if nm in ('prange', 'parallel') else 'pass')
            elif n.module_name in ('libc.math',):
                self.line('from __vc_libm__ import %s as %s' % (nm, al))
            else:
                self.line('from %s import %s as %s' % (n.module_name, nm, al))

    def s_CDefExternNode(self, n):
        if n.include_file in ('math.h',) or n.include_file is None or True:
            for s in getattr(n.body, 'stats', [n.body]):
                if isinstance(s, N.CVarDefNode):
                    for d in s.declarators:
                        _, nm, _ = self.ctype(s.base_type, d)
                        if n.include_file == 'math.h':
                            self.line('from __vc_libm__ import %s' % nm)
                        else:
                            self.line('from __vc_extern__ import %s' % nm)

    def s_CVarDefNode(self, n):
        for d in n.declarators:
            if isinstance(d, N.CFuncDeclaratorNode):
                continue
            ty, nm, default = self.ctype(n.base_type, d)
            if default is None:
                self.line('%s: %r' % (nm, ty))
            else:
                self.line('%s: %r = %s' % (nm, ty, self.ex(default)))

    def args(self, args):
        o = []
        for a in args:
            ty, nm, _ = self.ctype(a.base_type, a.declarator)
            if nm == '' and isinstance(a.base_type, N.CSimpleBaseTypeNode):
                nm, ty = a.base_type.name, 'object'
            s = nm
            if ty != 'object':
                s += ': %r' % ty
            if a.default is not None:
                s += '=' + self.ex(a.default)
            o.append(s)
        return o

    def s_CFuncDefNode(self, n):
        fd = n.declarator
        while not isinstance(fd, N.CFuncDeclaratorNode):
            fd = fd.base
        rt = self.base(n.base_type)
        self.line('def %s(%s)%s:' % (fd.base.name, ', '.join(self.args(fd.args)),
                                     ' -> %r' % rt if rt != 'object' else ''))
        self.block(n.body)

    def s_DefNode(self, n):
        a = self.args(n.args)
        if n.star_arg: a.append('*' + n.star_arg.name)
        if n.starstar_arg: a.append('**' + n.starstar_arg.name)
        self.line('def %s(%s):' % (n.name, ', '.join(a)))
        self.block(n.body)

    def s_CompilerDirectivesNode(self, n): self.st(n.body)
    def s_PassStatNode(self, n): self.line('pass')
    def s_BreakStatNode(self, n): self.line('break')
    def s_ContinueStatNode(self, n): self.line('continue')

    def s_ExprStatNode(self, n):
        if isinstance(n.expr, (E.StringNode, E.UnicodeNode, E.BytesNode)):
            return
        self.line(self.ex(n.expr))

    def s_ReturnStatNode(self, n):
        self.line('return' + (' ' + self.ex(n.value) if n.value is not None else ''))

    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.line('%s %s:' % ('if' if i == 0 else 'elif', self.ex(c.condition)))
            self.block(c.body)
        if n.else_clause is not None:
            self.line('else:')
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        seq = n.iterator.sequence
        self.line('for %s in %s:' % (self.ex(n.target), self.ex(seq)))
        self.block(n.body)
        if n.else_clause is not None:
            self.line('else:')
            self.block(n.else_clause)

    def s_ForFromStatNode(self, n):
        lo = self.ex(n.bound1) + ('+1' if n.relation1 == '<' else '')
        hi = self.ex(n.bound2) + ('+1' if n.relation2 == '<=' else '')
        self.line('for %s in range(%s, %s):' % (self.ex(n.target), lo, hi))
        self.block(n.body)

    def s_WhileStatNode(self, n):
        self.line('while %s:' % self.ex(n.condition))
        self.block(n.body)

    def s_GILStatNode(self, n): self.st(n.body)

    def s_SingleAssignmentNode(self, n):
        if isinstance(n.rhs, E.ImportNode):
            nm = self.ex(n.rhs.module_name)[1:-1]
            if n.rhs.name_list is None or '.' not in nm:
                self.line('import %s as %s' % (nm, self.ex(n.lhs)))
            else:
                self.line('import %s as %s' % (nm, self.ex(n.lhs)))
            return
        self.line('%s = %s' % (self.ex(n.lhs), self.ex(n.rhs)))

    def s_FromImportStatNode(self, n):
        mod = self.ex(n.module.module_name)[1:-1]
        dots = '.' * max(0, n.module.level or 0)
        self.line('from %s%s import %s' % (dots, mod, ', '.join('%s as %s' % (a, self.ex(b)) for a, b in n.items)))

    def s_CascadedAssignmentNode(self, n):
        self.line(' = '.join(self.ex(l) for l in n.lhs_list) + ' = ' + self.ex(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        self.line('%s %s= %s' % (self.ex(n.lhs), n.operator, self.ex(n.rhs)))

    def s_RaiseStatNode(self, n):
        self.line('raise' + (' ' + self.ex(n.exc_type) if n.exc_type is not None else ''))

    # ---- expressions
    def ex(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.err(n)
        return m(n)

    def e_NameNode(self, n): return str(n.name)
    def e_IntNode(self, n): return str(n.value)
    def e_FloatNode(self, n): return str(n.value)
    def e_BoolNode(self, n): return 'True' if n.value else 'False'
    def e_NoneNode(self, n): return 'None'
    def e_UnicodeNode(self, n): return repr(str(n.value))
    def e_StringNode(self, n): return repr(str(n.unicode_value if n.unicode_value is not None else n.value))
    def e_BytesNode(self, n): return repr(str(n.value))
    def e_IdentifierStringNode(self, n): return repr(str(n.value))
    def e_AttributeNode(self, n): return '%s.%s' % (self.ex(n.obj), n.attribute)
    def e_IndexNode(self, n): return '%s[%s]' % (self.ex(n.base), self.idx(n.index))
    def idx(self, i):
        if isinstance(i, E.TupleNode):
            return ', '.join(self.idx(a) for a in i.args)
        if isinstance(i, E.SliceNode):
            return self.e_SliceNode(i)
        return self.ex(i)
    def e_SliceNode(self, n):
        f = lambda a: '' if a is None or isinstance(a, E.NoneNode) else self.ex(a)
        s = f(n.start) + ':' + f(n.stop)
        return s + ':' + f(n.step) if f(n.step) else s
    def e_SliceIndexNode(self, n):
        f = lambda a: '' if a is None or isinstance(a, E.NoneNode) else self.ex(a)
        return '%s[%s:%s]' % (self.ex(n.base), f(n.start), f(n.stop))
    def e_SimpleCallNode(self, n): return '%s(%s)' % (self.ex(n.function), ', '.join(self.ex(a) for a in n.args))
    def e_GeneralCallNode(self, n):
        parts = []
        if isinstance(n.positional_args, E.TupleNode):
            parts += [self.ex(a) for a in n.positional_args.args]
        else:
            parts.append('*' + self.ex(n.positional_args))
        if n.keyword_args is not None:
            for kv in n.keyword_args.key_value_pairs:
                k = self.ex(kv.key)[1:-1]
                if k in ('nogil', 'schedule', 'num_threads', 'chunksize'):
                    continue
                parts.append('%s=%s' % (k, self.ex(kv.value)))
        return '%s(%s)' % (self.ex(n.function), ', '.join(parts))
    def e_TupleNode(self, n): return '(' + ', '.join(self.ex(a) for a in n.args) + (',)' if len(n.args) == 1 else ')')
    def e_ListNode(self, n): return '[' + ', '.join(self.ex(a) for a in n.args) + ']'
    def e_DictNode(self, n): return '{' + ', '.join('%s: %s' % (self.ex(k.key), self.ex(k.value)) for k in n.key_value_pairs) + '}'
    def binop(self, n): return '(%s %s %s)' % (self.ex(n.operand1), n.operator, self.ex(n.operand2))
    def __getattr__(self, name):
        raise AttributeError(name)
    def e_PrimaryCmpNode(self, n):
        op = {'is_not': 'is not', 'not_in': 'not in'}.get(n.operator, n.operator)
        s = '(%s %s %s' % (self.ex(n.operand1), op, self.ex(n.operand2))
        c = n.cascade
        while c is not None:
            s += ' %s %s' % ({'is_not': 'is not', 'not_in': 'not in'}.get(c.operator, c.operator), self.ex(c.operand2))
            c = c.cascade
        return s + ')'
    def e_BoolBinopNode(self, n): return '(%s %s %s)' % (self.ex(n.operand1), n.operator, self.ex(n.operand2))
    def e_NotNode(self, n): return '(not %s)' % self.ex(n.operand)
    def e_UnaryMinusNode(self, n): return '(-%s)' % self.ex(n.operand)
    def e_UnaryPlusNode(self, n): return '(+%s)' % self.ex(n.operand)
    def e_CondExprNode(self, n): return '(%s if %s else %s)' % (self.ex(n.true_val), self.ex(n.test), self.ex(n.false_val))
    def e_TypecastNode(self, n):
        ty = self.base(n.base_type)
        return '__vc_cast__(%r, %s)' % (ty, self.ex(n.operand))


for nm in ('AddNode', 'SubNode', 'MulNode', 'DivNode', 'PowNode', 'ModNode', 'IntBinopNode', 'MatMultNode',
           'BitwiseOrNode', 'NumBinopNode'):
    setattr(W, 'e_' + nm, W.binop)


def convert(path):
    src = open(path, encoding='utf-8').read()
    tree = parse_from_strings('m', src)
    w = W()
    w.s_ModuleNode(tree)
    return '\n'.join(w.out) + '\n'


if __name__ == '__main__':
    sys.stdout.reconfigure(encoding='utf-8')
    print(convert(sys.argv[1]))
