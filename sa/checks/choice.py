"""Which of several objects kept in a table of the instance generated code
puts in force (error catchers, filters)."""
import ast


def complaints(ends, cur, what):
    out = []
    for e in ends:
        have, c = e.get('have'), e.get(cur)
        if have and (c != 'stored' or e.get('replaced')):
            out.append('a %s that exists is not used (%s)' % (what, c))
        elif have is False and c != 'new':
            out.append('a %s that does not exist is not made (%s)' % (
                what, c))
        elif have is False and e.get('table') != 'new':
            out.append('a new %s is not kept' % what)
        elif have is None:
            out.append('the current %s is %s' % (what, c))
    return sorted(set(out))


class Subst(ast.NodeTransformer):
    def __init__(self, st):
        self.st = st

    def visit_Name(self, n):
        v = self.st.get(n.id)
        if isinstance(n.ctx, ast.Load) and isinstance(v, ast.Constant):
            return v
        return n


def selection(body, table, name, new, curs, stop):
    """Follows a method body path by path. A state maps the expressions in
    `curs` and local names to 'stored' (the object in the table), 'new' (the
    value of `new`), 'None' or a text; 'have' says whether the table had the
    name at first, 'table' what was put into it. Returns the states where
    `stop` holds and those at the end of the body."""
    def dump(e):
        return ast.dump(ast.parse(e, mode='eval').body) if isinstance(
            e, str) else ast.dump(e)
    news = {dump(new)} if new else set()
    ends = []

    def is_table(e, st):
        return ast.unparse(e) == table or isinstance(
            e, ast.Name) and st.get(e.id) == 'TABLE'

    def is_name(e, st):
        if isinstance(e, ast.Name):
            e = st.get(e.id)
        return isinstance(e, ast.Constant) and e.value == name

    def lookup(st, absent='missing'):
        return 'stored' if st['have'] else st.get('table', absent)

    def value(e, st):
        """[(state, value)]"""
        if is_table(e, st):
            return [(st, 'TABLE')]
        full = Subst(st).visit(ast.parse(ast.unparse(e), mode='eval').body)
        if dump(full) in news:
            return [(st, 'new')]
        u = ast.unparse(e)
        if u in curs:
            return [(st, st.get(u))]
        if isinstance(e, ast.Name):
            return [(st, st.get(e.id, '?' + e.id))]
        if isinstance(e, ast.Constant):
            return [(st, 'None' if e.value is None else e)]
        if isinstance(e, ast.Subscript) and is_table(e.value, st) and \
                is_name(e.slice, st):
            return [(s, lookup(s)) for s in split(st)]
        if isinstance(e, ast.Call) and isinstance(
                e.func, ast.Attribute) and is_table(e.func.value, st) and \
                e.args and is_name(e.args[0], st):
            if e.func.attr == 'get':
                out = []
                for s in split(st):
                    for s2, v in value(e.args[1], s) if len(
                            e.args) > 1 else [(s, 'None')]:
                        out.append((s2, lookup(s2, v)))
                return out
            if e.func.attr == 'setdefault' and len(e.args) == 2:
                out = []
                for s in split(st):
                    for s2, v in value(e.args[1], s):
                        if not s2['have'] and 'table' not in s2:
                            s2 = dict(s2, table=v)
                        out.append((s2, lookup(s2)))
                return out
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and \
                len(e.values) == 2:
            out = []
            for s, v in value(e.values[0], st):
                out += value(e.values[1], s) if v == 'None' else [(s, v)]
            return out
        if isinstance(e, ast.IfExp):
            return [p for s, b in branch(e.test, st)
                    for p in value(e.body if b else e.orelse, s)]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) \
                and isinstance(st.get(e.value.id), str) and st[
                    e.value.id].startswith('='):
            return [(st, '=%s.%s' % (st[e.value.id][1:], e.attr))]
        return [(st, '=' + ast.unparse(full))]

    def split(st):
        if st.get('have') is None:
            return [dict(st, have=True), dict(st, have=False)]
        return [st]

    def branch(t, st):
        """[(state, truth)] of a test"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return [(s, not b) for s, b in branch(t.operand, st)]
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op, a, b = t.ops[0], t.left, t.comparators[0]
            if isinstance(op, (ast.In, ast.NotIn)) and is_name(a, st) and \
                    is_table(b, st):
                return [(s, (bool(s['have']) or 'table' in s) ==
                         isinstance(op, ast.In)) for s in split(st)]
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(
                    b, ast.Constant) and b.value is None:
                out = []
                for s, v in value(a, st):
                    if v in ('stored', 'new', 'None'):
                        out.append((s, (v == 'None') ==
                                    isinstance(op, ast.Is)))
                    else:
                        out += [(s, True), (s, False)]
                return out
        return [(st, True), (st, False)]

    def block(stmts, states):
        for s in stmts:
            nxt = []
            for st in states:
                if isinstance(s, ast.If):
                    for s2, b in branch(s.test, st):
                        nxt += block(s.body if b else s.orelse, [s2])
                elif isinstance(s, ast.Try):
                    key = any(isinstance(n, ast.Subscript) and
                              is_table(n.value, st)
                              for x in s.body for n in ast.walk(x))
                    for s2 in split(st) if key else [st]:
                        if key and not s2['have'] and s.handlers:
                            nxt += block(s.handlers[0].body, [s2])
                        else:
                            nxt += block(s.body + s.orelse, [s2])
                elif isinstance(s, ast.Assign):
                    if stop(s, st):
                        ends.append(st)
                        continue
                    for s2, v in value(s.value, st):
                        s2 = dict(s2)
                        for t in s.targets:
                            u = ast.unparse(t)
                            if u in curs:
                                s2[u] = v
                            elif isinstance(t, ast.Subscript) and \
                                    is_table(t.value, s2) and \
                                    is_name(t.slice, s2):
                                s2['table'] = v
                                if s2.get('have') is not False:
                                    s2['replaced'] = True
                            elif isinstance(t, ast.Name):
                                s2[t.id] = v
                        nxt.append(s2)
                else:
                    nxt.append(st)
            uniq = {}
            for st in nxt:
                uniq.setdefault(repr(sorted(
                    (k, v if isinstance(v, (str, bool, type(None)))
                     else ast.dump(v)) for k, v in st.items())), st)
            states = list(uniq.values())
        return states
    rest = block(body, [{}])
    return ends, rest
