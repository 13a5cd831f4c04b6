"""Interpret a few lines of client code against the classes of the program."""
import ast

from .absint import Interp
from .model import Func


class Follow(Interp):
    def __init__(self, prog, **kw):
        kw.setdefault('depth', 8)
        Interp.__init__(self, prog, **kw)


def drive(prog, mod, body, params=(), cls=None, init=None, args=None,
          interp=Follow, **kw):
    """All paths through `body` (source lines), as a function of the module
    `mod` or a method of `cls`: (interpreter, final states)."""
    names = (['self'] if cls is not None else []) + list(params)
    src = 'def _client(%s):\n' % ', '.join(names)
    src += '\n'.join('    ' + x for x in body.strip('\n').split('\n')) + '\n'
    m = cls.module if cls is not None else prog.mod(mod)
    f = Func(ast.parse(src).body[0], m, cls=cls)
    it = interp(prog, **kw)
    return it, it.run(f, selfcls=cls, init=init, args=args)
