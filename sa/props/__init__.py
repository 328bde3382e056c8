"""Registry of the properties."""
import importlib
import os


class Prop(object):
    """subclass per property"""
    pid = None
    level = 'other'
    explanation = ''
    rule = ''
    functions = ()
    assumptions = ()
    variants = ()       # kinds of template data, see tmpl.VARIANTS

    def varies(self, ob, name):
        """is the obligation repeated over data of the kind `name`"""
        return ob.oid.split(':')[0] not in ('reject', 'rejects')

    def everything(self):
        from ..tmpl import varied
        return varied(self.obligations(), self.variants, self.varies) \
            if self.variants else self.obligations()

    def obligations(self):
        raise NotImplementedError


_reg = {}


def register(cls):
    _reg[cls.pid] = cls()
    return cls


def load():
    d = os.path.dirname(__file__)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('sa.props.' + f[:-3])
    return _reg
