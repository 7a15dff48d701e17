"""User-declared records with a field whose type another field decides: by
_oid_pair/_oid_specs, or by a spec callback of each documented form."""
import random

from lib import model, predef, ref
from lib.model import ABSENT, AnyOf, Builder, Field, Prim, Tagging
from lib.pbt import Gen
from lib.predef import Dep, Inside, PRecord
from asn1crypto import core


class Open(PRecord):
    """abstract value of the dependent field: (type, value)"""
    dep = None
    how = ''
    # native value of the selector -> type of the dependent field
    table = {}
    # what the field is when the selector's value is not in the table
    other = None
    keys = ()

    def gen(self, g, depth=0):
        out = {}
        for f in self.fields:
            if f.mode == 'opt' and g.draw(2):
                out[f.name] = ABSENT
            elif f.mode == 'def' and g.draw(3) == 0:
                out[f.name] = f.default
            elif f is self.dep:
                ty = self.chosen(out)
                out[f.name] = (ty, ty.gen(g, depth + 1))
            elif f.name == self.selector and g.draw(4):
                out[f.name] = g.choice(self.keys)
            else:
                out[f.name] = f.ty.gen(g, depth + 1)
        return out

    def chosen(self, out):
        v = out[self.selector]
        if v is ABSENT:
            return self.other
        return self.table.get(self.by_name[self.selector].ty.nat(v), self.other)

    def needed(self, out):
        return False


class OpenBuilder(Builder):
    def open(self, depth=0):
        r = self.r
        dg = Gen(random.Random(r.randrange(1 << 30)))
        is_set = r.randrange(4) == 0
        how = r.choice(['pair', 'pair', 'callback', 'callback', 'untyped', 'both'])
        # the selector
        k = 0 if how == 'pair' else r.randrange(4)
        if k == 0:
            table = dict(('1.2.%d.%d' % (i, i * 77), 'oid_%d' % i) for i in r.sample(range(1, 300), r.randrange(1, 4)))
            sel = model.mapped_oid(type(str(self.cname('Id')), (core.ObjectIdentifier,), {'_map': table}), table)
            keys = sorted(table) + ['1.3.%d' % i for i in r.sample(range(300), r.randrange(2))]
        elif k == 1:
            table = dict((i, 'kind_%d' % i) for i in r.sample(range(-3, 300), r.randrange(1, 5)))
            sel = model.named_int(type(str(self.cname('Kind')), (core.Integer,), {'_map': table}), table)
            keys = sorted(table) + r.sample(range(1000, 1100), r.randrange(2))
        elif k == 2:
            table = dict((i, 'enum_%d' % i) for i in r.sample(range(0, 200), r.randrange(2, 5)))
            sel = model.named_int(type(str(self.cname('Enum')), (core.Enumerated,), {'_map': table}), table, tag=10, closed=True)
            keys = sorted(table)[1:]
        else:
            sel = [p for p in self.prims if p.cls is core.Boolean][0]
            keys = r.choice([[True], [False], [True, False]])
        # the content
        bits = r.randrange(2) and how != 'both'
        octets = (core.ParsableOctetBitString if bits else core.ParsableOctetString)
        form = 'untyped' if how == 'untyped' else 'octets' if how == 'both' else r.choice(['any', 'octets', 'octets'])
        types = {}
        for key in keys:
            ty = self.ty(depth + 1, True)
            # the class of the field itself as the type of its content says nothing
            while form == 'octets' and issubclass(ty.cls, (core.Null, core.ParsableOctetString)) or ty.any_type:
                ty = self.ty(depth + 1, True)
            types[key] = ty
        nat = dict((key, sel.nat(key)) for key in keys)
        if form == 'octets':
            table = dict((nat[key], Inside(octets, types[key], bits)) for key in keys)
            other = predef.build('core.ParsableOctetBitString' if bits else 'core.ParsableOctetString')
        elif form == 'any':
            table = dict((nat[key], types[key]) for key in keys)
            other = AnyOf(self.anyp)
        else:
            table = dict((nat[key], types[key]) for key in keys)
            other = self.prim()
        classes = dict((nat[key], types[key].cls) for key in keys)
        # the record
        before, between, after = r.randrange(2), r.randrange(3), r.randrange(2)
        plan = ['x'] * before + ['sel'] + ['x'] * between + ['dep'] + ['x'] * after
        fields, pending = [], set()
        dep = Dep()
        dep.cls = octets if form == 'octets' else core.Any if form == 'any' else None
        dep.fallback = other
        for i, what in enumerate(plan):
            mode = r.choice(['req', 'req', 'opt', 'opt', 'def'])
            default = None
            if what == 'dep':
                ty = dep
                if form == 'octets':
                    mode = r.choice(['req', 'opt'])
                    stand = other
                    t, ids = self.place(pending, stand)
                elif form == 'any':
                    mode = r.choice(['req', 'opt'])
                    if mode == 'req' and not pending and not is_set and r.randrange(2):
                        t, ids = Tagging(), set()
                    else:
                        t = Tagging('explicit', [(2, 400 + r.randrange(40))])
                        ids = t.ids(None)
                else:
                    mode, t, ids = 'req', Tagging(), set()
            else:
                ty = sel if what == 'sel' else self.prim()
                if what == 'sel':
                    mode = r.choice(['req', 'req', 'opt', 'def'])
                if isinstance(ty, Prim) and ty.cls is core.Null and mode == 'def':
                    mode = 'opt'
                nxt = what == 'dep'
                t, ids = self.place(pending, ty)
                default = ty.gen(dg) if mode == 'def' else None
            name = {'sel': 'kind', 'dep': 'content'}.get(what, 'f%d' % i)
            fields.append(Field(name, ty, mode, t, default))
            pending = pending | ids if is_set or mode != 'req' else set()
        # content without an identifier of its own follows required fields only
        di = plan.index('dep')
        if form == 'untyped' or (form == 'any' and not fields[di].tagging.mode):
            if is_set:
                is_set = False
            for f in fields[:di]:
                if f.mode != 'req':
                    f.mode, f.default = 'req', None
        decl = []
        for f in fields:
            p = self.params(f)
            if f.mode == 'opt':
                p['optional'] = True
            elif f.mode == 'def':
                p['default'] = f.ty.raw(f.default)
            decl.append((f.name, f.ty.cls, p) if p or r.randrange(2) else (f.name, f.ty.cls))
        attrs = {'_fields': decl}
        if how == 'pair':
            attrs['_oid_pair'] = ('kind', 'content')
            attrs['_oid_specs'] = classes
        elif how == 'callback':
            attrs['_spec_callbacks'] = {'content': lambda self: classes.get(self['kind'].native)}
        elif how == 'untyped':
            attrs['_spec_callbacks'] = {'content': lambda self: classes.get(self['kind'].native, other.cls)}
        else:
            # the callback gives the type of the field as well
            attrs['_spec_callbacks'] = {'content': lambda self: (octets, classes.get(self['kind'].native))}
        base = core.Set if is_set else core.Sequence
        out = Open(type(str(self.cname('Open')), (base,), attrs), fields, is_set)
        out.path = out.cls.__name__
        out.how = how + ' ' + form + (' set' if is_set else '')
        out.selector, out.keys, out.table, out.other = 'kind', keys, table, other
        out.dep = out.by_name['content']
        return out


class OpenPool(object):
    SIZE = 1200

    def __init__(self):
        self.cache = {}

    def pick(self, g):
        return self.get(g.draw(self.SIZE))

    def get(self, seed):
        if seed not in self.cache:
            self.cache[seed] = OpenBuilder(random.Random(seed * 6007 + 5), budget=2 + seed // 90).open()
        return self.cache[seed]


POOL = OpenPool()
