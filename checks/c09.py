"""C09: records and lists against a plain dict/list model over edit histories."""
import copy

from lib.pbt import Check
from lib import ref, model
from lib.model import ABSENT, POOL, Record, ListOf, Union, AnyOf
from checks.c08 import show, walk
from asn1crypto import core

check = Check('C09', rule=(
    'histories of 1-14 operations (assign, delete, append, refused edits, reads, encodes, forced encodes, reloads, copies) at random nesting '
    'depths of values of generated schemas, starting from built or loaded values. Non-trivial: at least two edits of which one follows an '
    'encode or a read; distinct by the final encoding and the history.'))


def containers(ty, a, o, path, out, depth=0):
    """every record and list reachable through directly nested records and lists"""
    out.append((ty, a, o, path))
    if isinstance(ty, Record):
        for f in ty.fields:
            if a[f.name] is not ABSENT and isinstance(f.ty, (Record, ListOf)):
                containers(f.ty, a[f.name], lambda o=o, f=f: o()[f.name], path + [f.name], out, depth + 1)
    elif isinstance(ty, ListOf) and isinstance(ty.child, (Record, ListOf)) and not ty.is_set:
        for i in range(len(a)):
            containers(ty.child, a[i], lambda o=o, i=i: o()[i], path + [i], out, depth + 1)
    return out


def want_container(t):
    return isinstance(t, (Record, ListOf))


WRONG = [lambda: object(), lambda: [1, object()], lambda: 3.5]


def picky(ty):
    """is there anything the type refuses?"""
    if isinstance(ty, ListOf):
        return picky(ty.child)
    return not isinstance(ty, AnyOf) and not issubclass(ty.cls, (core.Null, core.Boolean))


GARBAGE = {core.UTF8String: b'\x0c\x01\xff', core.IA5String: b'\x16\x02a\xff', core.UTCTime: b'\x17\x019', core.GeneralizedTime: b'\x18\x01x',
           core.BMPString: b'\x1e\x01a'}


class Machine(object):
    def __init__(self, g, ty, a, o, der_only):
        self.g, self.ty, self.a, self.o = g, ty, a, o
        self.der_only = der_only
        self.edits = 0
        self.late = 0
        self.seen = 0
        self.hist = []

    def step(self, what):
        self.hist.append(what)
        self.g.log(what)

    def compare_native(self):
        if not model.matches(self.ty, self.a, self.o.native):
            self.g.fail('native after the history', got=self.o.native, want=self.ty.nat(self.a), history=self.hist)
        self.seen += 1
        self.g.unit()

    def compare_dump(self, force):
        got = self.o.dump(force=True) if force else self.o.dump()
        want = model.der(self.ty, self.a)
        self.seen += 1
        self.g.unit()
        if self.der_only or force:
            if got != want:
                self.g.fail('encoding after the history', got=got, want=want, force=force, history=self.hist)
            if force:
                self.der_only = True
        else:
            b = self.ty.cls.load(got)
            if not model.matches(self.ty, self.a, b.native):
                self.g.fail('encoding after the history decodes to something else', got=b.native, want=self.ty.nat(self.a), encoded=got,
                            history=self.hist)

    def edit(self):
        g = self.g
        ty, a, get, path = g.choice(containers(self.ty, self.a, lambda: self.o, [], []))
        obj = get()
        if isinstance(ty, Record):
            self.edit_record(ty, a, obj, path)
        else:
            self.edit_list(ty, a, obj, path)

    def did(self):
        self.edits += 1
        if self.seen:
            self.late += 1

    def edit_record(self, ty, a, obj, path):
        g = self.g
        f = g.choice(ty.fields)
        key = f.name if g.draw(4) else ty.fields.index(f)
        k = g.draw(6)
        if k == 5:
            # a refused edit
            bad = g.draw(5)
            if bad == 4:
                if f.ty.cls in GARBAGE:
                    self.poison(obj, key, path, lambda: f.ty.inp(g, a[f.name]) if a[f.name] is not ABSENT else None, f.ty.cls)
                return
            try:
                if bad == 0:
                    self.step('set unknown field of %r' % (path,))
                    obj['no_such_field'] = 1
                elif bad == 1:
                    self.step('delete unknown field of %r' % (path,))
                    del obj['no_such_field']
                elif bad == 2 and f.mode == 'req':
                    self.step('delete required %r of %r' % (f.name, path))
                    del obj[f.name]
                else:
                    if not picky(f.ty):
                        return
                    self.step('assign an unusable value to %r of %r' % (f.name, path))
                    obj[key] = g.choice(WRONG)()
            except (KeyError, ValueError, TypeError, IndexError):
                return
            g.fail('an impossible edit was accepted', history=self.hist)
        if k == 4 and f.mode != 'req':
            self.step('delete %r of %r' % (f.name, path))
            del obj[key]
            a[f.name] = ABSENT if f.mode == 'opt' else copy.deepcopy(f.default)
            self.did()
            return
        if k == 3 and f.mode == 'opt':
            self.step('assign None to %r of %r' % (f.name, path))
            obj[key] = None
            a[f.name] = ABSENT
            self.did()
            return
        if k == 2 and f.mode == 'def':
            v = copy.deepcopy(f.default)
        else:
            v = copy.deepcopy(f.ty.gen(g, 3))
        self.step('assign %r of %r = %r' % (f.name, path, v))
        obj[key] = f.ty.inp(g, v) if g.draw(2) else f.ty.obj(g, v)
        a[f.name] = v
        self.did()

    def poison(self, obj, key, path, good, cls):
        """an object whose contents can not be decoded: either it is refused and
        nothing changes, or it is accepted and what it replaced is put back"""
        if self.g.draw(3):
            obj.native
        bad = cls.load(GARBAGE[cls])
        self.step('assign undecodable contents to %r of %r' % (key, path))
        try:
            if key is None:
                obj.append(bad)
            else:
                obj[key] = bad
        except ValueError:
            return
        if key is None:
            del obj[len(obj) - 1]
        else:
            obj[key] = good()

    def index_of(self, ty, a, obj, i):
        """the model's index of the library's i-th item"""
        if not ty.is_set:
            return i
        pairs = model.pair(ty, a, list(obj)) if self.der_only else None
        if pairs is None:
            same = [j for j, x in enumerate(a) if model.matches(ty.child, x, obj[i].native)]
            if not same:
                self.g.fail('a member of a set-of is not in the model', got=obj[i].native, want=[ty.child.nat(x) for x in a],
                            history=self.hist)
            if len(same) > 1:
                # equal natives, perhaps of different alternatives: the octets tell them apart
                got = obj[i].dump()
                ders = dict((j, model.der(ty.child, a[j])) for j in same)
                exact = [j for j in same if ders[j] == got]
                if exact:
                    return exact[0]
                same = [j for j in same if ders[j][:1] == got[:1]]
                if not same or len(set(ders[j] for j in same)) > 1:
                    # nothing does
                    return None
            return same[0]
        x = pairs[i][0]
        for j, y in enumerate(a):
            if y is x:
                return j

    def place(self, a, i):
        """an index, from the front or from the back"""
        return i - len(a) if self.g.draw(4) == 3 else i

    def edit_list(self, ty, a, obj, path):
        g = self.g
        k = g.draw(6)
        if k <= 1 or not a:
            v = copy.deepcopy(ty.child.gen(g, 3))
            if k == 1 and not g.draw(2):
                self.step('assign item %d (the end) of %r = %r' % (len(a), path, v))
                obj[len(a)] = ty.item(g, v)
            else:
                self.step('append to %r %r' % (path, v))
                obj.append(ty.item(g, v))
            a.append(v)
            self.did()
        elif k == 2:
            i = g.draw(len(a))
            j = self.index_of(ty, a, obj, i)
            if j is None:
                return
            at = self.place(a, i)
            self.step('delete item %d of %r' % (at, path))
            del obj[at]
            del a[j]
            self.did()
        elif k == 5:
            bad = g.draw(5)
            if bad == 4:
                if ty.child.cls in GARBAGE:
                    i = g.draw(len(a) + 1)
                    if i == len(a):
                        self.poison(obj, None, path, None, ty.child.cls)
                    else:
                        j = self.index_of(ty, a, obj, i)
                        if j is None:
                            return
                        self.poison(obj, i, path, lambda: ty.item(g, a[j]), ty.child.cls)
                return
            try:
                if bad == 0:
                    self.step('delete item %d of %r' % (len(a) + 1, path))
                    del obj[len(a) + 1]
                elif bad == 3:
                    self.step('delete item %d of %r' % (-len(a) - 1, path))
                    del obj[-len(a) - 1]
                elif bad == 1:
                    if not picky(ty.child):
                        return
                    self.step('append an unusable value to %r' % (path,))
                    obj.append(g.choice(WRONG)())
                else:
                    if not picky(ty.child):
                        return
                    self.step('assign an unusable value to an item of %r' % (path,))
                    obj[g.draw(len(a))] = g.choice(WRONG)()
            except (KeyError, ValueError, TypeError, IndexError):
                return
            g.fail('an impossible edit was accepted', history=self.hist)
        else:
            i = g.draw(len(a))
            j = self.index_of(ty, a, obj, i)
            if j is None:
                return
            v = copy.deepcopy(ty.child.gen(g, 3))
            at = self.place(a, i)
            self.step('assign item %d of %r = %r' % (at, path, v))
            obj[at] = ty.item(g, v)
            a[j] = v
            self.did()

    def read(self):
        g = self.g
        ty, a, get, path = g.choice(containers(self.ty, self.a, lambda: self.o, [], []))
        obj = get()
        self.seen += 1
        k = g.draw(8)
        self.step('read %d at %r' % (k, path))
        if k == 0:
            if not model.matches(ty, a, obj.native):
                g.fail('native of a part', got=obj.native, want=ty.nat(a), path=path, history=self.hist)
        elif k == 1:
            g.eq(len(obj), len(ty.fields) if isinstance(ty, Record) else len(a), 'len()', path=path, history=self.hist)
        elif k == 2:
            if isinstance(ty, Record):
                f = g.choice(ty.fields)
                n = obj[f.name].native
                if not (n is None if a[f.name] is ABSENT else model.matches(f.ty, a[f.name], n)):
                    g.fail('a field', field=f.name, got=n, want=a[f.name], path=path, history=self.hist)
            elif not ty.is_set:
                for x, c in zip(a, obj):
                    if not model.matches(ty.child, x, c.native):
                        g.fail('an item', got=c.native, want=ty.child.nat(x), path=path, history=self.hist)
        elif k == 3 and self.der_only:
            got = obj.contents
            want = ref.read(model.der(ty, a)).content
            if got != want:
                g.fail('contents of a part', got=got, want=want, path=path, history=self.hist)
        elif k == 4 and self.der_only and not path:
            walk(g, self.ty, self.a, self.o)
        elif k == 5:
            obj.dump()
        elif k == 6:
            c = obj.copy()
            if not model.matches(ty, a, c.native):
                g.fail('native of the copy of a part', got=c.native, want=ty.nat(a), path=path, history=self.hist)
            if self.der_only:
                g.eq(c.contents, obj.contents, 'contents of the copy of a part', path=path, history=self.hist)
        elif k == 7:
            c = obj.copy()
            ed = Machine(g, ty, copy.deepcopy(a), c, False)
            ed.edit()
            self.hist.append('on a copy: %s' % ed.hist)
            if not model.matches(ty, ed.a, c.native):
                g.fail('native of the edited copy of a part', got=c.native, want=ty.nat(ed.a), path=path, history=self.hist)
        g.unit()

    def reload(self):
        g = self.g
        k = g.draw(4)
        if k == 0:
            self.step('reload')
            self.compare_dump(False)
            self.o = self.ty.cls.load(self.o.dump())
            if self.der_only:
                self.a = model.decoded(self.ty, self.a)
        elif k == 1:
            self.step('copy')
            self.o = self.o.copy()
        elif k == 2:
            self.step('copy.copy')
            self.o = copy.copy(self.o)
        else:
            self.step('reload from the forced encoding')
            self.compare_dump(True)
            self.o = self.ty.cls.load(self.o.dump())
            self.a = model.decoded(self.ty, self.a)

    def run(self, n):
        g = self.g
        for _ in range(n):
            k = g.draw(10)
            if k < 5:
                self.edit()
            elif k < 7:
                self.read()
            elif k == 7:
                self.step('encode')
                self.compare_dump(False)
            elif k == 8:
                if g.draw(3):
                    self.step('native')
                    self.compare_native()
                else:
                    self.step('forced encode')
                    self.compare_dump(True)
            else:
                self.reload()
        if g.draw(2):
            self.compare_native()
            self.compare_dump(False)
        else:
            self.compare_dump(False)
            self.compare_native()
        self.compare_dump(True)
        self.compare_native()
        if self.edits > 1 and self.late:
            g.nontrivial((self.hist, self.o.dump()))
            g.sample('%s: %s' % (show(self.ty), '; '.join(self.hist))[:900])
        g.label('edits after a read or encode' if self.late else 'edits only')


@check.prop(40000, 800000)
def edits(g):
    ty = POOL.pick(g, want=want_container)
    a = copy.deepcopy(ty.gen(g))
    g.log('type', show(ty))
    g.log('start', a)
    k = g.draw(3)
    der_only = True
    if k == 0:
        o = ty.obj(g, a)
        g.log('built')
    elif k == 1:
        o = ty.cls.load(model.der(ty, a))
        a = model.decoded(ty, a)
        g.log('loaded')
    else:
        b = ref.Ber(g)
        data = b.spell(ty.node(a))
        g.log('loaded from', data)
        o = ty.cls.load(data)
        der_only = not b.used
        if not b.used:
            a = model.decoded(ty, a)
    Machine(g, ty, a, o, der_only).run(1 + g.draw(14))
