"""Walking and reading library objects through their public interface only."""
import contextlib
import copy
import io

from asn1crypto import core

REFUSED = (ValueError, TypeError)


def kids(o, parsed=True):
    """[(label, child)] of a library value"""
    out = []
    if isinstance(o, core.Concat):
        return [(str(i), o[i]) for i in range(len(o._child_specs))]
    if isinstance(o, (core.Sequence, core.SequenceOf)):
        for i in range(quiet(lambda: len(o)) or 0):
            try:
                out.append(('[%d]' % i, o[i]))
            except REFUSED:
                pass
    elif isinstance(o, core.Choice):
        c = quiet(lambda: o.chosen)
        if c is not None:
            out.append(('chosen', c))
    elif parsed and isinstance(o, (core.Any, core.ParsableOctetString, core.ParsableOctetBitString)):
        try:
            p = o.parsed
            if p is not o:
                out.append(('parsed', p))
        except REFUSED:
            pass
    return out


_props = {}


def props(cls):
    """names of the public properties a value class adds to the generic interface"""
    if cls not in _props:
        names = []
        for k in sorted(dir(cls)):
            if not k.startswith('_') and isinstance(getattr(cls, k), property) and k != 'native':
                names.append(k)
        _props[cls] = names
    return _props[cls]


def quiet(fn):
    try:
        return fn()
    except REFUSED:
        return None


OPS = ['native', 'len', 'iterate', 'index', 'repr', 'str', 'bytes', 'dump', 'contents', 'copy', 'copy.copy', 'pickle', 'debug', 'untag',
       'retag', 'cast', 'equal', 'hash', 'props', 'descend', 'descend', 'descend', 'descend']


def read(g, o, depth=0, strict=False):
    """One random read of o or of something inside it; returns a description"""
    op = g.choice(OPS)
    if op == 'descend':
        if depth > 12:
            return 'deep'
        ks = kids(o)
        if not ks:
            quiet(lambda: o.native)
            return 'native'
        name, k = g.choice(ks)
        if isinstance(k, core.Void):
            return name + ' (absent)'
        return name + '.' + read(g, k, depth + 1, strict)
    run(g, op, o)
    return op


def run(g, op, o):
    if op == 'native':
        quiet(lambda: o.native)
    elif op == 'len':
        if hasattr(o, '__len__'):
            quiet(lambda: len(o))
    elif op == 'iterate':
        if hasattr(o, '__iter__'):
            quiet(lambda: list(o))
    elif op == 'index':
        if isinstance(o, (core.Sequence, core.SequenceOf)):
            n = quiet(lambda: len(o))
            if n:
                quiet(lambda: o[g.draw(n)])
    elif op == 'repr':
        repr(o)
    elif op == 'str':
        quiet(lambda: str(o))
    elif op == 'bytes':
        if hasattr(type(o), '__bytes__') and not isinstance(o, core.Any):
            quiet(lambda: bytes(o))
    elif op == 'dump':
        o.dump()
    elif op == 'contents':
        quiet(lambda: o.contents)
    elif op == 'copy':
        quiet(lambda: o.copy())
    elif op == 'copy.copy':
        quiet(lambda: copy.copy(o))
    elif op == 'pickle':
        if hasattr(o, '__reduce__') and isinstance(o, core.Asn1Value):
            o.__reduce__()
    elif op == 'debug':
        with contextlib.redirect_stdout(io.StringIO()):
            quiet(lambda: o.debug())
    elif op == 'untag':
        if isinstance(o, core.Asn1Value):
            quiet(lambda: o.untag().dump())
    elif op == 'retag':
        if isinstance(o, core.Asn1Value):
            mode = 'explicit' if isinstance(o, (core.Choice, core.Any)) or g.draw(2) else 'implicit'
            quiet(lambda: o.retag({mode: g.draw(40)}).dump())
    elif op == 'cast':
        if isinstance(o, core.OctetBitString):
            quiet(lambda: o.cast(core.BitString).native)
        elif isinstance(o, core.OctetString):
            quiet(lambda: o.cast(core.ParsableOctetString).dump())
    elif op == 'equal':
        quiet(lambda: o == o)
        quiet(lambda: o == 5)
        quiet(lambda: o == o.copy())
    elif op == 'hash':
        if type(o).__hash__ is not None:
            quiet(lambda: hash(o))
    elif op == 'props':
        for k in props(type(o)):
            try:
                getattr(o, k)
            except Exception:
                # what an accessor says is decided elsewhere
                pass
