"""One process of C07: reads pickled types, compares them with types made here, pickles them again.

argv: in-file out-file|-
The in-file is a pickled list of (term, bare, what, bytes); the types themselves are in the bytes.
"""
import json
import os
import pickle
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


def made(term, bare):
    from mc import terms as t
    return t.build_measure(term[2]) if bare else t.build(term)


def parts(o, limit=200):
    """the types within a type, in order"""
    from mc import terms as t
    out, todo = [], [o.measure, o.parameters]
    while todo and len(out) < limit:
        x = todo.pop(0)
        if isinstance(x, t.T.Mono):
            out.append(x)
            if x is not o.measure or len(out) == 1:
                todo.append(x.parameters)
        elif isinstance(x, (list, tuple)):
            todo += list(x)
    return out


def used(o):
    """everything that could leave something behind in the object and in its parts"""
    from mc import terms as t
    for x in [o] + parts(o):
        hash(x), str(x), repr(x), x == x, x.shape, x.measure, len(x), x.info()
        if isinstance(x, t.T.Record):
            x.names, x.types, x.dict
    return o


def pickles(o, p):
    return pickle.dumps([o, {'k': o}, o.measure], p)


def main():
    src, dst = sys.argv[1:3]
    import datashape
    if not os.path.abspath(datashape.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('wrong datashape ' + datashape.__file__)
    from mc import terms as t
    with open(src, 'rb') as h:
        items = pickle.load(h)
    bad, again = [], []
    for term, bare, what, data in items:
        here = made(term, bare)
        try:
            o, d, m = pickle.loads(data)
            why = None
            if d['k'] is not o or type(o) is not type(here):
                why = 'is a %s' % type(o)
            elif not t.strict_eq(t.observe(o), term):
                why = 'is %r' % (o,)
            elif not (o == here and here == o) or o != here or here != o:
                why = 'is not equal to the type made here'
            elif hash(o) != hash(here) or len({o, here}) != 1 or {here: 1}.get(o) != 1 or {o: 1}.get(here) != 1:
                why = 'does not hash like the type made here'
            elif not (m == here.measure and hash(m) == hash(here.measure) and o.measure == here.measure and hash(o.measure) == hash(here.measure)):
                why = 'has another measure'
            elif str(o) != str(here) or repr(o) != repr(here):
                why = 'prints as %s' % o
            else:
                for x, y in zip(parts(o), parts(here)):
                    if x != y or hash(x) != hash(y):
                        why = 'has the part %r' % (x,)
        except Exception as e:
            why = 'fails with %s: %s' % (type(e).__name__, e)
        if why:
            bad.append('%s%s, %s: %s' % (ascii(t.text(term)), ' (bare)' if bare else '', what, ascii(why)))
            continue
        if dst != '-':
            for p in (2, pickle.HIGHEST_PROTOCOL):
                again.append((term, bare, '%s and again by %d' % (what, p), pickles(used(o), p)))
    if dst != '-':
        with open(dst, 'wb') as h:
            pickle.dump(again, h)
    json.dump({'bad': bad[:5], 'n': len(items)}, sys.stdout)


if __name__ == '__main__':
    main()
