"""Common intermediate representation for the C++ and Python front ends."""


class N:
    def __init__(self, k, loc=None, **kw):
        self.k = k
        self.loc = loc
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s(%s)' % (self.k, ', '.join('%s=%r' % (a, v) for a, v in self.__dict__.items() if a not in ('k', 'loc')))


class Param:
    def __init__(self, name, ty='', byref=False, default=None, kind='pos'):
        self.name, self.ty, self.byref, self.default, self.kind = name, ty, byref, default, kind

    def __repr__(self):
        return self.name


class Func:
    def __init__(self, key, name, cls, params, body, loc, lang, ret='', doc=None, deco=()):
        self.key, self.name, self.cls = key, name, cls
        self.params, self.body, self.loc, self.lang, self.ret = params, body, loc, lang, ret
        self.doc, self.deco = doc, deco
        self.inits = []
        self.static = False

    def __repr__(self):
        return '<%s>' % self.key


def children(n):
    for a, v in n.__dict__.items():
        if a in ('k', 'loc'):
            continue
        if isinstance(v, N):
            yield v
        elif isinstance(v, (list, tuple, dict)):
            for x in v.values() if isinstance(v, dict) else v:
                if isinstance(x, N):
                    yield x
                elif isinstance(x, (list, tuple)):
                    for y in x:
                        if isinstance(y, N):
                            yield y


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(children(x))))
