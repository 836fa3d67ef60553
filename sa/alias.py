"""Points-to by value-flow: which argument's object graph a value belongs to.

pts(v) is a set of abstract objects:
  ('P', name, path)  some object reachable from parameter `name`; path holds the
                     first two field names / '*' (an element) of the access path
  ('M', x)     a module-level / default-argument object
  ('N', uid)   an object created in the analysed call (new container, instance, call result)
  ('U',)       unknown
Scalars and strings have no abstract object."""
from .types import base, NUMS

VIEW_METHODS = {'reshape', 'ravel', 'transpose', 'view', 'squeeze', 'swapaxes', 'diagonal', 'getfield', '__iter__'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'data', 'indices', 'indptr', 'row', 'col'}
VIEW_CALLS = {'numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.transpose', 'numpy.squeeze', 'numpy.real', 'numpy.imag', 'numpy.asanyarray',
              'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.swapaxes', 'numpy.ascontiguousarray', 'numpy.diagonal', 'numpy.flip', 'numpy.flipud', 'numpy.fliplr',
              'numpy.rollaxis', 'numpy.moveaxis', 'numpy.broadcast_to', 'numpy.split', 'numpy.array_split', 'numpy.expand_dims'}
SHALLOW = {'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sorted', 'builtins.dict', 'copy.copy', 'builtins.frozenset', 'builtins.reversed',
           'builtins.iter', 'builtins.enumerate', 'builtins.zip', 'builtins.filter', 'builtins.map', 'itertools.chain', 'itertools.product', 'itertools.combinations',
           'itertools.permutations', 'collections.OrderedDict', 'collections.deque'}
SCALAR = {'int', 'float', 'complex', 'num', 'bool', 'str', 'none', 'type', 'func', 'opaque', 'slice'}
U = ('U',)


class Alias:
    def __init__(self, I):
        self.I = I
        self.T = I.T
        self.memo = {}
        self.cmemo = {}
        self.busy = set()
        self.hits = set()
        self.vals = {}
        self.defobjs = getattr(I, 'defobjs', {})
        self.globals = {}
        for m, g in I.gcache.items():
            if isinstance(m, str) and isinstance(g, dict):
                for n, v in g.items():
                    if n and v.op in ('new', 'inst'):
                        self.globals[v.uid] = '%s.%s' % (m, n)

    def scalar(self, v):
        t = base(self.T.ty(v))
        return t in SCALAR

    def N(self, v):
        self.vals[v.uid] = v
        return ('N', v.uid)

    def pts(self, v):
        m = self.memo.get(v.uid)
        if m is not None:
            return m
        if v.uid in self.busy:
            self.hits.add(v.uid)
            return frozenset()
        self.busy.add(v.uid)
        try:
            r = frozenset(self._pts(v))
        finally:
            self.busy.discard(v.uid)
        self.hits.discard(v.uid)
        if not self.hits:
            self.memo[v.uid] = r
        return r

    def _pts(self, v):
        o = v.op
        if o in ('const', 'idx', 'cmp', 'un', 'func', 'cls', 'ext', 'mod', 'repomod', 'undef', 'unlisted', 'slice'):
            return ()
        if o == 'bool':
            r = set()
            for a in v.args:
                r |= self.pts(a)
            return r
        if o == 'param':
            return () if self.scalar(v) else (('P', v.x[1], ()),)
        if o == 'global':
            return (('M', '.'.join(v.x)),)
        if o in ('new', 'inst'):
            if v.uid in self.defobjs:
                return (('M', 'default of %s(%s)' % self.defobjs[v.uid]),)
            if v.uid in self.globals:
                return (('M', self.globals[v.uid]),)
            return (self.N(v),)
        if o == 'tuple':
            return (self.N(v),)
        if o == 'join':
            r = set()
            for a in v.args:
                r |= self.pts(a)
            return r
        if o == 'mu':
            r = set(self.pts(v.args[0]))
            for b in v.back:
                r |= self.pts(b)
            return r
        if o == 'narrow':
            return self.pts(v.args[0])
        if o == 'aug':
            if self.T.mutable(v.args[0]):
                return self.pts(v.args[0])
            if self.scalar(v.args[0]):
                return ()
            return (U,)
        if self.scalar(v) and o != 'dyn':
            return ()
        if o == 'attr':
            t = self.T.ty(v.args[0])
            if self.T.repo_class(t) is not None:
                return self.contents_of(self.pts(v.args[0]), field=v.x)
            if v.x in VIEW_ATTRS:
                return self.pts(v.args[0])
            if v.x in ('shape', 'dtype', 'size', 'ndim', 'nnz', 'H', 'A'):
                return (self.N(v),)
            return self.contents_of(self.pts(v.args[0]))
        if o == 'item':
            b, i = v.args
            t = base(self.T.ty(b))
            if t == 'array':
                it = base(self.T.ty(i))
                if i.op == 'slice':
                    return self.pts(b)
                if i.op == 'tuple':
                    ts = [x.op == 'slice' or base(self.T.ty(x)) in NUMS for x in i.args]
                    if all(ts):
                        return self.pts(b)
                    return (self.N(v),)
                if it in ('list', 'array'):
                    return (self.N(v),)
                if it in NUMS:
                    return self.pts(b)     # a row of a 2d array is a view
                return (U,)
            if t == 'sparse':
                return (self.N(v),)
            if i.op == 'slice':
                return (self.N(v),) if t in ('list', 'tuple', 'str') else (U,)
            return self.contents_of(self.pts(b))
        if o == 'elem':
            t = base(self.T.ty(v.args[0]))
            if t == 'array':
                return self.pts(v.args[0])
            return self.contents_of(self.pts(v.args[0]))
        if o == 'call':
            n = v.x[0]
            if n in VIEW_CALLS and v.args:
                if base(self.T.ty(v.args[0])) in ('list', 'tuple'):
                    return (self.N(v),)
                return self.pts(v.args[0])
            if n == 'numpy.array' and 'copy' in v.x[1]:
                c = v.args[len(v.args) - len(v.x[1]) + v.x[1].index('copy')]
                if c.op == 'const' and c.x in (False, None):
                    return self.pts(v.args[0])
            if n in ('builtins.max', 'builtins.min', 'builtins.next'):
                return self.contents_of(self.pts(v.args[0])) if v.args else (U,)
            if n == 'builtins.getattr':
                return (U,)
            return (self.N(v),)
        if o == 'mcall':
            m = v.x[0]
            t = base(self.T.ty(v.args[0]))
            if t in ('array', 'sparse') and m in VIEW_METHODS:
                return self.pts(v.args[0])
            if t in ('array', 'sparse', 'str'):
                return (self.N(v),)
            if t == 'dict' and m in ('get', 'pop', 'setdefault'):
                return self.contents_of(self.pts(v.args[0]))
            if t == 'list' and m == 'pop':
                return self.contents_of(self.pts(v.args[0]))
            if t == 'set' and m == 'pop':
                return self.contents_of(self.pts(v.args[0]))
            if m in ('copy', 'items', 'keys', 'values', 'union', 'intersection', 'difference', 'dot', 'toarray', 'conj', 'tocsr', 'tocsc', 'flatten', 'astype'):
                return (self.N(v),)
            return (U,)
        if o == 'bin':
            return (self.N(v),)
        if o == 'rcall':
            return (U,)
        return (U,)

    def contents_of(self, objs, field=None):
        r = set()
        for ob in objs:
            if ob[0] == 'P':
                r.add(ob if len(ob[2]) > 1 else ('P', ob[1], ob[2] + (field or '*',)))
            elif ob[0] in ('M', 'U'):
                r.add(ob)
            else:
                r |= self.contents(ob)
        return r

    def contents(self, ob):
        k = ob
        if k in self.cmemo:
            return self.cmemo[k]
        if k in self.busy:
            self.hits.add(k)
            return frozenset()
        self.busy.add(k)
        try:
            r = frozenset(self._contents(self.vals[ob[1]]))
        finally:
            self.busy.discard(k)
        self.hits.discard(k)
        if not self.hits:
            self.cmemo[k] = r
        return r

    def _contents(self, v):
        o = v.op
        I = self.I
        r = set()
        if o == 'tuple':
            for a in v.args:
                r |= self.pts(a)
            return r
        if o == 'new':
            if v.x == 'dict':
                for k, w in I.objinit.get(v.uid) or ():
                    r |= self.pts(w)
                    if k is not None:
                        r |= self.pts(k)
            else:
                for w in I.objinit.get(v.uid) or ():
                    r |= self.pts(w)
            for e in I.byobj.get(v.uid, ()):
                if e.kind == 'method' and e.x in ('append', 'add', 'insert', 'setdefault', 'appendleft'):
                    for a in e.args[1:]:
                        r |= self.pts(a)
                elif e.kind == 'method' and e.x in ('extend', 'update'):
                    for a in e.args[1:]:
                        r |= self.contents_of(self.pts(a))
                elif e.kind == 'store_item':
                    r |= self.pts(e.args[2])
                    r |= self.pts(e.args[1])
                elif e.kind == 'aug_name' and e.x == 'Add':
                    r |= self.contents_of(self.pts(e.args[1]))
            return r
        if o == 'inst':
            for h in getattr(I, 'final_heap', []):
                for k, w in h.items():
                    if k[0] == 'inst' and k[1] == v.uid:
                        r |= self.pts(w)
            return r
        if o == 'call':
            n = v.x[0]
            if n in SHALLOW:
                for a in v.args:
                    r |= self.contents_of(self.pts(a))
                if n in ('builtins.zip', 'builtins.enumerate', 'itertools.product', 'itertools.combinations', 'itertools.permutations'):
                    # elements are fresh tuples of the contents; one summary is enough
                    pass
                return r
            return ()
        if o == 'mcall':
            m = v.x[0]
            if m in ('copy', 'items', 'keys', 'values', 'union', 'intersection', 'difference'):
                for a in v.args:
                    r |= self.contents_of(self.pts(a))
            return r
        if o == 'item':
            return self.contents_of(self.pts(v.args[0]))
        if o == 'bin':
            for a in v.args:
                if base(self.T.ty(a)) in ('list', 'tuple'):
                    r |= self.contents_of(self.pts(a))
            return r
        return ()


BY_TYPE = {
    'list': {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', '__setitem__', '__iadd__', '__delitem__'},
    'set': {'add', 'discard', 'remove', 'pop', 'update', 'clear', 'difference_update', 'intersection_update', 'symmetric_difference_update'},
    'dict': {'update', 'pop', 'popitem', 'setdefault', 'clear', '__setitem__', '__delitem__'},
    'array': {'sort', 'fill', 'resize', 'put', 'partition', 'itemset', 'setflags', 'setfield', '__setitem__', '__iadd__', '__isub__', '__imul__', '__itruediv__'},
    'sparse': {'sum_duplicates', 'eliminate_zeros', 'sort_indices', 'setdiag', 'prune', 'resize', 'sort', '__setitem__'},
}
ANY = set().union(*BY_TYPE.values())
EXT_MUT = {'numpy.fill_diagonal', 'numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask', 'numpy.put_along_axis', 'numpy.add.at', 'numpy.subtract.at',
           'numpy.multiply.at', 'random.shuffle', 'numpy.random.shuffle', 'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'builtins.setattr', 'builtins.delattr',
           'builtins.object.__setattr__', 'builtins.list.sort', 'builtins.list.append', 'builtins.list.extend', 'builtins.list.reverse', 'builtins.set.add', 'builtins.dict.update',
           'bisect.insort', 'operator.iadd', 'operator.isub', 'operator.imul', 'operator.setitem', 'numpy.ndarray.sort', 'builtins.list.clear', 'builtins.list.pop'}


def mutations(I):
    """(event, mutated value, description) for every operation of the trace that changes an existing object"""
    T = I.T
    for e in I.trace:
        k = e.kind
        if e.stack and e.stack[0] == '<module init>':
            continue
        if k in ('store_item', 'del_item'):
            yield e, e.args[0], 'item assignment' if k == 'store_item' else 'item deletion'
        elif k == 'aug_item':
            yield e, e.args[0], 'in-place item update'
            v = e.args[3]
            if v.op == 'aug' and base(T.ty(v.args[0])) in ('array', 'list', 'set', 'dict'):
                yield e, v.args[0], 'in-place update of an element'
        elif k in ('store_attr', 'del_attr'):
            yield e, e.args[0], 'assignment to attribute %s' % (e.x[0] if k == 'store_attr' else e.x)
        elif k == 'aug_name':
            if base(T.ty(e.args[0])) in ('array', 'list', 'set', 'dict', 'sparse') and not (base(T.ty(e.args[0])) == 'sparse' and e.x in ('Add', 'Sub', 'MatMult')):
                yield e, e.args[0], 'augmented assignment'
        elif k == 'method':
            t = base(T.ty(e.args[0]))
            names = BY_TYPE.get(t)
            if names is None:
                names = ANY if t in ('unknown', 'undef') else ()
            if e.x in names:
                yield e, e.args[0], 'call of .%s()' % e.x
        elif k == 'call':
            name, kn = e.x
            if name in EXT_MUT and e.args:
                yield e, e.args[0], 'call of %s' % name
            for kw in kn:
                if kw == 'out' or kw.startswith('overwrite_'):
                    v = e.args[len(e.args) - len(kn) + kn.index(kw)]
                    if kw == 'out':
                        yield e, v, 'out= argument of %s' % name
                    elif v.op == 'const' and v.x is True and e.args:
                        yield e, e.args[0], '%s= of %s' % (kw, name)
