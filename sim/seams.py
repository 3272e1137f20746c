"""Seams: every source of nondeterminism plycutter meets, put behind one seeded scheduler.

Nothing here edits /repo.  An import hook compiles the plycutter modules from
/repo's working tree with
  * set displays / set comprehensions turned into calls of SimSet, and the names
    set / frozenset / hash / id bound (module globals) to simulated versions,
so that the iteration order of every unordered collection -- which in a real
deployment depends on PYTHONHASHSEED, on object addresses (ASLR), and on
allocation history -- is chosen by the scheduler.  pyrsistent's PMap (the
container all of SheetPlex / SheetBuild is stored in) gets its hash() from the
scheduler as well, which is exactly what PYTHONHASHSEED does to it.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import random
import sys
import zlib

REPO = os.environ.get('PLYSIM_REPO', '/repo')
PKG = 'plycutter'

_hash = builtins.hash
_id = builtins.id


class OrderScheduler:
    """Decides the order of unordered collections.

    mode 'off'  : natural CPython behaviour (insertion order for address-hashed objects)
    mode 'real' : permutes only what really varies between two executions
                  (string hashes, address-hashed objects)
    mode 'any'  : permutes every unordered collection (what the language allows)
    window      : (lo, hi) -- only decisions with lo <= index < hi are permuted;
                  the minimiser shrinks it.
    """

    def __init__(self, seed=0, mode='off', window=None):
        self.seed = seed
        self.mode = mode
        self.rng = random.Random('order/%s' % seed)
        self.salt = self.rng.getrandbits(60) if mode != 'off' else 0
        self.n = 0
        self.permuted = 0
        self.window = window
        self.trace_crc = 0
        self.iterations = 0

    def strhash(self, s):
        if self.mode == 'off':
            return zlib.crc32(s.encode('utf8', 'surrogatepass'))
        h = zlib.crc32(s.encode('utf8', 'surrogatepass')) ^ (self.salt & 0xffffffff)
        # a splitmix round, so that low bits depend on the salt
        h = (h * 0x9E3779B97F4A7C15 + self.salt) & ((1 << 61) - 1)
        h ^= h >> 29
        h = (h * 0xBF58476D1CE4E5B9) & ((1 << 61) - 1)
        return h ^ (h >> 32)

    def key(self, element, natural):
        """Position key of an element that has just entered a set."""
        self.n += 1
        if self.mode == 'off':
            return natural
        if self.mode == 'real':
            if isinstance(element, str):
                return self.strhash(element)
            if stable_hash(element):
                return None
        if self.window is not None and not (
                self.window[0] <= self.n < self.window[1]):
            return natural
        self.permuted += 1
        k = self.rng.random()
        self.trace_crc = zlib.crc32(repr(k).encode(), self.trace_crc)
        return k


_kind = {}           # type -> True (stable), False, or 2 (a container)


def _classify(t):
    if issubclass(t, (int, float, complex, bool, bytes)) or t is type(None):
        return True
    if issubclass(t, (tuple, frozenset)):
        if any(b.__module__.startswith('pyrsistent') for b in t.__mro__):
            return False
        return 2
    if issubclass(t, str):
        return False
    if t.__hash__ is object.__hash__:
        return False                     # hashed by address
    # objects that define their own __hash__ over values are treated as stable,
    # except the containers that hash their (string) keys
    return not any(b.__module__.startswith('pyrsistent') for b in t.__mro__)


def stable_hash(x):
    """True if hash(x) is a pure function of the value in every process."""
    t = type(x)
    k = _kind.get(t)
    if k is None:
        k = _kind[t] = _classify(t)
    if k != 2:
        return k
    for y in x:
        j = _kind.get(type(y))
        if j is True:
            continue
        if j is False or not stable_hash(y):
            return False
    return True


def contains_str(x):
    if isinstance(x, str):
        return True
    if isinstance(x, tuple):
        return any(contains_str(y) for y in x)
    return False


SCHED = OrderScheduler()


def set_scheduler(s):
    global SCHED
    SCHED = s


def sim_hash(x):
    if isinstance(x, str):
        return SCHED.strhash(x)
    if type(x) is tuple and contains_str(x):
        return _hash(tuple(sim_hash(y) for y in x))
    return _hash(x)


_ids = {}


def sim_id(x):
    r = _ids.get(_id(x))
    if r is None:
        # keep x alive so that the simulated address stays unique
        r = (((SCHED.rng.getrandbits(40) if SCHED.mode != 'off' else 0) << 24)
             + len(_ids) * 16, x)
        _ids[_id(x)] = r
    return r[0]




class SimSet(set):
    """A set whose iteration order is a scheduler decision.

    The order is stable while the set is not modified (Python guarantees that
    much) and otherwise arbitrary.
    """
    __slots__ = ('_o',)

    def __init__(self, it=()):
        set.__init__(self)
        self._o = {}
        for x in it:
            self.add(x)

    # -- mutation
    def add(self, x):
        if x not in self._o:
            self._o[x] = SCHED.key(x, len(self._o) + SCHED.n * 1e-9)
            set.add(self, x)

    def discard(self, x):
        if x in self._o:
            del self._o[x]
            set.discard(self, x)

    def remove(self, x):
        del self._o[x]
        set.remove(self, x)

    def pop(self):
        if not self._o:
            raise KeyError('pop from an empty set')
        for x in self:
            break
        self.remove(x)
        return x

    def clear(self):
        self._o.clear()
        set.clear(self)

    def update(self, *others):
        for o in others:
            for x in list(o):
                self.add(x)

    def difference_update(self, *others):
        for o in others:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *others):
        keep = self.intersection(*others)
        for x in list(self._o):
            if not set.__contains__(keep, x):
                self.discard(x)

    def symmetric_difference_update(self, other):
        for x in list(dict.fromkeys(other)):
            if x in self._o:
                self.discard(x)
            else:
                self.add(x)

    def _chk(self, other):
        return isinstance(other, (set, frozenset)) or (
            hasattr(other, '__contains__') and hasattr(other, '__iter__')
            and hasattr(other, 'isdisjoint'))

    def __ior__(self, other):
        if not self._chk(other):
            return NotImplemented
        self.update(other)
        return self

    def __isub__(self, other):
        if not self._chk(other):
            return NotImplemented
        self.difference_update(other)
        return self

    def __iand__(self, other):
        if not self._chk(other):
            return NotImplemented
        self.intersection_update(other)
        return self

    def __ixor__(self, other):
        if not self._chk(other):
            return NotImplemented
        self.symmetric_difference_update(other)
        return self

    # -- non-mutating, results are SimSets again
    def copy(self):
        return SimSet(self._o)

    __copy__ = copy

    def union(self, *others):
        r = SimSet(self._o)
        r.update(*others)
        return r

    def difference(self, *others):
        r = SimSet(self._o)
        r.difference_update(*others)
        return r

    def intersection(self, *others):
        others = [o if isinstance(o, (set, frozenset, dict)) else set(o)
                  for o in others]
        return SimSet(x for x in self._o if all(x in o for o in others))

    def symmetric_difference(self, other):
        r = SimSet(self._o)
        r.symmetric_difference_update(other)
        return r

    def __or__(self, other):
        return self.union(other) if self._chk(other) else NotImplemented

    def __ror__(self, other):
        return SimSet(other).union(self) if self._chk(other) else NotImplemented

    def __and__(self, other):
        return self.intersection(other) if self._chk(other) else NotImplemented

    __rand__ = __and__

    def __sub__(self, other):
        return self.difference(other) if self._chk(other) else NotImplemented

    def __rsub__(self, other):
        return SimSet(other).difference(self) if self._chk(other) else NotImplemented

    def __xor__(self, other):
        return self.symmetric_difference(other) if self._chk(other) else NotImplemented

    __rxor__ = __xor__

    # -- the decision
    def __iter__(self):
        SCHED.iterations += 1
        o = self._o
        if SCHED.mode == 'off':
            return iter(list(o))
        if any(v is None for v in o.values()):
            if all(v is None for v in o.values()):
                # values whose hash is the same in every process
                return set.__iter__(self)
            items = list(o.items())
            return iter([x for x, v in sorted(
                items, key=lambda kv: -1 if kv[1] is None else kv[1])])
        return iter(sorted(o, key=o.__getitem__))

    def __repr__(self):
        return 'SimSet(%r)' % (list(self),)

    def __reduce__(self):
        return (SimSet, (list(self._o),))


class SimFrozenSet(frozenset):
    """Immutable counterpart."""

    def __new__(cls, it=()):
        it = list(dict.fromkeys(it))
        self = frozenset.__new__(cls, it)
        self._o = SimSet(it)
        return self

    def __iter__(self):
        return iter(self._o)

    def __or__(self, other):
        return SimFrozenSet(list(self) + list(other))

    def __and__(self, other):
        return SimFrozenSet(x for x in self if x in other)

    def __sub__(self, other):
        return SimFrozenSet(x for x in self if x not in other)

    def __xor__(self, other):
        return SimFrozenSet(self._o.symmetric_difference(other))


class _SetRewriter(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name(id='__sim_set__', ctx=ast.Load()),
            args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name(id='__sim_set__', ctx=ast.Load()),
            args=[ast.ListComp(elt=node.elt, generators=node.generators)],
            keywords=[]), node)


CODES = []          # every code object of the plycutter modules (for the step monitor)


def _collect(co):
    CODES.append(co)
    for c in co.co_consts:
        if isinstance(c, type(co)):
            _collect(c)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_SetRewriter().visit(tree))
        co = compile(tree, path, 'exec', dont_inherit=True)
        _collect(co)
        return co

    def exec_module(self, module):
        module.__dict__['__sim_set__'] = SimSet
        module.__dict__['set'] = SimSet
        module.__dict__['frozenset'] = SimFrozenSet
        module.__dict__['hash'] = sim_hash
        module.__dict__['id'] = sim_id
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        rel = fullname.split('.')
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base):
            fn = os.path.join(base, '__init__.py')
            if not os.path.exists(fn):
                return None
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=_Loader(fullname, fn),
                submodule_search_locations=[base])
        fn = base + '.py'
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=_Loader(fullname, fn))
        return None


_installed = False


def install():
    """Install the import hook (before plycutter is imported)."""
    global _installed
    if _installed:
        return
    assert not any(m == PKG or m.startswith(PKG + '.') for m in sys.modules)
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    import pyrsistent._pmap as pm
    import pyrsistent._pset as ps
    pm.hash = sim_hash
    ps.hash = sim_hash
    _installed = True
